"""Runs the sub-checks of one group in one process (or one set of MPI ranks)."""
import argparse
import faulthandler
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from vlib.core import Violation


class _Stop(BaseException):
    pass


def canon(case):
    return json.dumps(case, sort_keys=True)


def spread_cases():
    """A case here costs a simulation, so a run sees tens to hundreds of them, and Hypothesis' defaults, made for thousands
    of cheap ones, would spend most of those on zero-extended small cases and near copies of the case before. Generate
    independent full-size cases instead, with a burst of near copies after one case in ten."""
    import builtins
    from hypothesis.internal.conjecture import engine
    if hasattr(engine, "_lpic"):
        return
    engine._lpic = True
    if hasattr(engine.ConjectureRunner, "generate_mutations_from"):
        orig = engine.ConjectureRunner.generate_mutations_from

        def mutate(self, data):
            self._lpic_n = getattr(self, "_lpic_n", 0) + 1
            if self._lpic_n % 10 == 0:
                orig(self, data)
        engine.ConjectureRunner.generate_mutations_from = mutate
    # the number of small cases tried first is min(max_examples // 10, 50)
    engine.min = lambda *a, **k: 2 if len(a) == 2 and a[1] == 50 and not k else builtins.min(*a, **k)


class Runner:
    def __init__(self, args, prop, group):
        self.a, self.prop, self.group = args, prop, group
        self.out = args.out
        self.comm = None
        self.rank = 0
        if group.ranks > 1:
            from mpi4py import MPI
            self.comm = MPI.COMM_WORLD
            self.rank = self.comm.Get_rank()
            assert self.comm.Get_size() == group.ranks, (self.comm.Get_size(), group.ranks)
        self.subs = {s.name: s for s in group.subs}
        self.known = set(json.loads(args.known))
        self.res = dict(evaluations=0, rejected=0, hashes=[], samples=[], violations=[], known=[],
                        subs={}, notes={})
        self._hashset = set()
        self.t_shrink = 0.0

    # ---- executing one case -------------------------------------------------
    def _mark(self, sub, case):
        if self.rank == 0:
            tmp = self.out + ".cur.tmp"
            with open(tmp, "w") as f:
                json.dump({"sub": sub, "case": case, "t": time.time()}, f)
            os.replace(tmp, self.out + ".cur")

    def _local(self, subname, case):
        faulthandler.dump_traceback_later(float(os.environ.get("VERIF_HANG", 240)) - 15, exit=False)
        try:
            return ("ok", self.subs[subname].run(case, self.comm) or {})
        except Violation as v:
            return ("violation", str(v), v.key)
        except _Stop:
            raise
        except Exception as e:  # noqa
            tb = traceback.extract_tb(e.__traceback__)
            where = "harness"
            for fr in reversed(tb):
                fn = fr.filename
                if "/lambdapic/" in fn:
                    where = "lambdapic"
                    break
                if "/verif" in fn or "/vlib/" in fn or "/props/" in fn:
                    break
            txt = "".join(traceback.format_exception(e))[-3500:]
            if self.comm is not None:
                with open(f"{self.out}.crash{self.rank}", "w") as f:
                    json.dump({"where": where, "txt": txt, "sub": subname, "case": case,
                               "exc": type(e).__name__}, f)
                sys.stderr.write(txt)
                sys.stderr.flush()
                self.comm.Abort(3)
            if where == "lambdapic":
                return ("violation", "unexpected exception:\n" + txt, "exception:" + type(e).__name__)
            return ("error", txt)

    def execute(self, subname, case):
        """Run on all ranks; returns the combined status."""
        self._mark(subname, case)
        if self.comm is not None:
            self.comm.bcast(("case", subname, case), root=0)
        r = self._local(subname, case)
        if self.comm is not None:
            rs = self.comm.gather(r, root=0)
            for x in rs:
                if x[0] == "error":
                    return x
            for x in rs:
                if x[0] == "violation":
                    return x
            r = rs[0]
        return r

    def follower(self):
        while True:
            msg = self.comm.bcast(None, root=0)
            if msg[0] == "stop":
                return
            r = self._local(msg[1], msg[2])
            self.comm.gather(r, root=0)

    # ---- search -------------------------------------------------------------
    def account(self, subname, case, r):
        res = self.res
        res["evaluations"] += 1
        st = res["subs"].setdefault(subname, {"evaluations": 0, "nontrivial": 0})
        st["evaluations"] += 1
        if r[0] == "ok":
            info = r[1]
            if info.get("nontrivial", True):
                h = hashlib.sha1((subname + canon(case)).encode()).hexdigest()[:16]
                if h not in self._hashset:
                    self._hashset.add(h)
                    st["nontrivial"] += 1
                    if st["nontrivial"] in (1, 7, 30):
                        res["samples"].append({"sub": subname, "case": case, "info": {
                            k: v for k, v in info.items() if k != "nontrivial"}})
            for k, v in info.items():
                if k != "nontrivial" and isinstance(v, (int, float, bool)):
                    d = st.setdefault("sums", {})
                    d[k] = d.get(k, 0) + (float(v) if isinstance(v, float) else int(v))

    def search(self, sub, seconds):
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings
        spread_cases()
        state = {"n": 0, "t0": None, "fails": [], "t_fail": None}

        def body(case):
            now = time.time()
            if state["fails"]:
                if now - state["t_fail"] > self.a.shrink:
                    raise _Stop
            elif state["t0"] is not None and now - state["t0"] > seconds and state["n"] >= sub.min_examples:
                raise _Stop
            r = self.execute(sub.name, case)
            if state["t0"] is None:
                state["t0"] = time.time()  # the first case pays for compilation
            state["n"] += 1
            self.account(sub.name, case, r)
            if r[0] == "error":
                self.res["error"] = r[1]
                raise _Stop
            if r[0] == "violation":
                if r[2] in self.known:
                    if r[2] not in self.res["known"]:
                        self.res["known"].append(r[2])
                    return
                if not state["fails"]:
                    state["t_fail"] = time.time()
                state["fails"].append((len(canon(case)), canon(case), r[1], r[2]))
                raise Violation(r[1], r[2])

        h = int(hashlib.sha1(f"{self.a.prop}/{sub.name}/{self.a.seed}/{self.a.shard}".encode()).hexdigest()[:12], 16)
        test = seed(h)(settings(max_examples=sub.max_examples, deadline=None, database=None,
                                suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet,
                                phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                                print_blob=False)(given(sub.strategy)(body)))
        try:
            test()
        except _Stop:
            pass
        except Exception as e:  # noqa
            if not state["fails"]:
                self.res["error"] = "".join(traceback.format_exception(e))[-3000:]
        if state["fails"]:
            best = min(state["fails"])
            self.res["violations"].append({"sub": sub.name, "case": json.loads(best[1]), "msg": best[2],
                                           "key": best[3], "failing_cases_seen": len(state["fails"])})

    def save(self):
        self.res["hashes"] = sorted(self._hashset)
        tmp = self.out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(self.res, f)
        os.replace(tmp, self.out)

    def main(self):
        if self.rank != 0:
            self.follower()
            return
        try:
            todo = json.loads(self.a.cases)
            for item in todo:
                if item["sub"] not in self.subs:
                    continue
                r = self.execute(item["sub"], item["case"])
                self.account(item["sub"], item["case"], r)
                if r[0] == "error":
                    self.res["error"] = r[1]
                    break
                if r[0] == "violation":
                    if r[2] in self.known:
                        if r[2] not in self.res["known"]:
                            self.res["known"].append(r[2])
                    else:
                        self.res["violations"].append({"sub": item["sub"], "case": item["case"], "msg": r[1],
                                                       "key": r[2], "replayed": True})
                        if self.a.mode == "search":
                            break
            if self.a.mode == "search" and not self.res["violations"] and "error" not in self.res:
                tot = sum(s.share for s in self.group.subs)
                for s in self.group.subs:
                    for case in s.warm:
                        r = self.execute(s.name, case)
                        self.account(s.name, case, r)
                        if r[0] == "error":
                            self.res["error"] = r[1]
                        elif r[0] == "violation" and r[2] in self.known:
                            if r[2] not in self.res["known"]:
                                self.res["known"].append(r[2])
                        elif r[0] == "violation":
                            self.res["violations"].append({"sub": s.name, "case": case, "msg": r[1], "key": r[2]})
                    if "error" in self.res or self.res["violations"]:
                        break
                    self.search(s, self.a.budget * s.share / tot)
                    self.save()
                    if self.res["violations"] or "error" in self.res:
                        break
        finally:
            self.save()
            if self.comm is not None:
                self.comm.bcast(("stop",), root=0)


def main():
    ap = argparse.ArgumentParser()
    for n in ("prop", "group", "tier", "out", "known", "cases", "mode"):
        ap.add_argument("--" + n)
    ap.add_argument("--shard", type=int)
    ap.add_argument("--seed", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--shrink", type=float, default=30)
    a = ap.parse_args()
    mod = importlib.import_module("props." + a.prop)
    group = [g for g in mod.groups(a.tier) if g.name == a.group][0]
    Runner(a, mod, group).main()


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    sys.stderr.flush()
