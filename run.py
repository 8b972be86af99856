#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE]: one property's check."""
import argparse
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vlib import build  # noqa: E402

HANG = float(os.environ.get("VERIF_HANG", 240))      # no case may take longer (the slowest takes a few seconds plus compilation)


def module_meta(pid):
    """Read groups' shape without importing the module (it needs the scratch build's packages)."""
    r = subprocess.run([build.PY, "-c", (
        "import importlib,json,sys\n"
        f"m=importlib.import_module('props.{pid}')\n"
        f"print('META'+json.dumps({{'groups':[[g.name,g.ranks,g.shards,g.threads,g.env] for g in m.groups(sys.argv[1])],"
        "'rule':m.RULE,'assumptions':getattr(m,'ASSUMPTIONS',[]),'budget':getattr(m,'BUDGET',{}),"
        "'regen_qed':getattr(m,'REGEN_QED',False),'cflags':getattr(m,'CFLAGS',None)}))"), TIER],
        env=META_ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("META"):
            return json.loads(line[4:])
    raise SystemExit("cannot load property module:\n" + r.stderr[-3000:])


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def main():
    global TIER, META_ENV
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    TIER = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = a.id

    known_file = json.load(open(os.path.join(HERE, "known_findings.json")))
    findings = [k for k in known_file["findings"] if k["property"] == pid]
    known_keys = [k["key"] for k in findings]

    scratch = build.make_scratch()
    procs = []
    code = 2
    try:
        pypath = None
        try:
            # module metadata needs hypothesis only
            META_ENV = build.base_env()
            META_ENV["PYTHONPATH"] = build.HYP_ONLY(scratch) + ":" + HERE
            meta = module_meta(pid)
            pypath = build.build(scratch, meta["regen_qed"], meta["cflags"])
        except build.BuildError as e:
            print("build failed:\n" + str(e))
            return 2
        t_build = time.time() - t0
        budget = a.budget or meta["budget"].get(TIER) or (14.0 if TIER == "quick" else 400.0)
        env0 = build.base_env()
        env0["PYTHONPATH"] = pypath
        env0["NUMBA_CACHE_DIR"] = os.path.join(scratch, "nb")
        env0["VERIF_TIER"] = TIER
        work = os.path.join(scratch, "work")
        os.makedirs(work)
        env0["VERIF_WORK"] = work
        env0["TMPDIR"] = work

        corpus = []
        cpath = os.path.join(HERE, "corpus", pid + ".json")
        if os.path.exists(cpath):
            corpus = json.load(open(cpath))
        corpus += [{"sub": f["sub"], "case": f["case"]} for f in findings if "case" in f]
        replay = None
        if a.replay:
            replay = json.load(open(a.replay))

        jobs, relaunch = [], {}
        for name, ranks, shards, threads, genv in meta["groups"]:
            if replay is not None and replay["group"] != name:
                continue
            n = 1 if replay is not None else shards
            for k in range(n):
                jobs.append((name, ranks, k, threads, genv))
        for name, ranks, k, threads, genv in jobs:
            out = os.path.join(scratch, f"out_{name}_{k}.json")
            env = dict(env0)
            env.update(genv)
            if env.pop("VERIF_OWN_CACHE", None):
                env["NUMBA_CACHE_DIR"] = os.path.join(scratch, f"nb_{name}_{k}")
            env["OMP_NUM_THREADS"] = env["NUMBA_NUM_THREADS"] = str(threads)
            env["OMP_WAIT_POLICY"] = "passive"
            cases = [replay] if replay is not None else (corpus if k == 0 else [])
            cmd = [build.PY, "-m", "vlib.worker", "--prop", pid, "--group", name, "--shard", str(k),
                   "--seed", str(seed), "--tier", TIER, "--budget", str(budget), "--out", out,
                   "--known", json.dumps(known_keys), "--cases", json.dumps(cases),
                   "--mode", "replay" if replay is not None else "search"]
            if ranks > 1:
                env.pop("OMPI_MCA_ess_singleton_isolated", None)
                cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(ranks)] + cmd
            cwd = os.path.join(work, f"{name}_{k}")
            os.makedirs(cwd)
            env["TMPDIR"] = cwd     # concurrent mpiruns must not share a session directory

            def launch(cmd=cmd, env=env, cwd=cwd, out=out):
                log = open(out + ".log", "w")
                return subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=log, stderr=log,
                                        start_new_session=True)
            procs.append((launch(), name, ranks, k, out))
            relaunch[out] = [launch, 2]

        hung = set()
        start = time.time()
        pending = list(procs)
        while pending:
            time.sleep(0.2)
            for item in list(pending):
                p, name, ranks, k, out = item
                if p.poll() is not None:
                    pending.remove(item)
                    # the launcher, not the code under test, failed: nothing had been run yet
                    if p.returncode and ranks > 1 and relaunch[out][1] and not os.path.exists(out) and not glob.glob(out + ".c*"):
                        relaunch[out][1] -= 1
                        time.sleep(1)
                        new = (relaunch[out][0](), name, ranks, k, out)
                        procs[procs.index(item)] = new
                        pending.append(new)
                    continue
                cur = out + ".cur"
                age = time.time() - (os.path.getmtime(cur) if os.path.exists(cur) else start)
                if age > HANG:
                    hung.add(out)
                    kill(p)

        total = dict(evaluations=0, hashes=set(), samples=[], subs={}, known=set())
        violations, errors = [], []
        for p, name, ranks, k, out in procs:
            res = json.load(open(out)) if os.path.exists(out) else None
            cur = json.load(open(out + ".cur")) if os.path.exists(out + ".cur") else None
            tail = open(out + ".log", errors="replace").read()[-2500:]
            if res:
                total["evaluations"] += res["evaluations"]
                total["hashes"] |= set(res["hashes"])
                total["samples"] += res["samples"]
                total["known"] |= set(res["known"])
                for s, d in res["subs"].items():
                    t = total["subs"].setdefault(s, {"evaluations": 0, "nontrivial": 0, "sums": {}})
                    t["evaluations"] += d["evaluations"]
                    t["nontrivial"] += d["nontrivial"]
                    for kk, v in d.get("sums", {}).items():
                        t["sums"][kk] = t["sums"].get(kk, 0) + v
                for v in res["violations"]:
                    violations.append(dict(v, group=name))
                if "error" in res:
                    errors.append(f"[{name}/{k}] {res['error']}")
            crashed = p.returncode != 0
            if out in hung:
                violations.append(dict(sub=cur and cur["sub"], case=cur and cur["case"], group=name, key="hang",
                                       msg=f"case did not finish within {HANG:.0f} s\n{tail}")) if cur else \
                    errors.append(f"[{name}/{k}] hung before the first case\n{tail}")
            elif crashed and not (res and (res["violations"] or "error" in res)):
                crash = [json.load(open(f)) for f in sorted(glob.glob(out + ".crash*"))]
                lam = [c for c in crash if c["where"] == "lambdapic"]
                if lam:
                    c0 = lam[0]
                    key = "exception:" + c0["exc"]
                    if key in known_keys:
                        total["known"].add(key)
                    else:
                        violations.append(dict(sub=c0["sub"], case=c0["case"], group=name, key=key,
                                               msg="unexpected exception:\n" + c0["txt"]))
                elif crash:
                    errors.append(f"[{name}/{k}] {crash[0]['txt']}")
                elif cur is not None:
                    violations.append(dict(sub=cur["sub"], case=cur["case"], group=name, key="crash",
                                           msg=f"process died with status {p.returncode}\n{tail}"))
                else:
                    errors.append(f"[{name}/{k}] worker exited {p.returncode}\n{tail}")

        wall = time.time() - t0
        if replay is None:
            ev = {
                "property": pid, "tier": TIER, "seed": seed, "level": "exploration",
                "coverage": {
                    "evaluations": total["evaluations"],
                    "distinct_nontrivial": len(total["hashes"]),
                    "rule": meta["rule"],
                    "samples": total["samples"][:6] or [{"none": True}],
                    "per_subcheck": total["subs"],
                    "processes": [[n, r, k] for _, n, r, k, _ in procs],
                    "build_s": round(t_build, 1),
                },
                "assumptions": meta["assumptions"],
                "wall_s": round(wall, 1),
                "violations": len(violations),
            }
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        for f in findings:
            print(f"KNOWN-FINDING: property={pid} {f['what']}")
        print(f"{pid} {TIER}: {total['evaluations']} cases, {len(total['hashes'])} distinct non-trivial, "
              f"{len(procs)} processes, build {t_build:.0f} s, total {wall:.0f} s; " +
              ", ".join(f"{s}={d['evaluations']}/{d['nontrivial']}" for s, d in sorted(total["subs"].items())))
        if violations:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            import hashlib
            for v in violations:
                h = hashlib.sha1(json.dumps([v["sub"], v["case"]], sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(HERE, "replays", f"{pid}-{h}.json")
                if replay is None:
                    with open(path, "w") as f:
                        json.dump({"property": pid, "group": v["group"], "sub": v["sub"], "case": v["case"],
                                   "key": v["key"], "msg": v["msg"]}, f, indent=1)
                else:
                    path = os.path.abspath(a.replay)
                print(f"--- sub={v['sub']} key={v['key']}\n    case={json.dumps(v['case'])[:1500]}\n    {v['msg'][:3000]}")
                print(f"VIOLATION property={pid} replay={path}")
            code = 1
        elif errors:
            print("ERROR of the check itself:\n" + "\n".join(errors)[:6000])
            code = 2
        else:
            code = 0
    finally:
        for p, *_ in procs:
            if p.poll() is None:
                kill(p)
        if a.keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return code


if __name__ == "__main__":
    def _term(sig, frm):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, _term)
    sys.exit(main())
