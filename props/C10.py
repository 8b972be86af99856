"""A run interrupted by a checkpoint and resumed is the run that was never interrupted."""
import glob
import os
import signal
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from props import C08
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated simulations (2-D/3-D, periodic/absorbing, several species, dead slots, growth, rebalancing, "
        "fused and unfused pushers), a generated checkpoint step (by interval, by predicate or by signal) and retention "
        "setting; the loaded simulation is continued next to the uninterrupted one and compared after every step, and the "
        "set of retained checkpoints is compared with the newest ones. Non-trivial = the resumed run had particles or "
        "fields and at least one further step was compared.")
BUDGET = {"quick": 32.0}


@st.composite
def cases(draw, ranks=1):
    c = draw(C08.cases(ranks))
    c["npA"] = c["cfg"]["np"]
    c["steps"] = draw(st.integers(1, 4))
    c["pre"] = draw(st.integers(0, 4))
    c["trigger"] = draw(st.sampled_from(["interval", "predicate", "signal", "direct"]))
    c["rebal"] = [draw(st.sampled_from(["no", "no", "random", "cyclic"])) for _ in range(9)] if ranks > 1 else []
    c["sigrank"] = draw(st.sampled_from([-1, 0, ranks - 1]))      # -1: every rank gets the signal
    c["twice"] = draw(st.booleans())
    c["prune"] = draw(st.booleans())
    c["grow"] = draw(st.sampled_from([0, 0, 3, 40]))
    return c


def advance(sim, case, n, extra=(), comm=None):
    from lambdapic import callback
    cbs = list(extra) + ([callback("_push_momentum")(lambda s: None)] if case["split"] else [])
    for _ in range(n):
        if comm is not None:
            import lambdapic.core.patch.metis as metis
            kind = case["rebal"][min(sim.itime, len(case["rebal"]) - 1)]
            sim.load_balancer.threshold = 1e9 if kind == "no" else -1.0
            amap = kit.rank_assignment(kind, int(np.prod(case["cfg"]["np"])), comm.Get_size(), case["seed"] + 7 * sim.itime)
            if amap is not None:
                metis.compute_rank = lambda patches, nrank, *a, _m=amap, **k: (list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)])
        sim.run(1, callbacks=cbs)
        kit.quiet()


def prune(sim):
    for p in sim.patches:
        for part in p.particles:
            part.prune()
    sim.patches.update_lists()
    sim.update_lists()


def grow(sim, k):
    """Create k more particles of every species in every patch, as a user callback may."""
    if not k:
        return
    d = kit.cellsize(sim)
    for p in sim.patches:
        for s, part in zip(sim.species, p.particles):
            part.extend(k)
            for a in part.attrs:
                if a != "_id":
                    getattr(part, a)[-k:] = 0.0
            for i, a in enumerate(kit.AX[:sim.dimension]):
                getattr(part, a)[-k:] = getattr(p, a + "0") + (kit.pshape(sim)[i] / 2 + 0.4 * np.arange(k) / k) * d[i]
            part.ux[-k:] = 0.1
            part.w[-k:] = 1e10
            part.inv_gamma[-k:] = 10.0 if s.mass == 0 else 1 / np.sqrt(1.01)
            part.is_dead[-k:] = False
            part.extended = True
    sim.patches.update_lists()
    sim.update_lists()


def run(case, comm):
    from lambdapic.callback.restart import RestartDump
    rank = comm.Get_rank() if comm else 0
    A = C08.build(case, comm, case["cfg"]["np"])
    wd = comm.bcast(kit.workdir() if rank == 0 else None, root=0) if comm else kit.workdir()
    real = None
    if comm:
        import lambdapic.core.patch.metis as metis
        real = metis.compute_rank
    try:
        advance(A, case, case["pre"], comm=comm)
        k = A.itime
        if case.get("prune"):
            prune(A)
        if case["trigger"] == "signal":
            cb = RestartDump(wd, interval=10 ** 9 if k else (lambda s: False), dump_signals=[signal.SIGUSR1])
            from lambdapic import callback

            @callback("maxwell_1")
            def sig(s):
                if case["sigrank"] in (-1, rank):
                    os.kill(os.getpid(), signal.SIGUSR1)
            advance(A, case, 1, [cb, sig], comm)
            signal.signal(signal.SIGUSR1, signal.SIG_DFL)
        elif case["trigger"] == "predicate":
            advance(A, case, 1, [RestartDump(wd, interval=lambda s: s.itime == k)], comm)
        elif case["trigger"] == "interval":
            advance(A, case, 1, [RestartDump(wd, interval=max(1, k))], comm)
        else:
            from lambdapic import callback
            cb = RestartDump(wd, interval=1)
            advance(A, case, 1, [callback("end")(lambda s: cb._call(s))], comm)
        if comm:
            comm.Barrier()
        dirs = sorted(glob.glob(os.path.join(wd, "ckpt_*")))
        require(len(dirs) == 1 and int(os.path.basename(dirs[0]).split("_")[1]) == k,
                lambda: f"checkpoint of step {k}: directories {[os.path.basename(d) for d in dirs]}", "checkpoint-missing")
        size = comm.Get_size() if comm else 1
        require(len(os.listdir(dirs[0])) == size, lambda: f"{len(os.listdir(dirs[0]))} shards for {size} ranks", "checkpoint-missing")
        B = RestartDump.load(dirs[0], comm)
        kit.quiet()
        if case["twice"]:      # a loaded simulation can itself be dumped and loaded
            d2 = os.path.join(wd, "again")
            cb = RestartDump(d2, interval=1)
            B.itime -= 1
            cb._call(B)
            B = RestartDump.load(cb._ckpt_dir(k), comm)
            kit.quiet()
        probs = []
        require(A.itime == k + 1, lambda: f"the dumping run is at step {A.itime} after its {k + 1} steps", "clock")
        require(B.itime == k + 1, lambda: f"loaded simulation is at step {B.itime}, {k + 1} steps were done", "clock")
        require(abs(B.time - (k + 1) * B.dt) < 1e-6 * B.dt, lambda: f"loaded time {B.time} is not {k + 1} dt", "clock")
        d = kit.cellsize(A)
        for n in range(case["steps"] + 1):
            if n:
                if n == 1:
                    grow(A, case.get("grow", 0))
                    grow(B, case.get("grow", 0))
                advance(A, case, 1, comm=comm)
                advance(B, case, 1, comm=comm)
            sa, sb = C08.snap(A, comm), C08.snap(B, comm)
            pa, pb = psi(A, comm), psi(B, comm)
            if rank == 0:
                C08.compare(case, n, sa, sb, d, probs)
                for key in pa:
                    if key not in pb or not np.allclose(pa[key], pb[key], rtol=1e-8, atol=1e-8 * max(np.abs(pa[key]).max(), 1e-300)):
                        probs.append(f"step {n}: absorbing layer state {key} differs after the restart")
            if comm.bcast(bool(probs), root=0) if comm else probs:
                break
    finally:
        if real is not None:
            metis.compute_rank = real
    require(not probs, lambda: "\n".join(p.replace("between decompositions", "after the restart") for p in probs[:6]), "restart")
    return {"nontrivial": bool(case["n"] or case["amp"]), "steps_after_restart": case["steps"]}


def psi(sim, comm):
    out = {}
    for p in sim.patches:
        for i, b in enumerate(p.pml_boundary):
            for k, v in vars(b).items():
                if k.startswith("psi") and isinstance(v, np.ndarray):
                    out[int(p.index), i, k] = v.copy()
    if comm is None:
        return out
    allo = comm.gather(out, root=0)
    return {k: v for o in (allo or []) for k, v in o.items()}


# --- retention
class _Fake:
    """A stand-in simulation: retention depends only on the step number and the files on disk."""

    def __init__(self):
        from mpi4py import MPI

        class M:
            comm, rank, size = MPI.COMM_SELF, 0, 1
        self.mpi = M()
        self.itime = 0
        self.time, self.dt = 0.0, 1.0

    def __reduce__(self):
        return (int, (self.itime,))


@st.composite
def keep_cases(draw):
    start = draw(st.sampled_from([0, 5, 97, 999, 9990, 99990, 999990, 999999, 9999980, 123456789]))
    gaps = draw(st.lists(st.sampled_from([1, 2, 3, 10, 100, 1000]), min_size=1, max_size=12))
    return {"start": start, "gaps": gaps, "keep": draw(st.sampled_from([None, 1, 1, 2, 3, 5])),
            "junk": draw(st.booleans()), "resume_at": draw(st.integers(0, 12))}


def run_keep(case, comm):
    from lambdapic.callback.restart import RestartDump
    wd = kit.workdir()
    out = os.path.join(wd, "ck")
    cb = RestartDump(out, interval=1, keep=case["keep"])
    if case["junk"]:
        os.makedirs(os.path.join(out, "notes"))
        open(os.path.join(out, "ckpt_readme.txt"), "w").close()
    f = _Fake()
    f.itime = case["start"]
    done = []
    for i, g in enumerate([0] + case["gaps"]):
        f.itime += g
        if i == case["resume_at"]:
            cb = RestartDump(out, interval=1, keep=case["keep"])     # a new job writing to the same place
        cb(f)
        done.append(f.itime)
        want = sorted(set(done))[-(case["keep"] or len(done)):]
        have = sorted(int(x.split("_")[1]) for x in os.listdir(out) if os.path.isdir(os.path.join(out, x)) and x.startswith("ckpt_"))
        require(have == want, lambda: f"after dumping steps {done} with keep={case['keep']} the checkpoints are {have}, newest are {want}",
                "retention")
        require(os.path.getsize(cb._rank_shard_path(f.itime, 0)) > 0, "the checkpoint just written is empty", "retention")
    if case["junk"]:
        require(os.path.isdir(os.path.join(out, "notes")) and os.path.exists(os.path.join(out, "ckpt_readme.txt")),
                "files that are not checkpoints were removed", "retention")
    return {"nontrivial": bool(case["keep"] and len(done) > case["keep"]), "dumps": len(done)}


# --- resuming in a fresh process
@st.composite
def fresh_cases(draw):
    c = draw(cases())
    c["n"] = max(c["n"], 5)
    return c


def run_fresh(case, comm):
    from lambdapic.callback.restart import RestartDump
    A = C08.build(case, None, case["cfg"]["np"])
    wd = kit.workdir()
    advance(A, case, case["pre"])
    cb = RestartDump(wd, interval=1)
    k = A.itime
    advance(A, case, 1, [cb])
    out = os.path.join(wd, "res.npz")
    code = ("import sys, json, numpy as np\n"
            "from props import C08, C10\nfrom vlib import kit\n"
            "from lambdapic.callback.restart import RestartDump\n"
            "case = json.loads(sys.argv[1])\n"
            "B = RestartDump.load(sys.argv[2]); kit.quiet()\n"
            "C10.advance(B, case, case['steps'])\n"
            "f, P = C08.snap(B, None)\n"
            "np.savez(sys.argv[3], it=B.itime, **{'f_'+k: v for k, v in f.items()},\n"
            "         **{f'p{i}_'+k: v for i, p in enumerate(P) for k, v in p.items()})\n")
    import json
    r = subprocess.run([sys.executable, "-c", code, json.dumps(case), str(cb._ckpt_dir(k)), out],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
    require(r.returncode == 0, lambda: "loading and running in a fresh process failed:\n" + r.stdout[-1500:], "restart-fresh")
    z = np.load(out)
    advance(A, case, case["steps"])
    sa = C08.snap(A, None)
    got = ({n[2:]: z[n] for n in z.files if n.startswith("f_")},
           [{n.split("_", 1)[1]: z[n] for n in z.files if n.startswith(f"p{i}_")} for i in range(len(A.species))])
    require(int(z["it"]) == A.itime, lambda: f"resumed to step {int(z['it'])}, uninterrupted is at {A.itime}", "clock")
    probs = []
    C08.compare(case, case["steps"], sa, got, kit.cellsize(A), probs)
    require(not probs, lambda: "fresh process: " + "\n".join(probs[:6]), "restart")
    return {"nontrivial": True}


def groups(tier):
    return [Group("local", [Sub("keep", keep_cases(), run_keep, share=0.1, max_examples=150), Sub("local", cases(), run)], shards=3),
            Group("fresh", [Sub("fresh", fresh_cases(), run_fresh, min_examples=2)], shards=1),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=1)]
