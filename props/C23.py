"""A run repeats exactly: the same input and seed give the same bits, with any number of threads."""
import ctypes

import numpy as np
from hypothesis import strategies as st

from props import C07, C08, C12
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated simulations (2-D/3-D, periodic/absorbing sides, 1-3 species placed by hand or loaded from "
        "density profiles with a thermal momentum and a random seed, fused and unfused pushers, 1-3 ranks with generated "
        "patch-to-rank maps and rebalances) run three times, with one thread and twice with a generated number of threads; every array "
        "of every patch, guard cells, dead slots, identities and absorbing-layer memory included, is compared bit by bit after "
        "every step. Non-trivial = more than one thread had a patch to work on and particles or fields were present.")
ASSUMPTIONS = ["collisions and QED events draw from numba's generator, which random_seed does not cover; they are not part of "
               "the claim"]
BUDGET = {"quick": 22.0}


@st.composite
def cases(draw, ranks=1):
    c = draw(C08.cases(ranks))
    c["steps"] = min(c["steps"], 3)
    c["rebal"] = [draw(st.sampled_from(["no", "no", "random", "cyclic"])) for _ in range(c["steps"])] if ranks > 1 else []
    c["n"] = draw(st.sampled_from([0, 10, 100, 400]))
    c["threads"] = draw(st.integers(2, 8)) if ranks == 1 else draw(st.integers(2, 3))
    c["load"] = draw(st.sampled_from(["", "slab", "bump", "uniform"]))
    c["rseed"] = draw(st.integers(0, 2 ** 31))
    c["temp"] = draw(st.lists(st.sampled_from([0.0, 10.0, 2e3, 2e5, 1e6, 2e7]), min_size=3, max_size=3))
    if c["load"]:       # the C07 profiles are written for micrometre boxes
        c["cfg"]["d"] = [1e-7] * c["cfg"]["dim"]
        c["species"] = [s if s != "photon" else "electron" for s in c["species"]]
    return c


def set_threads(n):
    import numba
    ctypes.CDLL("libgomp.so.1").omp_set_num_threads(n)
    numba.set_num_threads(min(n, numba.config.NUMBA_NUM_THREADS))


def build(case, comm):
    if not case["load"]:
        return C08.build(case, comm, case["cfg"]["np"])
    from lambdapic import Electron, Positron, Proton
    from lambdapic.callback.utils import SetTemperature
    kit.reset_registry()
    dens, ppc = C07.jitted(case["cfg"]["dim"], case["load"])
    sp = [{"electron": Electron, "proton": Proton, "positron": Positron}[s](name=f"s{i}", density=dens, ppc=ppc)
          for i, s in enumerate(case["species"])]
    sim = kit.make_sim(dict(case["cfg"], seed=case["rseed"]), sp, comm=comm)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], int(np.prod(case["cfg"]["np"])), size, case["seed"])):
        kit.init(sim)
    sim.run(0, callbacks=[SetTemperature(s, T) for s, T in zip(sp, case["temp"])])
    kit.quiet()
    return sim


def history(case, comm, threads):
    """The raw state after loading and after every step, and the state of the random stream."""
    import lambdapic.core.patch.metis as metis
    npt, real = int(np.prod(case["cfg"]["np"])), metis.compute_rank
    set_threads(threads)
    out = []
    try:
        sim = build(case, comm)
        out.append(C12.raw(sim))
        for n in range(case["steps"]):
            sim.load_balancer.threshold = 1e9
            if comm is not None and case["rebal"][n] != "no":
                sim.load_balancer.threshold = -1.0
                m = kit.rank_assignment(case["rebal"][n], npt, comm.Get_size(), case["seed"] + 13 * n)

                def fake(patches, nrank, *a, _m=m, **k):
                    return list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]
                metis.compute_rank = fake
            C08.step(sim, case, n)
            out.append(C12.raw(sim))
        return out, (C12.rng_state(sim) if case["load"] else None, sim.itime, sim.time)
    finally:
        metis.compute_rank = real


def differences(a, b):
    for n, (x, y) in enumerate(zip(a, b)):
        if x.keys() != y.keys():
            return [f"after step {n}: other patches, species or layers: {sorted(map(str, x.keys() ^ y.keys()))[:4]}"]
        bad = [k for k in x if x[k].shape != y[k].shape or x[k].tobytes() != y[k].tobytes()]
        if bad:
            k = bad[0]
            if x[k].shape != y[k].shape:
                return [f"after step {n}: patch {k[0]} {k[1]}: shape {x[k].shape} vs {y[k].shape} ({len(bad)} arrays differ)"]
            w = tuple(int(v) for v in np.argwhere(x[k].view("u1").reshape(x[k].shape + (-1,)) != y[k].view("u1").reshape(y[k].shape + (-1,)))[0][:-1])
            return [f"after step {n}: patch {k[0]} {k[1]} at {w}: {x[k][w]!r} vs {y[k][w]!r} ({len(bad)} arrays differ)"]
    return []


def run(case, comm):
    probs = []
    try:
        runs = [history(case, comm, t) for t in (1, case["threads"], case["threads"])]
    finally:
        set_threads(1)
    for (a, sa), (b, sb), what in ((runs[0], runs[1], f"1 and {case['threads']} threads"),
                                   (runs[1], runs[2], f"{case['threads']} threads, twice")):
        probs += [f"{what}: {p}" for p in differences(a, b)]
        if sa != sb:
            probs.append(f"{what}: clock or random stream: {sa} vs {sb}")
    if comm:
        probs = sum(comm.allgather(probs), [])
    require(not probs, lambda: "\n".join(probs[:6]), key="repeat")
    last = runs[0][0][-1]
    some = any(v.any() for k, v in last.items() if k[1].startswith("field")) or case["n"] or case["load"]
    return {"nontrivial": bool(len({k[0] for k in last}) > 1 and some), "arrays": len(last) * len(runs[0][0]) * 2}


def warm(dim, ranks):
    n = [16, 12] if dim == 2 else [16, 10, 8]
    npp = [4, 2] if dim == 2 else [4, 1, 1]
    return {"cfg": {"dim": dim, "n": n, "np": npp, "bc": "p" * 2 * dim, "ng": 3, "pml": 3, "d": [1e-7] * dim, "cfl": 0.95},
            "npA": npp, "seed": 1, "n": 20, "steps": 2, "umax": 3.0, "amp": 1.0, "noise": True,
            "species": ["electron", "proton"], "off": [], "split": dim == 2, "dead": 0, "map": "cyclic",
            "rebal": ["no", "random"] if ranks > 1 else [], "threads": 3, "load": "slab", "rseed": 5, "temp": [2e7, 2e3, 0.0]}


def groups(tier):
    def sub(name, ranks):
        return [Sub(name, cases(ranks), run, warm=[warm(2, ranks), warm(3, ranks)])]
    return [Group("local", sub("local", 1), shards=1, threads=8),
            Group("mpi2", sub("mpi2", 2), ranks=2, shards=1, threads=3),
            Group("mpi3", sub("mpi3", 3), ranks=3, shards=1, threads=3)]
