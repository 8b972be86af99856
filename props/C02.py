"""Guard cells and currents: exchange between patches and ranks equals one global (wrapped) grid."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated patch layouts (2-D/3-D, periodic/absorbing axes, 3-5 guard cells, generated patch-to-rank "
        "maps) whose patches hold random integer-valued arrays, guards included; non-trivial = some guard cell is owned "
        "by another patch or wraps around.")


@st.composite
def cases(draw, ranks=1):
    cfg = draw(gen.grid(bcs="axis", pml=2, ng=(3, 5), minp=(4, 4), maxp=(9, 6), max_np=(5, 3), max_patches=20,
                        min_patches=2 * ranks if ranks > 1 else 1))
    cfg["pml"] = 2
    if ranks > 1 and gen.npatches(cfg) < ranks:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * ranks
        cfg["np"][0] = ranks
    return {"cfg": cfg, "seed": draw(gen.seeds()), "rounds": draw(st.integers(1, 3)),
            "attrs": draw(st.lists(st.sampled_from(kit.EB + ("jx", "rho")), min_size=1, max_size=6, unique=True)),
            "order": draw(st.sampled_from(["local-first", "overlap"])),
            "map": draw(st.sampled_from(["metis", "cyclic", "random", "blocks"]))}


def global_index(sim, cfg, p):
    """For one patch: per axis, the global cell of each local cell (guards included), -1 = outside."""
    out = []
    for a in range(sim.dimension):
        n, N, ng, ip = kit.pshape(sim)[a], kit.gshape(sim)[a], cfg["ng"], kit.pidx(sim, p)[a]
        loc = np.arange(n + 2 * ng)
        loc[-ng:] -= n + 2 * ng
        g = ip * n + loc
        if cfg["bc"][2 * a] == "p":
            g %= N
        else:
            g[(g < 0) | (g >= N)] = -1
        out.append(g)
    return out


def patch_array(seed, index, name, rnd, shape):
    r = kit.rng(seed, index, rnd, sum(map(ord, name)) + 131 * ord(name[-1]))
    return r.integers(-1000, 1001, shape).astype(float)


def run(case, comm):
    cfg = case["cfg"]
    size = comm.Get_size() if comm else 1
    from lambdapic import Electron
    kit.reset_registry()
    sim = kit.make_sim(cfg, [Electron()])
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(cfg), size, case["seed"])):
        kit.init(sim)
    dim = sim.dimension
    I = kit.interior(sim)
    every = kit.EB + kit.J4
    npt = gen.npatches(cfg)
    sh = cfg["np"]
    bad = []
    guards = 0

    class P:  # geometry of any patch, local or not
        def __init__(self, i):
            self.index = i
            self.ipatch_x, self.ipatch_y, self.ipatch_z = i % sh[0], (i // sh[0]) % sh[1], i // (sh[0] * sh[1])

    allp = [P(i) for i in range(npt)]
    for rnd in range(case["rounds"]):
        full = {}
        for p in allp:
            for name in every:
                full[p.index, name] = patch_array(case["seed"], p.index, name, rnd, sim.patches[0].fields.shape)
        for p in sim.patches:
            for name in every:
                getattr(p.fields, name)[:] = full[p.index, name]
        # ---- guard fields
        attrs = list(case["attrs"])
        if case["order"] == "overlap":
            h = sim.mpi.sync_guard_fields_start(attrs)
            sim.patches.sync_guard_fields(attrs)
            sim.mpi.sync_guard_fields_wait(h)
        else:
            sim.patches.sync_guard_fields(attrs)
            sim.mpi.sync_guard_fields(attrs)
        G = {}
        for name in attrs:
            G[name] = np.zeros(kit.gshape(sim))
            for p in allp:
                G[name][kit.pslice(sim, p)] = full[p.index, name][I]
        for p in sim.patches:
            gi = np.meshgrid(*global_index(sim, cfg, p), indexing="ij")
            inside = np.all([g >= 0 for g in gi], axis=0)
            for name in every:
                exp = full[p.index, name].copy()
                if name in attrs:
                    exp[inside] = G[name][tuple(g[inside] for g in gi)]
                    guards += int(inside.sum()) - int(np.prod(kit.pshape(sim)))
                got = getattr(p.fields, name)
                if not np.array_equal(got, exp):
                    w = np.argwhere(got != exp)[0]
                    bad.append(f"guard sync of {attrs}, round {rnd}: patch {p.index} {name}{tuple(int(i) for i in w)} = "
                               f"{got[tuple(w)]}, expected {exp[tuple(w)]}")
        # ---- currents
        for p in sim.patches:
            for name in every:
                getattr(p.fields, name)[:] = full[p.index, name]
        sim.current_synced = False
        if case["order"] == "overlap":
            sim.sync_currents_start()
            sim.sync_currents_wait()
        else:
            sim.sync_currents()
        again = {}
        for p in sim.patches:
            for name in kit.J4:
                again[p.index, name] = getattr(p.fields, name)[I].copy()
        sim.sync_currents()      # a second request must not add the guards twice
        for name in kit.J4:
            S = np.zeros(kit.gshape(sim))
            for p in allp:
                gi = np.meshgrid(*global_index(sim, cfg, p), indexing="ij")
                inside = np.all([g >= 0 for g in gi], axis=0)
                np.add.at(S, tuple(g[inside] for g in gi), full[p.index, name][inside])
            for p in sim.patches:
                exp = S[kit.pslice(sim, p)]
                got = again[p.index, name]
                if not np.array_equal(got, exp):
                    w = np.argwhere(got != exp)[0]
                    bad.append(f"current sync, round {rnd}: patch {p.index} {name}{tuple(int(i) for i in w)} = {got[tuple(w)]}, "
                               f"sum of all contributions {exp[tuple(w)]}")
                if not np.array_equal(getattr(p.fields, name)[I], got):
                    bad.append(f"patch {p.index} {name}: repeated current sync changed the current")
        for p in sim.patches:
            for name in kit.EB:
                if not np.array_equal(getattr(p.fields, name), full[p.index, name]):
                    bad.append(f"current sync changed {name} of patch {p.index}")
    require(not bad, lambda: "\n".join(bad[:5]), key="exchange")
    return {"nontrivial": guards > 0, "guard_cells": guards}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=3),
            Group("mpi3", [Sub("mpi3", cases(3), run)], ranks=3, shards=1, threads=2),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=2)]
