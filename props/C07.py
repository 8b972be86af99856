"""Initial loading: every live cell gets exactly the macro-particles its profile asks for."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are profiles (slab, bump, sparse, uniform density; constant or position-dependent particles per cell, "
        "thresholds) loaded on generated geometries, boundary kinds, seeds and 1 or 3 ranks with generated patch maps; "
        "checked cell by cell; non-trivial = some cells are filled and, unless uniform, some are empty.")
BUDGET = {"quick": 20.0}
U = 1e-6
N0 = 3e26


def profiles():
    """name -> (density(*x), ppc(*x) or int) written so that numba and numpy can both evaluate them."""
    from math import exp, sin

    def slab2(x, y):
        return 3e26 if (x > 0.33e-6 and y < 1.01e-6) else 0.0

    def slab3(x, y, z):
        return 3e26 if (x > 0.33e-6 and z < 0.61e-6) else 0.0

    def bump2(x, y):
        return 3e26 * exp(-((x - 0.4e-6) / 0.5e-6) ** 2 - ((y - 0.5e-6) / 0.4e-6) ** 2)

    def bump3(x, y, z):
        return 3e26 * exp(-((x - 0.4e-6) / 0.5e-6) ** 2 - ((y - 0.5e-6) / 0.4e-6) ** 2 - z / 1e-6)

    def uni2(x, y):
        return 3e26

    def uni3(x, y, z):
        return 3e26

    def vppc2(x, y):
        return 2.3 + 2.2 * sin(x / 0.21e-6) + 0.4 * sin(y / 0.13e-6)

    def vppc3(x, y, z):
        return 1.6 + 1.5 * sin(x / 0.21e-6) + 0.4 * sin(z / 0.13e-6)
    return {2: {"slab": (slab2, 3), "bump": (bump2, vppc2), "uniform": (uni2, 2)},
            3: {"slab": (slab3, 2), "bump": (bump3, vppc3), "uniform": (uni3, 1)}}


_jit = {}


def jitted(dim, name):
    """One compiled profile pair per process, as a user module would hold."""
    if (dim, name) not in _jit:
        from numba import njit
        d, k = profiles()[dim][name]
        if not callable(k):
            v = float(k)
            kk = (lambda x, y: v) if dim == 2 else (lambda x, y, z: v)
        else:
            kk = k
        _jit[dim, name] = (njit(d), njit(kk))
    return _jit[dim, name]


@st.composite
def cases(draw, dim=2, ranks=1):
    cfg = draw(gen.grid(dims=(dim,), bcs=draw(st.sampled_from(["periodic", "axis"])), pml=2, minp=(4, 3), maxp=(9, 6),
                        max_np=(4, 3), max_patches=12, min_patches=2 * ranks if ranks > 1 else 1))
    cfg["pml"] = 2
    cfg["seed"] = draw(st.one_of(st.integers(0, 2 ** 31 - 1), st.just(0)))
    if ranks > 1 and gen.npatches(cfg) < ranks:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * ranks
        cfg["np"][0] = ranks
    return {"cfg": cfg, "prof": draw(st.sampled_from(["slab", "bump", "uniform"])),
            "min": draw(st.sampled_from([0.0, 0.05, 0.5])), "map": draw(st.sampled_from(["metis", "cyclic", "random"])),
            "second": draw(st.booleans()), "again": draw(st.booleans())}


def load(case, comm, seed):
    from lambdapic import Electron, Proton
    kit.reset_registry()
    cfg = dict(case["cfg"], seed=seed)
    size = comm.Get_size() if comm else 1
    d, k = jitted(cfg["dim"], case["prof"])
    sp = [Electron(density=d, ppc=k, density_min=case["min"] * N0)]
    if case["second"]:
        d2, k2 = jitted(cfg["dim"], case["prof"])
        sp.append(Proton(density=d2, ppc=k2))
    sim = kit.make_sim(cfg, sp)
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(cfg), size, cfg["seed"])):
        kit.init(sim)
    return sim, sp


def run(case, comm):
    cfg = case["cfg"]
    dim = cfg["dim"]
    sim, sp = load(case, comm, cfg["seed"])
    P = [kit.get_particles(sim, i, comm) for i in range(len(sp))]
    Q = Z = None
    if case["again"]:
        sim2, _ = load(case, comm, cfg["seed"])
        Q = kit.get_particles(sim2, 0, comm)
        sim3, _ = load(case, comm, cfg["seed"] ^ 1)
        Z = kit.get_particles(sim3, 0, comm)
    if comm is not None and comm.Get_rank():
        return {}
    d, sh = kit.cellsize(sim), kit.gshape(sim)
    ax = [np.arange(n) * s for n, s in zip(sh, d)]
    dens_f, ppc_f = profiles()[dim][case["prof"]]
    X = np.meshgrid(*ax, indexing="ij")
    dens = np.vectorize(dens_f, otypes=[float])(*X)
    raw = np.vectorize(ppc_f, otypes=[float])(*X) if callable(ppc_f) else np.full(sh, float(ppc_f))
    amb = np.abs(raw - np.round(raw)) < 1e-9 if callable(ppc_f) else np.zeros(sh, bool)
    dv = np.vectorize(dens_f, otypes=[float])
    for a in range(dim):     # the sign of a step within rounding of a grid point
        for e in (1 - 1e-9, 1 + 1e-9):
            Y = list(X)
            Y[a] = X[a] * e
            v = dv(*Y)
            amb |= np.abs(v - dens) > 1e-3 * N0
    ppc = np.trunc(raw).astype(int)
    live = np.ones(sh, bool)
    for a in range(dim):
        sl = [slice(None)] * dim
        for side, s in ((0, slice(0, cfg["pml"])), (1, slice(sh[a] - cfg["pml"], None))):
            if cfg["bc"][2 * a + side] == "m":
                sl[a] = s
                live[tuple(sl)] = False
    bad = []
    filled = 0
    for i, s in enumerate(sp):
        dmin = s.density_min
        amb_i = amb | (np.abs(dens - dmin) < 1e-9 * N0) & (dmin > 0)
        want = np.where((dens > dmin) & live, ppc, 0)
        g = [np.floor(P[i][kit.AX[a]] / d[a] + 0.5).astype(int) for a in range(dim)]
        on_edge = np.zeros(len(P[i]["id"]), bool)
        for a in range(dim):
            f = P[i][kit.AX[a]] / d[a] + 0.5
            on_edge |= np.abs(f - np.round(f)) < 1e-9
            if ((g[a] < 0) | (g[a] >= sh[a])).any():
                bad.append(f"species {i}: particle outside the domain along {kit.AX[a]}")
                g[a] = np.clip(g[a], 0, sh[a] - 1)
        got = np.zeros(sh, int)
        np.add.at(got, tuple(g), 1)
        filled += int((want > 0).sum())
        diff = (got != want) & ~amb_i
        if on_edge.any():
            diff[:] = False
        if diff.any():
            w = tuple(int(k) for k in np.argwhere(diff)[0])
            bad.append(f"species {i}: cell {w} holds {got[w]} particles, the profile asks for {want[w]} "
                       f"({int(diff.sum())} cells differ; total {got.sum()} vs {want.sum()})")
            continue
        wexp = dens[tuple(g)] * np.prod(d) / np.maximum(ppc[tuple(g)], 1)
        m = ~amb_i[tuple(g)] & ~on_edge
        if not np.allclose(P[i]["w"][m], wexp[m], rtol=1e-10, atol=0):
            k = int(np.argmax(np.abs(P[i]["w"] / wexp - 1) * m))
            bad.append(f"species {i}: weight {P[i]['w'][k]!r} in cell {tuple(int(c[k]) for c in g)}, expected {wexp[k]!r}")
        for a in ("ux", "uy", "uz"):
            if (P[i][a] != 0).any():
                bad.append(f"species {i}: loaded with non-zero {a}")
        if (P[i]["inv_gamma"] != 1).any():
            bad.append(f"species {i}: loaded with inv_gamma != 1")
        # positions are spread over the cell, differently in every cell
        n = len(P[i]["id"])
        for a in range(dim):
            f = P[i][kit.AX[a]] / d[a] + 0.5 - g[a]
            if n > 40:
                if abs(f.mean() - 0.5) > 6 * np.sqrt(1 / 12 / n) or abs(f.var() - 1 / 12) > 6 * np.sqrt(1 / 180 / n):
                    bad.append(f"species {i}: in-cell {kit.AX[a]} offsets are not uniform: mean {f.mean():.3f}, var {f.var():.4f}, n={n}")
                r = np.round(f, 9)
                if len(np.unique(r)) < 0.9 * n:
                    bad.append(f"species {i}: in-cell {kit.AX[a]} offsets repeat: {len(np.unique(r))} distinct of {n}")
            for b in range(a):
                if n > 60:
                    fb = P[i][kit.AX[b]] / d[b] + 0.5 - g[b]
                    c = 12 * float(np.mean((f - 0.5) * (fb - 0.5)))
                    if abs(c) > 7 / np.sqrt(n):
                        bad.append(f"species {i}: in-cell offsets along {kit.AX[a]} and {kit.AX[b]} are correlated: {c:.3f}, n={n}")
    if len(sp) > 1 and not bad and min(len(p["id"]) for p in P) > 5:
        same = np.isin(P[0]["x"], P[1]["x"])
        if same.mean() > 0.1:
            bad.append(f"two species are loaded at the same places: {int(same.sum())} of {len(same)}")
    if Q is not None:
        if len(Q["id"]) != len(P[0]["id"]) or any(not np.array_equal(Q[a], P[0][a]) for a in list("xyz")[:dim] + ["w", "id"]):
            bad.append("loading again with the same seed gives different particles")
        if len(P[0]["id"]) > 3 and len(Z["id"]) == len(P[0]["id"]) and np.array_equal(Z["x"], P[0]["x"]):
            bad.append("another seed gives the same particles")
    require(not bad, lambda: "\n".join(bad[:6]), key="loading")
    return {"nontrivial": filled > 0, "cells": int(np.prod(sh)), "particles": sum(len(p["id"]) for p in P)}


# ----------------------------------------------------------------- profiles given as plain functions/ints, zero ppc, momentum
def plain_cases():
    return st.fixed_dictionaries({"kind": st.sampled_from(["zero-ppc", "plain", "momentum"]), "n": st.integers(4, 9),
                                  "seed": gen.seeds()})


def run_plain(case, comm):
    from lambdapic import Electron
    kit.reset_registry()
    kind = case["kind"]

    def dens(x, y):
        return 3e26

    def half(x, y):
        return 2 if x > 0.25e-6 else 0

    def drift(x, y):
        return 0.5
    kw = {}
    if kind == "momentum":
        kw["momentum"] = (drift, None, None)
    cfg = {"dim": 2, "n": [2 * case["n"], case["n"]], "np": [2, 1], "d": [1e-7, 1e-7], "seed": case["seed"]}
    s = Electron(density=dens, ppc=half if kind == "zero-ppc" else 2, **kw)
    sim = kit.init(kit.make_sim(cfg, [s]))
    P = kit.get_particles(sim, 0)
    nx, ny = cfg["n"]
    want = 2 * nx * ny if kind != "zero-ppc" else 2 * (nx - 3) * ny
    require(len(P["id"]) == want, f"{kind}: {len(P['id'])} particles loaded, the profile asks for {want}", key="loading")
    if kind == "momentum":
        require((P["ux"] == 0.5).all(), f"momentum profile 0.5: loaded ux is {P['ux'][:3]}", key="momentum-ignored")
    return {"nontrivial": True}


def groups(tier):
    return [Group("load2", [Sub("load2", cases(2), run)], shards=2),
            Group("load3", [Sub("load3", cases(3), run)], shards=2),
            Group("mpi3", [Sub("mpi3", cases(2, 3), run)], ranks=3, shards=1, threads=1),
            Group("plain", [Sub("plain", plain_cases(), run_plain, max_examples=12)], shards=1)]
