"""Absorbing boundaries behave like open space, whatever the side, axis, thickness and decomposition."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated absorbing boxes (2-D/3-D, layer thickness, cell shapes, decompositions, sides) with generated "
        "divergence-free pulses. open: the same pulse in a domain so large that nothing can return is the oracle for every "
        "cell in front of the layers, step by step. permute: the same run with the axes exchanged must give the exchanged "
        "fields to rounding. stable: noise in a closed absorbing box never gains energy. Non-trivial = the pulse has reached "
        "a layer (its energy in the box fell) resp. fields were non-zero.")
BUDGET = {"quick": 18.0}
ASSUMPTIONS = ["open: the layer may reflect up to the bound given per thickness (2-6 % of the peak for the default profile); "
               "the pulse is resolved by at least 3 cells rms"]
AX = "xyz"
# (thickness, pulse width in cells) -> largest accepted difference; about twice what the default profile does
REFL = {(6, 8): 0.11, (6, 12): 0.04, (8, 8): 0.085, (8, 12): 0.02, (10, 10): 0.025, (6, 6): 0.16, (8, 6): 0.12}


@st.composite
def boxes(draw, kind):
    dim = draw(st.sampled_from([2, 2, 3]))
    sigma = None
    if kind == "open":
        th, sigma = draw(st.sampled_from([[6, 8.0], [6, 12.0], [8, 8.0], [8, 12.0], [10, 10.0]] if dim == 2 else [[6, 6.0], [6, 8.0], [8, 6.0]]))
        inner = int(5 * sigma)
    else:
        th = draw(st.sampled_from([4, 6, 8] if dim == 2 else [4, 5]))
        inner = 14 if dim == 2 else 10
    sides = "".join(draw(st.sampled_from(["mm", "mm", "pp"])) for _ in range(dim))
    if "m" not in sides:
        a = draw(st.integers(0, dim - 1))
        sides = sides[:2 * a] + "mm" + sides[2 * a + 2:]
    if sigma and sides == "mmmmmm":         # the open reference would be too big
        a = draw(st.integers(0, dim - 1))
        sides = sides[:2 * a] + "pp" + sides[2 * a + 2:]
    d0 = draw(st.sampled_from([1e-7, 3e-8]))
    ratios = draw(st.lists(st.sampled_from([1.0, 1.0, 1.6, 0.6] if kind == "open" else [1.0, 1.3, 0.5]), min_size=dim, max_size=dim))
    n, npp = [], []
    for a in range(dim):
        if sides[2 * a] == "m":
            q = draw(st.integers(2, 3 if dim == 2 else 2))
            per = max(th + 2, (2 * th + inner + q - 1) // q)
        else:
            q = draw(st.integers(1, 2))
            per = max(th + 2, draw(st.integers(6, 12)))
            if sigma:       # room for a pulse next to its periodic images
                q, per = 1, max(th + 2, int(draw(st.sampled_from([2, 3] if dim == 2 else [1.3, 2])) * sigma))
        n.append(q * per)
        npp.append(q)
    return {"cfg": {"dim": dim, "n": n, "np": npp, "d": [d0 * k for k in ratios], "bc": sides, "ng": 3, "pml": th,
                    "cfl": draw(st.sampled_from([0.95, 0.7]))},
            "seed": draw(gen.seeds()), "sigma": sigma, "what": draw(st.sampled_from("EB")),
            "perm": draw(st.sampled_from([[1, 0]] if dim == 2 else [[1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]])),
            "lift": draw(st.sampled_from([0, 0, 4, 6])) if dim == 2 else 0,
            "steps": draw(st.sampled_from([1, 5, 20]))}


def curl_blob(dim, n, d, c, A, sigma, what):
    """A compact divergence-free field: the discrete curl of a Gaussian potential (sigma and centre in cells)."""
    def grid(off):
        g = [np.arange(n[a]) + off[a] - c[a] if a < dim else np.zeros(1) for a in range(3)]
        s = [((x / sigma) ** 2) for x in g]
        if dim == 2:
            r2 = s[0][:, None] + s[1][None, :]
        else:
            r2 = s[0][:, None, None] + s[1][None, :, None] + s[2][None, None, :]
        return np.exp(-r2)
    # E is the backward curl of a potential sitting on B's places, B the forward curl of one on E's places
    P = [A[k] * grid([0.5 * o for o in (kit.STAG["b" + AX[k]] if what == "E" else kit.STAG["e" + AX[k]])]) for k in range(3)]

    def D(F, a):
        if a >= dim:
            return np.zeros_like(F)
        r = F - np.roll(F, 1, a) if what == "E" else np.roll(F, -1, a) - F
        return r / d[a]
    out = [D(P[2], 1) - D(P[1], 2), D(P[0], 2) - D(P[2], 0), D(P[1], 0) - D(P[0], 1)]
    m = max(np.abs(o).max() for o in out)
    return [o / m for o in out]


def make(cfg):
    kit.reset_registry()
    sim = kit.init(kit.make_sim(cfg, []))
    return sim


def put(sim, what, comp):
    E0 = 1e10
    for k, F in zip(AX, comp):
        kit.set_field(sim, ("e" if what == "E" else "b") + k, F * (E0 if what == "E" else E0 / kit.C_LIGHT))
    kit.sync_eb(sim)


def energy(f, cells=None):
    e = sum((f["e" + a] ** 2) for a in AX) + kit.C_LIGHT ** 2 * sum((f["b" + a] ** 2) for a in AX)
    return float(e.sum())


def centre(case):
    cfg = case["cfg"]
    r = kit.rng(case["seed"], 3)
    c = []
    for a in range(cfg["dim"]):
        n, th = cfg["n"][a], cfg["pml"]
        if cfg["bc"][2 * a] == "m":
            c.append(n * r.uniform(0.47, 0.53))
        else:
            c.append(n * r.uniform(0, 1))
    return c, r.normal(0, 1, 3)


def run_open(case, comm=None):
    cfg, dim = case["cfg"], case["cfg"]["dim"]
    A = make(cfg)
    th = cfg["pml"]
    c, pol = centre(case)
    # steps: the pulse crosses the box and what a layer reflects comes back
    half = max(cfg["n"][a] for a in range(dim) if cfg["bc"][2 * a] == "m")
    dt = A.dt
    steps = int(1.15 * half * max(cfg["d"]) / (kit.C_LIGHT * dt))
    pad = []
    for a in range(dim):
        pad.append(int(np.ceil(steps * kit.C_LIGHT * dt / cfg["d"][a] / 2)) + 4 if cfg["bc"][2 * a] == "m" else 0)
    nb = [cfg["n"][a] + 2 * pad[a] for a in range(dim)]
    B = make(dict(cfg, n=nb, np=[1] * dim, bc="p" * 2 * dim))
    # periodic axes need periodic pulses: sum of images
    comp = None
    shifts = [(0,)] if dim == 0 else np.array(np.meshgrid(*[[-1, 0, 1] if cfg["bc"][2 * a] == "p" else [0] for a in range(dim)])).reshape(dim, -1).T
    for s in shifts:
        k = curl_blob(dim, cfg["n"], cfg["d"], [c[a] + s[a] * cfg["n"][a] for a in range(dim)], pol, case["sigma"], case["what"])
        kb = curl_blob(dim, nb, cfg["d"], [c[a] + s[a] * cfg["n"][a] + pad[a] for a in range(dim)], pol, case["sigma"], case["what"])
        # one normalisation for both
        comp = [k, kb] if comp is None else [[x + y for x, y in zip(comp[0], k)], [x + y for x, y in zip(comp[1], kb)]]
    cut = tuple(slice(pad[a], pad[a] + cfg["n"][a]) for a in range(dim))
    put(A, case["what"], [F[cut] for F in comp[1]])
    put(B, case["what"], comp[1])
    inner = tuple(slice(th, cfg["n"][a] - th) if cfg["bc"][2 * a] == "m" else slice(None) for a in range(dim))
    peak, worst, where, e0, ein = 0.0, 0.0, None, None, None
    done = 0
    while done < steps:
        k = min(9, steps - done)
        A.run(k)
        B.run(k)
        kit.quiet()
        done += k
        fa, fb = kit.get_fields(A, kit.EB), kit.get_fields(B, kit.EB)
        if e0 is None:
            e0 = energy(fa)
        for q in kit.EB:
            u = kit.C_LIGHT if q[0] == "b" else 1.0
            a, b = fa[q][inner] * u, fb[q][cut][inner] * u
            peak = max(peak, np.abs(b).max())
            e = np.abs(a - b).max()
            if not np.isfinite(e):
                e = np.inf
            if e > worst:
                worst, where = e, (done, q)
    ein = energy(kit.get_fields(A, kit.EB))
    bound = REFL[th, int(case["sigma"])]
    require(worst <= bound * peak, f"step {where[0] if where else None}, {where[1] if where else None}: differs from open space by "
            f"{worst / peak:.4f} of the peak in front of the layers (accepted {bound})", key="reflection")
    return {"nontrivial": ein < 0.95 * e0, "reflection": worst / peak, "left": ein / e0}


def run_permute(case, comm=None):
    if case["lift"]:
        return run_lift(case)
    cfg, dim, perm = case["cfg"], case["cfg"]["dim"], case["perm"]
    r = kit.rng(case["seed"], 4)
    cfg2 = dict(cfg, n=[cfg["n"][p] for p in perm], np=[cfg["np"][p] for p in perm], d=[cfg["d"][p] for p in perm],
                bc="".join(cfg["bc"][2 * p:2 * p + 2] for p in perm))
    full = list(perm) + ([2] if dim == 2 else [])
    sign = np.linalg.det(np.eye(3)[full])         # B is an axial vector
    A, B = make(cfg), make(cfg2)
    E0 = 1e10
    f0 = {}
    for k in kit.EB:
        F = r.normal(0, 1, kit.gshape(A)) * (E0 if k[0] == "e" else E0 / kit.C_LIGHT)
        f0[k] = F
        kit.set_field(A, k, F)
    # axis j of the second run is axis perm[j] of the first
    for j, k in enumerate(full):
        kit.set_field(B, "e" + AX[j], f0["e" + AX[k]].transpose(perm))
        kit.set_field(B, "b" + AX[j], sign * f0["b" + AX[k]].transpose(perm))
    kit.sync_eb(A)
    kit.sync_eb(B)
    A.run(case["steps"])
    B.run(case["steps"])
    kit.quiet()
    fa, fb = kit.get_fields(A, kit.EB), kit.get_fields(B, kit.EB)
    for j, k in enumerate(full):
        for t, s in (("e", 1.0), ("b", sign)):
            a, b = fa[t + AX[k]].transpose(perm), s * fb[t + AX[j]]
            sc = max(np.abs(fa[t + AX[q]]).max() for q in range(3))
            e = np.abs(a - b).max() / sc
            require(e <= 1e-9, lambda: f"after {case['steps']} steps {t}{AX[k]} differs by {e:.3g} from {t}{AX[j]} of the run with axes {perm} "
                    f"(boundaries {cfg['bc']}) at {np.unravel_index(np.argmax(np.abs(a - b)), a.shape)}", key="permute")
    return {"nontrivial": True}


def run_lift(case, comm=None):
    """A 3-D run that is uniform along a third, periodic axis is the 2-D run."""
    cfg, r, nz = case["cfg"], kit.rng(case["seed"], 6), case["lift"]
    A = make(cfg)
    cfg3 = dict(cfg, dim=3, n=cfg["n"] + [2 * max(nz, cfg["pml"] + 2)], np=cfg["np"] + [2], d=cfg["d"] + [cfg["d"][0] * 1e3], bc=cfg["bc"] + "pp")
    B = make(cfg3)
    require(abs(A.dt / B.dt - 1) < 1e-5, f"the time steps differ: {A.dt} {B.dt}", key="dt")
    f0 = {}
    for k in kit.EB:
        F = r.normal(0, 1, kit.gshape(A)) * (1e10 if k[0] == "e" else 1e10 / kit.C_LIGHT)
        kit.set_field(A, k, F)
        kit.set_field(B, k, np.repeat(F[:, :, None], cfg3["n"][2], 2))
    kit.sync_eb(A)
    kit.sync_eb(B)
    A.run(case["steps"])
    B.run(case["steps"])
    kit.quiet()
    fa, fb = kit.get_fields(A, kit.EB), kit.get_fields(B, kit.EB)
    for k in kit.EB:
        sc = max(np.abs(fa[k[0] + x]).max() for x in AX)
        e = np.abs(fa[k][:, :, None] - fb[k]).max() / sc
        # the time steps differ by the third axis' part of the stability limit
        require(e <= 1e-4, f"after {case['steps']} steps {k} of the 2-D run and of the uniform 3-D run differ by {e:.3g} (boundaries {cfg['bc']})", key="lift")
    return {"nontrivial": True}


def run_stable(case, comm=None):
    cfg, dim, th = case["cfg"], case["cfg"]["dim"], case["cfg"]["pml"]
    sim = make(cfg)
    r = kit.rng(case["seed"], 5)
    # white noise without divergence in front of the layers
    P = [r.normal(0, 1, kit.gshape(sim)) for _ in range(3)]
    for a in range(dim):
        if cfg["bc"][2 * a] == "m":
            for q in P:
                v = np.moveaxis(q, a, 0)
                v[:th + 1] = 0
                v[len(v) - th - 1:] = 0
    # a magnetic start: whatever the time step, the sum of the squares never exceeds its first value
    f, d = "b", cfg["d"]

    def D(F, a):
        if a >= dim:
            return np.zeros_like(F)
        return (np.roll(F, -1, a) - F) / d[a] * d[0]
    for k, F in zip(AX, [D(P[2], 1) - D(P[1], 2), D(P[0], 2) - D(P[2], 0), D(P[1], 0) - D(P[0], 1)]):
        kit.set_field(sim, f + k, F * 1e10 / kit.C_LIGHT)
    kit.sync_eb(sim)
    e0 = energy(kit.get_fields(sim, kit.EB))
    hist = [1.0]
    for _ in range(6):
        sim.run(50)
        kit.quiet()
        hist.append(energy(kit.get_fields(sim, kit.EB)) / e0)
        require(np.isfinite(hist[-1]) and hist[-1] <= 1.02, f"field energy relative to the start, every 50 steps: {hist}", key="growth")
    return {"nontrivial": True, "left": hist[-1], "hist": hist}


def groups(tier):
    return [Group("local", [Sub("open", boxes("open"), run_open, share=2.0), Sub("permute", boxes("permute"), run_permute, share=1.0),
                            Sub("stable", boxes("stable"), run_stable, share=0.7)], shards=4)]
