"""The moving window: what is inside the window evolves as in a domain that never moved, what is left behind is
dropped, what enters is vacuum plus exactly the plasma the profiles ask for."""
import numpy as np
from hypothesis import strategies as st

from props import C07
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated geometries, window velocities (constant, varying in time, both directions), start and "
        "stop-injection times, injection on/off, profiles, particles and fields, fused/unfused pushers, collisions, and 1-3 "
        "MPI ranks with rebalancing, periodic or absorbing sides; a larger fixed domain is advanced in lockstep as the reference and every shift is "
        "checked patch by patch. Non-trivial = at least one shift happened and the compared region held particles or fields.")
BUDGET = {"quick": 24.0}


@st.composite
def cases(draw, ranks=1, dims=(2, 2, 3)):
    dim = draw(st.sampled_from(list(dims)))
    steps = draw(st.integers(3, 7 if dim == 2 else 5))
    px = draw(st.integers(5, 8)) if dim == 2 else draw(st.integers(4, 6))
    nx = draw(st.sampled_from([8, 9, 10, 12])) if dim == 2 else 8
    npp, n = [px], [nx * px]
    bc = "mm"
    for _ in range(dim - 1):
        open_ = draw(st.sampled_from([False, False, True]))      # absorbing sides next to the window
        bc += "mm" if open_ else "pp"
        q = draw(st.integers(1, 2)) if not open_ else 2
        npp.append(q)
        n.append(q * draw(st.integers(5, 8)))
    kind = draw(st.sampled_from(["right", "right", "left", "vary"]))
    # displacement of the window per step in units of a patch
    if kind == "right":
        v = [draw(st.sampled_from([1.0, 0.5, 0.34, 0.77, 0.05]))]
    elif kind == "left":
        v = [-draw(st.sampled_from([1.0, 0.9, 0.7]))]
    else:
        v = [draw(st.sampled_from([1.0, 0.6, 0.0, -0.3, -1.0, 0.2])) for _ in range(steps)]
    return {"cfg": {"dim": dim, "n": n, "np": npp, "bc": bc, "ng": 3, "pml": 3,
                    "d": [draw(st.sampled_from([1e-7, 8e-8])) for _ in range(dim)], "cfl": 0.95,
                    "seed": draw(st.integers(1, 10 ** 6))},
            "steps": steps, "v": v, "kind": kind, "start": draw(st.sampled_from([0, 0, 0, 1, 2])),
            "stop": draw(st.sampled_from([None, None, 1, 2])), "inject": draw(st.sampled_from([True, True, False])),
            "prof": draw(st.sampled_from(["slab", "bump", "uniform", None])), "min": draw(st.sampled_from([0.0, 0.05, 0.5])),
            "seed": draw(gen.seeds()), "n": draw(st.integers(0, 60)), "amp": draw(st.sampled_from([0.0, 0.5])),
            "umax": draw(st.sampled_from([0.0, 0.5, 5.0])), "split": draw(st.booleans()), "dead": draw(st.sampled_from([0, 2])),
            "kick": draw(st.booleans()), "front": draw(st.integers(0, 3)),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"])),
            "rebal": [draw(st.sampled_from(["no", "no", "cyclic", "random"])) for _ in range(steps)] if ranks > 1 else []}


def species(case):
    from lambdapic import Electron, Proton
    sp = []
    dim = case["cfg"]["dim"]
    if case["prof"]:
        d, k = C07.jitted(dim, case["prof"])
        sp.append(Electron(density=d, ppc=k, density_min=case["min"] * C07.N0))
    else:
        sp.append(Electron())
    sp.append(Proton())
    return sp


def build(case, comm, ref):
    """The window's simulation, or (ref) a fixed one that reaches `pad` patches further on both sides."""
    kit.reset_registry()
    cfg = dict(case["cfg"])
    pad = case["steps"] + 1
    sp = species(case)
    if ref:
        nxp = cfg["n"][0] // cfg["np"][0]
        cfg["np"] = [cfg["np"][0] + 2 * pad] + cfg["np"][1:]
        cfg["n"] = [nxp * cfg["np"][0]] + cfg["n"][1:]
        for s in sp:
            s.density = None
    size = comm.Get_size() if comm else 1
    sim = kit.make_sim(cfg, sp, comm=comm)
    with kit.forced_ranks(kit.rank_assignment(case["map"], int(np.prod(cfg["np"])), size, case["seed"])):
        kit.init(sim)
    for p in sim.patches:       # start from the generated content only
        for part in p.particles:
            part.initialize(0)
            part.extended = True
    sim.patches.update_lists()
    sim.update_lists()
    off = pad * sim.nx_per_patch if ref else 0
    n0 = case["cfg"]["n"]
    d = kit.cellsize(sim)
    r = kit.rng(case["seed"])
    nxp = sim.nx_per_patch
    # generated content; free distance to the edges the window moves towards
    lo = 0 if case["kind"] == "right" else nxp
    hi = n0[0] if case["kind"] == "left" else n0[0] - nxp
    E0 = case["amp"] * kit.ME * kit.C_LIGHT * 2 * np.pi * 3e8 / 1e-6 / kit.QE
    for k in kit.EB:
        F = np.zeros(kit.gshape(sim))
        F[off + lo:off + hi] = r.normal(0, 1, [hi - lo] + n0[1:]) * E0 * (1 if k[0] == "e" else 1 / kit.C_LIGHT)
        kit.set_field(sim, k, F)
    kit.sync_eb(sim)
    w0 = 1e27 * np.prod(d) * 1e-2
    for isp, s in enumerate(sim.species):
        data = kit.random_particles(r, sim, case["n"], umax=case["umax"] / (1 if isp == 0 else 50), w0=w0,
                                    box=[((lo + off) * d[0], (hi + off - 1) * d[0])] + [(-dd / 2, (nn - 0.5) * dd) for dd, nn in zip(d[1:], n0[1:])])
        if case["front"] and case["n"]:      # some of them in the outermost columns
            k = min(case["front"], case["n"])
            data["x"][:k] = (off + (0.3 if case["kind"] == "right" else n0[0] - 1.3)) * d[0]
        kit.put_particles(sim, isp, data, ids=np.arange(case["n"]) + (1 << 28) + (isp << 24), extra_dead=case["dead"])
    return sim


def content(sim, comm=None):
    """Everything observable, as one dict per patch keyed by the patch's index, gathered on rank 0."""
    out = {}
    for p in sim.patches:
        I = kit.interior(sim)
        out[int(p.index)] = {
            "pos": kit.pidx(sim, p), "lo": [getattr(p, a + "0") for a in kit.AX[:sim.dimension]],
            "f": {k: getattr(p.fields, k).copy() for k in kit.EB + kit.J4},
            "int": {k: getattr(p.fields, k)[I].copy() for k in kit.EB + kit.J4},
            "axis": p.xaxis.copy(), "faxis": p.fields.xaxis.copy(),
            "p": [{**{a: getattr(q, a)[~q.is_dead].copy() for a in q.attrs if a != "_id"},
                   "id": q._id[~q.is_dead].copy().view(np.uint64)} for q in p.particles]}
    if comm is None:
        return out
    allo = comm.gather(out, root=0)
    return {k: v for o in (allo or []) for k, v in o.items()}


def dilate(m, k):
    """Grow a mask along x by k cells."""
    out = m.copy()
    for s in range(1, k + 1):
        out[s:] |= m[:-s]
        out[:-s] |= m[s:]
    return out


def run(case, comm):
    from mpi4py import MPI
    from lambdapic import MovingWindow, callback
    rank = comm.Get_rank() if comm else 0
    size = comm.Get_size() if comm else 1
    A = build(case, comm, False)
    R = build(case, MPI.COMM_SELF if comm else None, True) if rank == 0 else None
    dim, d = A.dimension, kit.cellsize(A)
    nxp, dx, dt = A.nx_per_patch, A.dx, A.dt
    L = nxp * dx
    pad = case["steps"] + 1
    off = pad * nxp
    v = case["v"]
    vel = (lambda t: v[min(int(round(t / dt)), len(v) - 1)] * L / dt) if len(v) > 1 else v[0] * L / dt
    mw = MovingWindow(velocity=vel, start_time=case["start"] * dt, inject_particles=case["inject"],
                      stop_inject_time=None if case["stop"] is None else case["stop"] * dt)
    box = {}

    @callback("start")
    def before(s):
        box["a"] = content(s, comm)
        box["x0"] = {p.index: p.x0 for p in s.patches}

    @callback("start")
    def after(s):
        box["b"] = content(s, comm)
        for p in s.patches:         # what has just been injected gets moving
            if p.x0 == box["x0"][p.index] or not case["kick"]:
                continue
            q = p.particles[0]
            q.ux[:], q.uy[:], q.uz[:] = kick(q.id)
            q.inv_gamma[:] = 1 / np.sqrt(1 + q.ux ** 2 + q.uy ** 2 + q.uz ** 2)
    cbs = [before, mw, after] + ([callback("_push_momentum")(lambda s: None)] if case["split"] else [])
    rcb = [callback("_push_momentum")(lambda s: None)] if case["split"] else []
    probs = []
    left = 0            # first column of the window, in columns of the initial window
    asked = 0.0         # distance the velocity asks for so far, in patches
    npt = int(np.prod(case["cfg"]["np"]))
    real = None
    if comm:
        import lambdapic.core.patch.metis as metis
        real = metis.compute_rank
    nxr = R.nx if R else 0
    D = np.zeros(nxr, bool)         # columns of the reference the two runs may disagree on
    nshift, held, injected = 0, 0, 0
    seen = np.zeros((0, dim))
    cell = [np.arange(n) * s for n, s in zip(case["cfg"]["n"], d)]
    try:
        for n in range(case["steps"]):
            if comm:
                kind = case["rebal"][n]
                A.load_balancer.threshold = 1e9 if kind == "no" else -1.0
                amap = kit.rank_assignment(kind, npt, size, case["seed"] + 13 * n) if kind != "no" else None
                if amap is not None:
                    metis.compute_rank = lambda *a, _m=amap, **k: (list(_m), [int(x) for x in np.bincount(_m, minlength=size)])
            t0 = A.time
            A.run(1, callbacks=cbs)
            kit.quiet()
            S = content(A, comm)
            if rank == 0:
                a, b = box["a"], box["b"]
                sh = shift_of(case, a, b, L, probs, n)
                left += sh * nxp
                nshift += sh != 0
                if n >= case["start"]:
                    asked += v[min(n, len(v) - 1)]
                track(case, n, left / nxp, asked, sh, probs)
                new = check_shift(case, n, a, b, sh, A, cell, left, t0, probs)
                injected += len(new["w"])
                f = np.round(np.array([(new[a] / s_) % 1.0 for a, s_ in zip(kit.AX, d)]).T * 1e9)
                seen = np.concatenate([seen, f])
                if len(f) and len(np.unique(seen, axis=0)) < len(seen):
                    probs.append(f"step {n}: particles are injected at the same places within their cells as others before")
                refx = nonzero_columns(R)
                win = np.zeros(nxr, bool)
                win[off + left:off + left + A.nx] = True
                if sh:      # recycled columns hold vacuum
                    c0 = off + left + (A.nx - nxp if sh > 0 else 0)
                    D[c0:c0 + nxp] = dilate(refx, 1)[c0:c0 + nxp]
                pm = ~win
                if n < case["start"]:       # absorbing layers act until the window starts to move
                    pm[off:off + 4] = pm[off + A.nx - 4:off + A.nx] = True
                D |= pm & refx
                if len(new["w"]):
                    if case["kick"]:
                        new["ux"], new["uy"], new["uz"] = kick(new["id"].astype(np.uint64))
                    add_to_ref(R, new, off)
                R.run(1, callbacks=rcb)
                kit.quiet()
                D[:] = dilate(D | (pm & nonzero_columns(R)), 5)
                if not probs:
                    held += compare(case, n, S, R, left, off, D, nxp, A.nx, d, probs)
            if comm.bcast(bool(probs), root=0) if comm else probs:
                break
    finally:
        if real is not None:
            metis.compute_rank = real
    require(not probs, lambda: "\n".join(str(p) for p in probs[:6]), "window")
    return {"nontrivial": bool(nshift and (held or injected)), "shifts": int(nshift), "compared": int(held), "injected": int(injected)}


def kick(ids):
    h = (ids.astype(np.uint64) * np.uint64(2654435761)) % np.uint64(1 << 32)
    f = h.astype(float) / 2.0 ** 32
    return 2 * f - 1, np.sin(40 * f), np.cos(70 * f)


def shift_of(case, a, b, L, probs, n):
    """By how many patches the window moved during the call (from the positions of the patches)."""
    la, lb = min(p["lo"][0] for p in a.values()), min(p["lo"][0] for p in b.values())
    s = (lb - la) / L
    k = int(round(s))
    if abs(s - k) > 1e-6 or abs(k) > 1:
        probs.append(f"step {n}: the window moved by {s} patches")
    return k


def track(case, n, moved, asked, sh, probs):
    """The window follows its velocity to within two patches, never starts early, keeps its direction."""
    if n < case["start"]:
        if sh:
            probs.append(f"step {n}: shift before the start time")
        return
    lead = moved - asked
    vs = case["v"]
    hi = 1 if min(vs) >= 0 else 2
    if not -1e-9 <= lead <= hi + 1e-9:
        probs.append(f"step {n}: the window has moved by {moved} patches, its velocity asks for {asked}")
    if sh < 0 and min(vs) >= 0 or sh > 0 and max(vs) < 0:
        probs.append(f"step {n}: shift against the velocity")


def check_shift(case, n, a, b, sh, A, cell, left, t0, probs):
    """Patch by patch: kept patches are untouched, recycled ones hold vacuum and the profile's plasma."""
    dim, d = A.dimension, kit.cellsize(A)
    nxp, npx = A.nx_per_patch, case["cfg"]["np"][0]
    new = {k: [] for k in [*kit.AX[:dim], "w", "id", "ux", "uy", "uz"]}
    if sorted(a) != sorted(b):
        probs.append(f"step {n}: patches changed during the shift: {sorted(a)} -> {sorted(b)}")
    grid = sorted(p["pos"] for p in b.values())
    if len(set(grid)) != len(grid) or any(not 0 <= g[0] < npx for g in grid):
        probs.append(f"step {n}: patch positions after the shift: {grid[:12]}")
    edge = 0 if sh > 0 else npx - 1
    ids = []
    for i in sorted(set(a) & set(b)):
        p, q = a[i], b[i]
        rec = sh and p["pos"][0] == edge
        want = tuple([(p["pos"][0] - sh) % npx]) + tuple(p["pos"][1:])
        x0 = (left + want[0] * nxp) * d[0]
        if q["pos"] != want:
            probs.append(f"step {n}: patch {i} at {p['pos']} moved to {q['pos']}, expected {want}")
        if abs(q["lo"][0] - x0) > 1e-6 * d[0] or np.abs(q["axis"] - (x0 + np.arange(nxp) * d[0])).max() > 1e-6 * d[0] \
                or np.abs(np.sort(q["faxis"].ravel())[:1] - (x0 - 3 * d[0])).max() > 1e-6 * d[0]:
            probs.append(f"step {n}: patch {i} starts at {q['lo'][0] / d[0]} cells, expected {x0 / d[0]}")
        if q["lo"][1:] != p["lo"][1:]:
            probs.append(f"step {n}: patch {i} moved across")
        if not rec:
            for k in p["f"]:
                if not np.array_equal(p["f"][k], q["f"][k]):
                    probs.append(f"step {n}: {k} of patch {i}, which stays in the window, changed during the shift")
            for isp, (u, w) in enumerate(zip(p["p"], q["p"])):
                if any(not np.array_equal(u[k], w[k], equal_nan=True) for k in u):
                    probs.append(f"step {n}: particles of species {isp} in patch {i}, which stays, changed during the shift")
                ids += [(isp, int(z)) for z in w["id"]]
            continue
        for k, F in q["f"].items():
            if np.any(F != 0):
                probs.append(f"step {n}: {k} of the patch entering the window is not zero")
        on = case["inject"] and case["prof"] and not (case["stop"] is not None and n >= case["stop"])
        for isp, w in enumerate(q["p"]):
            ids += [(isp, int(z)) for z in w["id"]]
            if isp or not on:
                if len(w["w"]):
                    probs.append(f"step {n}: {len(w['w'])} particles of species {isp} appear in an entering patch without injection")
                continue
            check_fill(case, n, q, w, d, dim, nxp, probs)
            for k in new:
                new[k].append(w[k])
    if len(set(ids)) != len(ids):
        probs.append(f"step {n}: particle identities are not unique after the shift")
    return {k: np.concatenate(x) if x else np.array([]) for k, x in new.items()}


def check_fill(case, n, q, w, d, dim, nxp, probs):
    dens_f, ppc_f = C07.profiles()[dim][case["prof"]]
    sh = q["int"]["ex"].shape
    ax = [lo + np.arange(m) * s for lo, m, s in zip(q["lo"], sh, d)]
    X = np.meshgrid(*ax, indexing="ij")
    dens = np.vectorize(dens_f, otypes=[float])(*X)
    raw = np.vectorize(ppc_f, otypes=[float])(*X) if callable(ppc_f) else np.full(sh, float(ppc_f))
    amb = np.abs(raw - np.round(raw)) < 1e-6 if callable(ppc_f) else np.zeros(sh, bool)
    for e in (-1e-6, 1e-6):
        for a in range(dim):
            Y = list(X)
            Y[a] = X[a] + e * d[a]
            amb |= np.abs(np.vectorize(dens_f, otypes=[float])(*Y) - dens) > 1e-3 * C07.N0
    amb |= np.abs(dens - case["min"] * C07.N0) < 1e-6 * C07.N0
    want = np.where(dens > case["min"] * C07.N0, np.floor(np.maximum(raw, 0)), 0).astype(int)
    pos = [w[a] for a in kit.AX[:dim]]
    idx = [np.floor((x - lo) / s + 0.5 + 1e-9).astype(int) for x, lo, s in zip(pos, q["lo"], d)]
    if any(((i < 0) | (i >= m)).any() for i, m in zip(idx, sh)):
        probs.append(f"step {n}: injected particles lie outside the entering patch")
        return
    have = np.zeros(sh, int)
    np.add.at(have, tuple(idx), 1)
    # a particle within rounding of a cell edge may be counted in either
    edge = np.zeros(sh, bool)
    for x, lo, s in zip(pos, q["lo"], d):
        f = (x - lo) / s + 0.5
        near = np.abs(f - np.round(f)) < 1e-6
        if near.any():
            edge[tuple(i[near] for i in idx)] = True
    bad = (have != want) & ~amb & ~edge
    if bad.any():
        j = tuple(int(z) for z in np.argwhere(bad)[0])
        probs.append(f"step {n}: cell {j} of an entering patch got {have[j]} particles, the profile asks for {want[j]}")
        return
    vol = float(np.prod(d))
    ok = ~(amb | edge)[tuple(idx)]
    ww = (dens * vol / np.maximum(want, 1))[tuple(idx)]
    if ok.any() and np.abs(w["w"] - ww)[ok].max() > 1e-6 * C07.N0 * vol:
        probs.append(f"step {n}: weights of injected particles are {w['w'][ok][:3]}, expected {ww[ok][:3]}")
    if any(np.any(w[k] != 0) for k in ("ux", "uy", "uz")) or np.any(w["inv_gamma"] != 1):
        probs.append(f"step {n}: injected particles are not at rest")


def nonzero_columns(R):
    """Columns of the reference that hold anything."""
    m = np.zeros(R.nx, bool)
    for k in kit.EB:
        F = np.abs(kit.get_field(R, k)).reshape(R.nx, -1).max(axis=1)
        sc = 1.0 if k[0] == "e" else 1 / kit.C_LIGHT
        m |= F > 1e-3 * sc
    for i in range(len(R.species)):
        P = kit.get_particles(R, i, None, ["x"])
        c = np.floor(P["x"] / R.dx + 0.5).astype(int)
        m[np.clip(c, 0, R.nx - 1)] = True
    return m


def add_to_ref(R, new, off):
    dim = R.dimension
    pos = [new[a] + (off * R.dx if a == "x" else 0) for a in kit.AX[:dim]]
    own = kit.owner_index(R, pos)
    for p in R.patches:
        sel = np.ones(len(pos[0]), bool)
        for o, i in zip(own, kit.pidx(R, p)):
            sel &= o == i
        k = int(sel.sum())
        if not k:
            continue
        q = p.particles[0]
        q.extend(k)
        for a in q.attrs:
            if a != "_id":
                getattr(q, a)[-k:] = 0.0
        for a, x in zip(kit.AX, pos):
            getattr(q, a)[-k:] = x[sel]
        q.w[-k:] = new["w"][sel]
        for a in ("ux", "uy", "uz"):
            getattr(q, a)[-k:] = new[a][sel]
        q.inv_gamma[-k:] = 1 / np.sqrt(1 + q.ux[-k:] ** 2 + q.uy[-k:] ** 2 + q.uz[-k:] ** 2)
        q._id[-k:] = new["id"][sel].astype(np.uint64).view(np.float64)
        q.is_dead[-k:] = False
        q.extended = True
    R.patches.update_lists()
    R.update_lists()


def compare(case, n, S, R, left, off, D, nxp, nx, d, probs):
    """Columns outside D agree; returns how much was compared there."""
    held = 0
    ok = ~D[off + left:off + left + nx]
    G = {}
    sh = [nx] + list(case["cfg"]["n"][1:])
    for k in kit.EB + kit.J4:
        F = np.zeros(sh)
        for p in S.values():
            m = p["int"][k].shape
            F[tuple(slice(i * s, (i + 1) * s) for i, s in zip(p["pos"], m))] = p["int"][k]
        G[k] = F
    ref = {k: kit.get_field(R, k) for k in kit.EB + kit.J4}
    PR = [kit.get_particles(R, i) for i in range(len(R.species))]
    es = max([np.abs(ref[k]).max() for k in ("ex", "ey", "ez")] + [kit.C_LIGHT * np.abs(ref[k]).max() for k in ("bx", "by", "bz")] + [1e-30])
    wm = max([float(P["w"].max()) if len(P["w"]) else 0.0 for P in PR] + [1.0])
    js = max([wm * kit.QE / np.prod(d) * kit.C_LIGHT] + [np.abs(ref[k]).max() for k in ("jx", "jy", "jz")])
    for k in G:
        sc = {"e": es, "b": es / kit.C_LIGHT, "j": js, "r": js / kit.C_LIGHT}[k[0]]
        a, b = G[k][ok], ref[k][off + left:off + left + nx][ok]
        if a.size and not np.abs(a - b).max() < 1e-7 * sc:
            c = int(np.flatnonzero(ok)[int(np.argmax(np.abs(a - b).reshape(a.shape[0], -1).max(axis=1)))])
            probs.append(f"step {n}: {k} in column {c} of the window differs from a domain that never moved by "
                         f"{np.abs(a - b).max() / sc:.2e}")
        if k in kit.EB:
            held += int((np.abs(b) > 1e-3 * sc).sum())
    for isp in range(len(R.species)):
        Q = {k: np.concatenate([p["p"][isp][k] for p in S.values()]) for k in next(iter(S.values()))["p"][isp]}
        Q["x"] = Q["x"] + off * d[0]
        if np.isnan(Q["x"]).any():
            probs.append(f"step {n}: live particle without a position")
            continue

        def inside(P):
            c = np.floor(P["x"] / d[0] + 0.5).astype(int)
            m = (c >= off + left) & (c < off + left + nx)
            m &= ~D[np.clip(c, 0, len(D) - 1)]
            return kit.sort_by_id({k: v[m] for k, v in P.items()})
        c = Q["x"] / d[0] - off - left
        if len(c) and (c.min() < -0.5 - 1e-6 or c.max() > nx - 0.5 + 1e-6):
            probs.append(f"step {n}: species {isp}: live particle {c.min():.2f}..{c.max():.2f} cells from the window's start (window: {nx} cells)")
        A, B = inside(PR[isp]), inside(Q)
        if not np.array_equal(A["id"], B["id"]):
            probs.append(f"step {n}: species {isp}: the window has {len(B['id'])} particles where a fixed domain has {len(A['id'])}")
            continue
        held += len(A["id"])
        if not len(A["id"]):
            continue
        us = max(1e-3, max(np.abs(A[k]).max() for k in ("ux", "uy", "uz")))
        for k in list(kit.AX[:len(d)]) + ["ux", "uy", "uz", "w", "inv_gamma"]:
            sc = dict(zip("xyz", d)).get(k, us if k[0] == "u" else max(np.abs(A[k]).max(), 1e-300))
            err = np.abs(A[k] - B[k])
            if k in "yz":
                Lk = case["cfg"]["n"]["xyz".index(k)] * d["xyz".index(k)]
                err = np.minimum(err, np.abs(err - Lk))
            if not err.max() < 1e-7 * sc:
                probs.append(f"step {n}: species {isp}: {k} differs from a domain that never moved by {err.max() / sc:.2e}")
    return held


def groups(tier):
    return [Group("local", [Sub("local", cases(dims=(2,)), run), Sub("local3", cases(dims=(3,)), run, share=0.7)], shards=3),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=2),
            Group("mpi3", [Sub("mpi3", cases(3), run)], ranks=3, shards=1, threads=2)]
