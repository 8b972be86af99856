"""Binary collisions: who collides with whom, what each collision conserves, and at which rate."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("'cells': generated populations (1-4 species incl. photons, clustered in cells, dead slots, equal or unequal weights), "
        "collision groups, enable/disable schedules, Coulomb logarithms, decompositions and (MPI) rebalances; fields are "
        "zeroed so that one step changes momenta by collisions only. Non-trivial = some particle collided. 'law': thousands "
        "of isolated pairs per case, the deflection distribution is inverted to its uniform variate and tested (KS, p<1e-9). "
        "'rate': many particles per cell with generated counts and weights, summed deflection vs. the small-angle rate.")
ASSUMPTIONS = ["Nanbu/Perez scattering law as documented in the code (s<4 fit, isotropic above)",
               "statistical sub-checks use a one-sided error probability below 1e-9 per test"]
BUDGET = {"quick": 15.0}

EPS0, PLANCK = 8.8541878128e-12, 6.62607015e-34
C, QE, ME = kit.C_LIGHT, kit.QE, kit.ME


def make_species(names):
    from lambdapic import Electron, Photon, Positron, Proton, Species
    out = []
    for k, s in enumerate(names):
        if s == "heavy":
            out.append(Species(name=f"heavy{k}", charge=6, mass=1e5))
        elif s == "muon":
            out.append(Species(name=f"muon{k}", charge=-1, mass=206.8))
        else:
            out.append({"electron": Electron, "proton": Proton, "positron": Positron, "photon": Photon}[s]())
    return out


def groups_of(case, n):
    # photons cannot collide; they only take part as bystanders
    ok = [i for i in range(n) if case["species"][i] != "photon"] or [0]
    return [[ok[i % len(ok)] for i in g] for g in case["groups"]]


def pairs_of(groups):
    out = set()
    for g in groups:
        for a in range(len(g)):
            for b in range(a + 1, len(g)):
                out.add((min(g[a], g[b]), max(g[a], g[b])))
    return out


def zero(sim):
    for p in sim.patches:
        for k in kit.EB + kit.J4:
            getattr(p.fields, k)[...] = 0.0


def K(m1, q1, u1, m2, q2, u2):
    """Perez' s = n lnL dt K for each pair (u: n x 3), plus the centre-of-mass quantities."""
    g1, g2 = np.sqrt(1 + (u1 ** 2).sum(1)), np.sqrt(1 + (u2 ** 2).sum(1))
    p1, p2 = m1 * C * u1, m2 * C * u2
    vc = (p1 + p2) / (m1 * g1 + m2 * g2)[:, None]
    gc = 1 / np.sqrt(1 - (vc ** 2).sum(1) / C ** 2)

    def to_com(p, g, m):
        v2 = (vc ** 2).sum(1)
        f = np.where(v2 > 0, (gc - 1) / np.where(v2 > 0, v2, 1), 0)
        return p + (f * (vc * p).sum(1) - gc * m * g)[:, None] * vc
    pc = to_com(p1, g1, m1)
    pp = np.sqrt((pc ** 2).sum(1))
    g1c = gc * (g1 - (vc * p1).sum(1) / (m1 * C ** 2))
    g2c = gc * (g2 - (vc * p2).sum(1) / (m2 * C ** 2))
    k = (q1 * q2) ** 2 / (4 * np.pi * EPS0 ** 2 * C ** 4 * m1 * g1 * m2 * g2) * gc * pp / (m1 * g1 + m2 * g2) \
        * (m1 * g1c * m2 * g2c / pp ** 2 * C ** 2 + 1) ** 2
    b0 = abs(q1 * q2) / (4 * np.pi * EPS0 * C ** 2) * gc / (m1 * g1 + m2 * g2) * (m1 * g1c * m2 * g2c / pp ** 2 * C ** 2 + 1)
    bmin = np.maximum(PLANCK / 2 / pp, b0)
    return k, pp, pc, to_com, bmin


def debye(cells, parts, species, V, ncell):
    """Inverse squared Debye length per cell, limited by the interparticle distance."""
    inv, n = np.zeros(ncell), np.zeros(ncell)
    for c, P, s in zip(cells, parts, species):
        if s.q == 0 or not len(c):
            continue
        W = np.bincount(c, P["w"], ncell)
        U = [np.bincount(c, P["w"] * P[a], ncell) / np.where(W > 0, W, 1) for a in ("ux", "uy", "uz")]
        u2 = sum((P[a] - m[c]) ** 2 for a, m in zip(("ux", "uy", "uz"), U))
        kT = np.bincount(c, P["w"] * u2 / np.sqrt(1 + u2) / 3, ncell) / np.where(W > 0, W, 1) * s.m * C ** 2
        with np.errstate(divide="ignore", invalid="ignore"):
            inv += np.where(W > 0, np.where(kT > 0, W / V * s.q ** 2 / (EPS0 * kT), np.inf), 0)
        n += W / V
    rmin2 = (4 * np.pi * np.where(n > 0, n, 1) / 3) ** (-2 / 3)
    with np.errstate(divide="ignore"):
        return np.where((n > 0) & (1 / np.where(inv > 0, inv, 1) < rmin2) & (inv > 0), 1 / rmin2, inv)


# ---------------------------------------------------------------- per-cell conservation
@st.composite
def cell_cases(draw, ranks=1):
    cfg = draw(gen.grid(minp=(4, 4), maxp=(7, 5), max_np=(3, 2), max_patches=8, min_patches=ranks))
    ns = draw(st.integers(1, 4))
    kinds = ["electron", "electron", "proton", "positron", "photon", "muon"]
    steps = draw(st.integers(1, 4))
    return {"cfg": cfg, "seed": draw(gen.seeds()),
            "species": [draw(st.sampled_from(kinds if i else kinds[:4])) for i in range(ns)][::draw(st.sampled_from([1, -1]))],
            "groups": draw(st.lists(st.lists(st.integers(0, 3), min_size=1, max_size=3).flatmap(
                lambda g: st.sampled_from([g, g + g[:1], g + g])), min_size=1, max_size=3)),
            "n": [draw(st.sampled_from([7, 40, 150, 1, 0])) for _ in range(ns)],
            "spots": draw(st.sampled_from([1, 3, 12, 60])),
            "weights": draw(st.sampled_from(["equal", "equal", "species", "random"])),
            "umax": draw(st.sampled_from([0.0, 1e-3, 0.1, 1.0, 30.0])),
            "cold": [draw(st.booleans()) for _ in range(ns)],
            "dens": draw(st.sampled_from([1e25, 1e28, 1e31])),
            "lnL": draw(st.sampled_from([0.0, 0.0, 2.0, 10.0])), "dead": draw(st.sampled_from([0, 1, 5])),
            "late": draw(st.sampled_from([False, False, True])),
            "toggle": [draw(st.lists(st.integers(0, 5), max_size=2)) for _ in range(steps)], "steps": steps,
            "map": draw(st.sampled_from(["metis", "cyclic", "random"])),
            "rebal": [draw(st.sampled_from(["no", "random", "cyclic"])) for _ in range(steps)] if ranks > 1 else []}


def build(case, comm):
    kit.reset_registry()
    cfg = case["cfg"]
    sp = make_species(case["species"])
    sim = kit.make_sim(dict(cfg, seed=case["seed"]), sp, comm=comm)
    g = [[sp[i] for i in gg] for gg in groups_of(case, len(sp))]
    if not case.get("late"):
        sim.add_collision(g)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case.get("map", "metis"), gen.npatches(cfg), size, case["seed"])):
        kit.init(sim)
    if case.get("late"):
        sim.add_collision(g)
    if case["lnL"]:
        sim.collision.lnLambda = case["lnL"]
    return sim


def populate(sim, case):
    r = kit.rng(case["seed"])
    dim, d, n = sim.dimension, kit.cellsize(sim), kit.gshape(sim)
    spots = np.stack([r.integers(0, k, case["spots"]) for k in n], 1)
    V = np.prod(d)
    w0 = case["dens"] * V
    nid = 1
    for i, m in enumerate(case["n"]):
        c = spots[r.integers(0, len(spots), m)]
        data = {kit.AX[a]: (c[:, a] + r.uniform(-0.45, 0.45, m)) * d[a] for a in range(dim)}
        heavy = case["species"][i] in ("proton", "muon")
        for a in ("ux", "uy", "uz"):
            data[a] = np.zeros(m) if case["cold"][i] else r.normal(0, 1, m) * case["umax"] / (20 if heavy else 1)
        if case["cold"][i]:
            data["ux"] += 0.05 * i
        if case["species"][i] == "photon":
            data["ux"] = data["ux"] + 1.0
        data["w"] = {"equal": np.full(m, w0), "species": np.full(m, w0 * 4.0 ** i),
                     "random": w0 * r.uniform(0.1, 3, m)}[case["weights"]]
        kit.put_particles(sim, i, data, extra_dead=case["dead"], ids=np.arange(nid, nid + m, dtype=np.uint64))
        nid += m


def cellof(sim, P):
    """Flat cell index of each particle, and whether all are clearly inside their cell."""
    idx, sure = [], True
    for a, (h, n) in enumerate(zip(kit.cellsize(sim), kit.gshape(sim))):
        q = P[kit.AX[a]] / h + 0.5
        sure &= bool((np.abs(q - np.round(q)) > 1e-6).all())
        idx.append(np.floor(q).astype(int) % n)
    return np.ravel_multi_index(idx, kit.gshape(sim)) if len(P["id"]) else np.zeros(0, int), sure


def run_cells(case, comm):
    from lambdapic import callback
    rank = comm.Get_rank() if comm else 0
    size = comm.Get_size() if comm else 1
    sim = build(case, comm)
    populate(sim, case)
    ns = len(sim.species)
    allp = sorted(pairs_of(groups_of(case, ns)))
    enabled = {p: True for p in allp}
    d, V, dim = kit.cellsize(sim), float(np.prod(kit.cellsize(sim))), sim.dimension
    ncell = int(np.prod(kit.gshape(sim)))
    A = ("ux", "uy", "uz")
    probs, collided, skipped = [], 0, 0
    state = {}

    def at_start(s):
        zero(s)
        state["pre"] = [kit.get_particles(s, i, comm) for i in range(ns)]
    cb = callback("start")(at_start)
    import lambdapic.core.patch.metis as metis
    real = metis.compute_rank
    npt = gen.npatches(case["cfg"])
    try:
        for n in range(case["steps"]):
            for t in case["toggle"][n]:
                if allp:
                    p = allp[t % len(allp)]
                    pair = (sim.species[p[0]], sim.species[p[1]])
                    if t >= 3:
                        pair = pair[::-1]
                    (sim.collision.disable if enabled[p] else sim.collision.enable)(pair)
                    enabled[p] = not enabled[p]
            if comm:
                kind = case["rebal"][n]
                sim.load_balancer.threshold = 1e9 if kind == "no" else -1.0
                if kind != "no":
                    amap = kit.rank_assignment(kind, npt, size, case["seed"] + 7 * n)

                    def fake(patches, nrank, *a, _m=amap, **k):
                        return list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]
                    metis.compute_rank = fake
            sim.run(1, callbacks=[cb])
            kit.quiet()
            post = [kit.get_particles(sim, i, comm) for i in range(ns)]
            deb = debye_of(sim, comm) if not case.get("rebal") or case["rebal"][n] == "no" else None
            if rank == 0:
                sk, co = judge(sim, case, n, [kit.sort_by_id(P) for P in state["pre"]], [kit.sort_by_id(P) for P in post],
                               [p for p in allp if enabled[p]], deb, V, ncell, probs)
                skipped += sk
                collided += co
            if comm and comm.bcast(bool(probs), root=0) or probs:
                break
    finally:
        metis.compute_rank = real
    if comm:
        probs = comm.bcast(probs, root=0)
    require(not probs, lambda: "\n".join(probs[:6]), key="collision")
    return {"nontrivial": collided > 0, "collided": int(collided), "skipped_steps": skipped}


def debye_of(sim, comm):
    """The screening lengths the module used, as a global array (None if it does not expose them)."""
    L = getattr(sim.collision, "debye_length_inv_square_list", None)
    ok = L is not None and len(L) == len(list(sim.patches)) and all(np.shape(a) == kit.pshape(sim) for a in L)
    if comm:
        ok = all(comm.allgather(ok))
    if not ok:
        return None
    G = np.zeros(kit.gshape(sim))
    for p, a in zip(sim.patches, L):
        G[kit.pslice(sim, p)] = a
    return comm.reduce(G, root=0) if comm else G


def judge(sim, case, n, pre, post, pairs, deb, V, ncell, probs):
    A = ("ux", "uy", "uz")
    cells = []
    for i, (P, Q) in enumerate(zip(pre, post)):
        if not np.array_equal(P["id"], Q["id"]):
            probs.append(f"step {n}: species {i}: particles lost or invented: {len(P['id'])} before, {len(Q['id'])} after")
            return 0, 0
        if not np.array_equal(P["w"], Q["w"]):
            probs.append(f"step {n}: species {i}: collisions changed weights")
        if not all(np.isfinite(Q[a]).all() for a in A):
            probs.append(f"step {n}: species {i}: non-finite momenta")
            return 0, 0
        if sim.species[i].q != 0 and len(Q["id"]):
            ig = 1 / np.sqrt(1 + sum(Q[a] ** 2 for a in A))
            if np.abs(Q["inv_gamma"] / ig - 1).max() > 1e-9:
                probs.append(f"step {n}: species {i}: inv_gamma does not match the momentum after the step")
        c, sure = cellof(sim, P)
        if not sure:
            return 1, 0
        cells.append(c)
    ns = len(pre)
    cnt = [np.bincount(c, minlength=ncell) for c in cells]
    # connected components of the species graph
    comp = list(range(ns))
    for a, b in pairs:
        comp = [comp[a] if x == comp[b] else x for x in comp]
    changed = [np.zeros(len(c), bool) for c in cells]
    for i in range(ns):
        partner = np.zeros(len(cells[i]), bool)
        for a, b in pairs:
            if a == b == i:
                partner |= cnt[i][cells[i]] >= 2
            elif i in (a, b):
                partner |= cnt[b if i == a else a][cells[i]] >= 1
        for a in A:
            changed[i] |= np.abs(pre[i][a] - post[i][a]) > 1e-14 * (1 + np.abs(pre[i][a]))
        if (changed[i] & ~partner).any():
            k = int(np.flatnonzero(changed[i] & ~partner)[0])
            probs.append(f"step {n}: species {i} ({sim.species[i].name}): particle {pre[i]['id'][k]} has no enabled collision partner in "
                         f"its cell (enabled pairs {pairs}) but its momentum changed from "
                         f"{[float(pre[i][a][k]) for a in A]} to {[float(post[i][a][k]) for a in A]}")
    # conservation per cell and component
    for g in set(comp):
        S = [i for i in range(ns) if comp[i] == g and len(cells[i])]
        if not S or not any(a in S for a, b in pairs):
            continue
        c = np.concatenate([cells[i] for i in S])
        w = np.concatenate([pre[i]["w"] for i in S])
        m = np.concatenate([np.full(len(cells[i]), sim.species[i].m) for i in S]) / ME
        u0 = np.concatenate([np.stack([pre[i][a] for a in A], 1) for i in S])
        u1 = np.concatenate([np.stack([post[i][a] for a in A], 1) for i in S])
        spx = np.concatenate([np.full(len(cells[i]), i) for i in S])
        g0, g1 = np.sqrt(1 + (u0 ** 2).sum(1)), np.sqrt(1 + (u1 ** 2).sum(1))
        for cell in np.unique(c):
            k = np.flatnonzero(c == cell)
            if len(k) < 2:
                continue
            gm = g0[k].max()
            scale = (m[k] * g0[k]).sum()
            tol = 1e-12 * gm ** 2 * scale
            if np.ptp(w[k]) == 0:
                dp = (m[k][:, None] * (u1[k] - u0[k])).sum(0)
                de = (m[k] * (g1[k] - g0[k])).sum()
                if np.abs(dp).max() > tol or abs(de) > tol:
                    probs.append(f"step {n}: cell {cell}, species {S}, {len(k)} equal-weight particles: momentum changed by "
                                 f"{np.abs(dp).max() / scale:.2e}, energy by {abs(de) / scale:.2e} (relative)")
            if len(k) == 2:
                i, j = spx[k]
                if (min(i, j), max(i, j)) not in pairs:
                    continue
                a, b = k
                P4 = np.append(m[a] * u0[a] + m[b] * u0[b], m[a] * g0[a] + m[b] * g0[b])
                inv = np.sqrt(max(P4[3] ** 2 - (P4[:3] ** 2).sum(), 1e-300))
                for q in (a, b):
                    e0 = (P4[3] * g0[q] - P4[:3] @ u0[q]) / inv
                    e1 = (P4[3] * g1[q] - P4[:3] @ u1[q]) / inv
                    if abs(e1 - e0) > 1e-12 * gm ** 2 * (1 + P4[3] / inv):
                        probs.append(f"step {n}: cell {cell}: a collision changed the energy of a particle in the pair's centre-of-mass "
                                     f"frame from {e0:.12g} to {e1:.12g} mc2")
                if np.abs(u0[a] - u0[b]).max() > 1e-6 * gm:
                    lighter = a if w[a] <= w[b] else b
                    if not np.abs(u1[lighter] - u0[lighter]).max() > 0:
                        probs.append(f"step {n}: cell {cell}: the pair of species ({i},{j}) did not collide")
            elif np.ptp(w[k]) == 0:
                # everyone with a differently moving partner of an enabled pair collides when weights are equal
                for i in set(spx[k]):
                    ks = k[spx[k] == i]
                    oth = [o for a, b in pairs if i in (a, b) for o in (a, b) if (a == b or o != i)]
                    kp = k[np.isin(spx[k], oth)]
                    for q in ks:
                        op = kp[kp != q]
                        if len(op) and np.abs(u0[op] - u0[q]).max(1).min() > 1e-6 * gm and not np.abs(u1[q] - u0[q]).max() > 0:
                            probs.append(f"step {n}: cell {cell}: a particle of species {i} with {len(op)} partners did not collide")
    if deb is not None and not probs:
        ref = debye(cells, pre, sim.species, V, ncell)
        got = deb.ravel()
        # momenta are those at the start of the step
        bad = ~(np.abs(got - ref) <= 1e-6 * np.abs(ref))
        # rounding dominates the temperature of a nearly cold cell
        if bad.any() and case["umax"] >= 1e-3 and not sensitive(cells, pre, sim.species, ncell, np.flatnonzero(bad)):
            k = int(np.flatnonzero(bad)[0])
            probs.append(f"step {n}: cell {k}: inverse squared Debye length {got[k]:.6e}, expected {ref[k]:.6e} "
                         f"(particles per species {[int(x[k]) for x in cnt]})")
    return 0, sum(int(x.sum()) for x in changed)


def sensitive(cells, parts, species, ncell, bad):
    """True if, in every mismatching cell, some species is so cold that its temperature is rounding noise."""
    ok = np.zeros(ncell, bool)
    for c, P in zip(cells, parts):
        if not len(c):
            continue
        W = np.bincount(c, minlength=ncell)
        for a in ("ux", "uy", "uz"):
            lo, hi = np.full(ncell, np.inf), np.full(ncell, -np.inf)
            np.minimum.at(lo, c, P[a])
            np.maximum.at(hi, c, P[a])
            sp = np.where(W > 0, hi - lo, 0)
            ok |= (W > 1) & (sp > 0) & (sp < 1e-7 * np.maximum(np.abs(hi), np.abs(lo)))
    return bool(ok[bad].all())


# ---------------------------------------------------------------- the scattering law
@st.composite
def law_cases(draw):
    return {"species": draw(st.sampled_from([["electron", "electron"], ["electron", "proton"], ["electron", "heavy"], ["positron", "muon"],
                                             ["electron"]])),
            "u": draw(st.sampled_from([0.05, 0.5, 3.0])), "s": draw(st.sampled_from([0.02, 0.3, 1.0, 2.5, 3.9, 6.0])),
            "ratio": draw(st.sampled_from([1.0, 1.0, 0.25, 5.0])), "lnL": draw(st.sampled_from([0.0, 3.0, 12.0])),
            "dim": draw(st.sampled_from([2, 2, 3])), "seed": draw(gen.seeds())}


def run_law(case, comm):
    """Isolated pairs (one per cell): the deflection in the centre-of-mass frame follows the law exactly."""
    from lambdapic import callback
    dim = case["dim"]
    n = [48, 48] if dim == 2 else [16, 12, 12]
    np_ = [2, 2] if dim == 2 else [2, 2, 1]
    ns = len(case["species"])
    cc = {"cfg": {"dim": dim, "n": n, "np": np_, "d": [1e-7] * dim, "ng": 3, "cfl": 0.9}, "species": case["species"],
          "groups": [[0, 0]] if ns == 1 else [[0, 1]], "lnL": case["lnL"], "seed": case["seed"]}
    sim = build(cc, None)
    r = kit.rng(case["seed"], 5)
    N = int(np.prod(n))
    V = float(np.prod(kit.cellsize(sim)))
    cell = np.stack(np.unravel_index(np.arange(N), n), 1)
    s1, s2 = sim.species[0], sim.species[-1]
    u = []
    for k, s in enumerate((s1, s2)):
        d3 = r.normal(0, 1, (N, 3))
        u.append(case["u"] * d3 / (1 if s.m < 10 * ME else s.m / ME / 20))
    if ns > 1:
        u[0][: N // 4, :2] = 0.0        # along z, up or down: the degenerate directions of the rotation
        u[1][: N // 4] = 0.0
    elif case["dim"] == 3:
        u[0][: N // 4, :2] = 0.0
        u[1][: N // 4] = -u[0][: N // 4]
    k, pp, pc, to_com, bmin = K(s1.m, s1.q, u[0], s2.m, s2.q, u[1])
    lnL = case["lnL"] if case["lnL"] else 10.0
    w1 = case["s"] / np.median(k * lnL * sim.dt / V)
    w = [w1 * min(1, case["ratio"]), w1 * min(1, 1 / case["ratio"])]
    if ns == 1:
        w = [w1, w1]

    def at_start(s):
        zero(s)
        for isp in range(ns):
            js = [0, 1] if ns == 1 else [isp]
            data = {kit.AX[a]: np.concatenate([(cell[:, a] + (-0.2 if j else 0.2)) * kit.cellsize(s)[a] for j in js]) for a in range(dim)}
            for a, nm in enumerate(("ux", "uy", "uz")):
                data[nm] = np.concatenate([u[j][:, a] for j in js])
            data["w"] = np.concatenate([np.full(N, w[j]) for j in js])
            kit.put_particles(s, isp, data, ids=np.arange(1, N * len(js) + 1, dtype=np.uint64))
    at_start(sim)
    cb = callback("start")(lambda s: zero(s))
    sim.run(1, callbacks=[cb])
    kit.quiet()
    post = [kit.sort_by_id(kit.get_particles(sim, i)) for i in range(ns)]
    q = [np.stack([p[a] for a in ("ux", "uy", "uz")], 1) for p in post]
    if ns == 1:
        q = [q[0][:N], q[0][N:]]
    lt = 0 if w[0] <= w[1] else 1
    g = np.sqrt(1 + (q[lt] ** 2).sum(1))
    sp = (s1, s2)[lt]
    new = to_com(sp.m * C * q[lt], g, sp.m)
    old = pc if lt == 0 else -pc
    cosX = np.clip((new * old).sum(1) / pp ** 2, -1, 1)
    if not case["lnL"]:
        P = [{"w": np.full(N, w[j]), **{a: u[j][:, i] for i, a in enumerate(("ux", "uy", "uz"))}} for j in range(2)]
        if ns == 1:
            P = [{k2: np.concatenate([P[0][k2], P[1][k2]]) for k2 in P[0]}]
            cl = [np.concatenate([np.arange(N)] * 2)]
        else:
            cl = [np.arange(N)] * 2
        inv = debye(cl, P, sim.species, V, N)
        lnL = np.maximum(2.0, 0.5 * np.log(1 + 1 / (inv * bmin ** 2)))
    s = max(w) / V * sim.dt * lnL * k
    al = 0.37 * s - 0.005 * s ** 2 - 0.0064 * s ** 3
    x = np.clip((1 - cosX) / 2, 0, 1)            # sin^2(chi/2) = al U / sqrt(1-U+al^2 U)
    # al^2 U^2 + x^2 (1-al^2) U - x^2 = 0
    b, a2 = x ** 2 * (1 - al ** 2), al ** 2
    U = np.where(s < 4, 2 * x ** 2 / (b + np.sqrt(b ** 2 + 4 * a2 * x ** 2) + 1e-300), 1 - x)
    U[x == 0] = 0
    require(np.isfinite(U).all() and U.max() < 1 + 1e-6, lambda: f"deflection outside the law: U up to {np.nanmax(U)}", key="law")
    # azimuth about the old momentum
    e3 = old / pp[:, None]
    t = np.where(np.abs(e3[:, :1]) < 0.7, np.array([[1.0, 0, 0]]), np.array([[0, 1.0, 0]]))
    e1 = np.cross(e3, t)
    e1 /= np.sqrt((e1 ** 2).sum(1))[:, None]
    e2 = np.cross(e3, e1)
    phi = (np.arctan2((new * e2).sum(1), (new * e1).sum(1)) / (2 * np.pi)) % 1.0
    perp = np.sqrt((pc[:, :2] ** 2).sum(1)) < 1e-9 * pp
    for nm, v in (("deflection", U), ("azimuth", phi)):
        for part, sel in (("", slice(None)), (" moving along +z", perp & (pc[:, 2] > 0)), (" moving along -z", perp & (pc[:, 2] < 0))):
            x = v[sel]
            if len(x) < 100:
                continue
            D = ks(x)
            lim = np.sqrt(-np.log(0.5e-10) / (2 * len(x)))
            require(D < lim, lambda: f"{nm} of {len(x)} isolated pairs{part} {case['species']} (s~{case['s']}, lnLambda {case['lnL'] or 'varying'}, "
                                     f"weight ratio {case['ratio']}): KS distance {D:.4f} from the Coulomb law, limit {lim:.4f}; mean U {x.mean():.4f}",
                    key="law")
    # the heavier-weighted one scatters with probability w_light / w_heavy
    hv = 1 - lt
    moved = float((np.abs(q[hv] - u[hv]).max(1) > 0).mean())
    p = min(w) / max(w)
    sd = np.sqrt(max(p * (1 - p), 1e-12) / N)
    require(abs(moved - p) < 6.5 * sd + 2.0 / N, lambda: f"{moved:.4f} of the heavier-weighted particles scattered, expected {p:.4f}", key="law")
    return {"nontrivial": True, "pairs": N}


def ks(v):
    v = np.sort(v)
    n = len(v)
    return float(max((np.arange(1, n + 1) / n - v).max(), (v - np.arange(n) / n).max()))


# ---------------------------------------------------------------- the rate with many particles per cell
@st.composite
def rate_cases(draw):
    kind = draw(st.sampled_from(["inter", "intra"]))
    return {"kind": kind, "n1": draw(st.integers(2, 9)), "n2": draw(st.integers(1, 9)), "w": draw(st.sampled_from(["equal", "random", "species"])),
            "dead": draw(st.sampled_from([0, 200])), "seed": draw(gen.seeds()), "order": draw(st.booleans())}


def run_rate(case, comm):
    """Electrons on fixed heavy ions, or two electron beams: sum of (1-cos) equals the small-angle rate."""
    from lambdapic import callback
    inter = case["kind"] == "inter"
    names = (["electron", "heavy"] if case["order"] else ["heavy", "electron"]) if inter else ["electron"]
    ie = names.index("electron")
    n = [40, 40]
    cc = {"cfg": {"dim": 2, "n": n, "np": [2, 2], "d": [1e-7, 1e-7], "ng": 3, "cfl": 0.9}, "species": names,
          "groups": [[0, 1]] if inter else [[0, 0]], "lnL": 5.0, "seed": case["seed"]}
    sim = build(cc, None)
    r = kit.rng(case["seed"], 9)
    N = int(np.prod(n))
    V = 1e-14
    u0 = 0.2
    n1, n2 = case["n1"], case["n2"]
    rel = {"equal": (lambda m: np.ones(m)), "species": (lambda m: np.ones(m)), "random": (lambda m: r.uniform(0.5, 2, m))}[case["w"]]
    W1, W2 = rel(N * n1), rel(N * n2) * (3.0 if case["w"] == "species" else 1.0)
    e, h = sim.species[ie], sim.species[-1 if case["order"] or not inter else 0]
    if inter:
        u1 = np.tile([[u0, 0, 0]], (1, 1))
        k = float(K(e.m, e.q, u1, h.m, h.q, np.zeros((1, 3)))[0][0])
    else:
        k = float(K(e.m, e.q, np.array([[u0, 0, 0]]), e.m, e.q, np.array([[-u0, 0, 0]]))[0][0])
    nmax = max(n1, n2) if inter else n1 + 1
    wm = max(W1.max(), W2.max() if inter else 0)
    f = 0.03 / (k * 5.0 * sim.dt / V * wm * nmax)
    W1, W2 = W1 * f, W2 * f
    cell1, cell2 = np.repeat(np.arange(N), n1), np.repeat(np.arange(N), n2)
    sg = np.ones(N * n1) if inter else np.where(np.arange(N * n1) % n1 < max(1, n1 // 2), 1.0, -1.0)

    def place(s):
        for i, nm in enumerate(names):
            cl, w, ux = (cell1, W1, u0 * sg) if nm == "electron" else (cell2, W2, np.zeros(N * n2))
            m = len(cl)
            xy = np.stack(np.unravel_index(cl, n), 1) + r.uniform(-0.3, 0.3, (m, 2))
            kit.put_particles(s, i, {"x": xy[:, 0] * 1e-7, "y": xy[:, 1] * 1e-7, "ux": ux, "uy": np.zeros(m), "uz": np.zeros(m), "w": w},
                              ids=np.arange(1, m + 1, dtype=np.uint64), extra_dead=case["dead"])
    tot, cnt = 0.0, 0
    sq = 0.0
    reps = max(2, int(np.ceil(60000 / (N * n1))))
    for _ in range(reps):
        place(sim)
        sim.run(1, callbacks=[callback("start")(zero)])
        kit.quiet()
        P = kit.sort_by_id(kit.get_particles(sim, ie))
        u = np.sqrt(P["ux"] ** 2 + P["uy"] ** 2 + P["uz"] ** 2)
        x = 1 - P["ux"] * sg / u
        tot += x.sum()
        sq += (x ** 2).sum()
        cnt += len(x)
    if inter:
        dens = np.bincount(cell2, W2, N)[cell1]
    else:
        dens = np.where(sg > 0, np.bincount(cell1, W1 * (sg < 0), N)[cell1], np.bincount(cell1, W1 * (sg > 0), N)[cell1])
    # electrons keep |u| only approximately on finite-mass partners: corrections are of order m/M
    exp = float((0.74 * 4 / 3 * k * 5.0 * sim.dt / V * dens).mean())
    got = tot / cnt
    sd = np.sqrt(sq) / cnt
    require(abs(got / exp - 1) < 0.06 + 7 * sd / exp,
            lambda: f"{case['kind']} collisions, {n1} x {n2} particles per cell, weights {case['w']}: mean deflection {got:.4e} per particle, "
                    f"expected {exp:.4e} (ratio {got / exp:.3f} +- {sd / exp:.3f})", key="rate")
    return {"nontrivial": True, "particles": cnt, "ratio": round(got / exp, 4)}


def warm(dim, ranks):
    n = [12, 8, 4][:dim]
    return {"cfg": {"dim": dim, "n": n, "np": [2, 1, 1][:dim], "d": [1e-7] * dim, "bc": "pp" * dim, "ng": 3, "pml": 6, "cfl": 0.9},
            "seed": 1, "species": ["electron", "proton"], "groups": [[0, 0, 1]], "n": [40, 40], "spots": 3, "weights": "equal",
            "umax": 0.1, "cold": [False, False], "dens": 1e28, "lnL": 0.0, "dead": 1, "late": False, "toggle": [[], []], "steps": 2,
            "map": "cyclic", "rebal": ["no", "random"] if ranks > 1 else []}


def groups(tier):
    return [Group("cells", [Sub("cells", cell_cases(), run_cells, warm=[warm(2, 1), warm(3, 1)])], shards=2),
            Group("law", [Sub("law", law_cases(), run_law, share=0.6), Sub("rate", rate_cases(), run_rate, share=0.4)], shards=2),
            Group("mpi2", [Sub("mpi2", cell_cases(2), run_cells, warm=[warm(2, 2), warm(3, 2)])], ranks=2, shards=1, threads=1)]
