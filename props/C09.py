"""Load balancing only moves patches: it alters nothing, loses nothing, and leaves every rank with a consistent map."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated simulations (2-D/3-D, periodic/absorbing, several species incl. QED electrons/photons, uneven "
        "particle loads) advanced a few steps and then rebalanced 1-4 times with METIS' or generated patch-to-rank maps "
        "and generated load functions; the state of every patch is compared bit by bit across each rebalance and against "
        "the topology. Non-trivial = at least one patch changed rank.")
BUDGET = {"quick": 20.0}


@st.composite
def cases(draw, ranks):
    bcs = draw(st.sampled_from(["periodic", "axis", "axis"]))
    th = draw(st.sampled_from([3, 4]))
    cfg = draw(gen.grid(bcs=bcs, pml=th, ng=(3, 4), minp=(4, 4), maxp=(8, 6), max_np=(5, 3), max_patches=18,
                        min_patches=ranks, cfl=None))
    if gen.npatches(cfg) < ranks + 1:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * (ranks + 1)
        cfg["np"][0] = ranks + 1
    return {"cfg": cfg, "seed": draw(gen.seeds()), "n": draw(st.integers(0, 120)),
            "clump": draw(st.booleans()), "species": draw(st.lists(st.sampled_from(["electron", "proton", "photon", "qed"]),
                                                                   min_size=1, max_size=3)),
            "map": draw(st.sampled_from(["metis", "cyclic", "blocks", "random"])),
            "seq": draw(st.lists(st.sampled_from(["metis", "cyclic", "blocks", "random", "random"]), min_size=1, max_size=4)),
            "load": draw(st.sampled_from(["default", "default", "one", "index"])),
            "step": draw(st.booleans()), "dead": draw(st.sampled_from([0, 5]))}


def build(case, comm):
    from lambdapic import Electron, Photon, Proton
    kit.reset_registry()
    sp = []
    for s in case["species"]:
        if s == "qed":      # an electron with the QED container (radiation is never stepped here)
            e = Electron(radiation="photons")
            ph = Photon()
            e.set_photon(ph)
            sp += [e, ph]
        else:
            sp.append({"electron": Electron, "proton": Proton, "photon": Photon}[s]())
    sim = kit.make_sim(case["cfg"], sp, comm=comm)
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(case["cfg"]), comm.Get_size(), case["seed"])):
        kit.init(sim)
    return sim


def patch_state(sim, p):
    out = {("geom", a): np.asarray(getattr(p, a)) for a in
           [k + s for k in "xyz"[:sim.dimension] for s in ("0", "min", "max")] + ["index"] +
           ["ipatch_" + k for k in "xyz"[:sim.dimension]]}
    out["geom", "idx"] = np.asarray(p.neighbor_index).copy()
    for k in kit.EB + kit.J4:
        out["field", k] = getattr(p.fields, k).copy()
    for i, b in enumerate(p.pml_boundary):
        out["pml", i, "kind"] = np.array([type(b).__name__])
        for k, v in vars(b).items():
            if isinstance(v, np.ndarray):
                out["pml", i, k] = v.copy()
    for i, part in enumerate(p.particles):
        al = ~part.is_dead
        o = np.argsort(part._id[al].copy().view(np.uint64), kind="stable")
        for a in part.attrs:
            out["part", i, a] = getattr(part, a)[al][o].copy()
        out["part", i, "kind"] = np.array([type(part).__name__])
        for a in ("event", "delta"):
            if hasattr(part, a) and a not in part.attrs:
                out["part", i, a] = np.asarray(getattr(part, a))[al][o].copy()
    return out


def state(sim, comm):
    mine = {int(p.index): patch_state(sim, p) for p in sim.patches}
    allm = comm.gather(mine, root=0)
    if comm.Get_rank() != 0:
        return None
    seen = [i for m in allm for i in m]
    return {i: s for m in allm for i, s in m.items()}, sorted(seen), {i: r for r, m in enumerate(allm) for i in m}


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and (a.tobytes() == b.tobytes())


def run(case, comm):
    import lambdapic.core.patch.metis as metis
    rank, size = comm.Get_rank(), comm.Get_size()
    sim = build(case, comm)
    cfg = case["cfg"]
    npt = gen.npatches(cfg)
    r = kit.rng(case["seed"])
    sh, d = kit.gshape(sim), kit.cellsize(sim)
    for k in kit.EB + kit.J4:
        kit.set_field(sim, k, r.normal(0, 1, sh))
    kit.sync_eb(sim)
    lo, hi = kit.alive_region(sim, cfg)
    for isp in range(len(sim.species)):
        box = [(a, a + (b - a) * 0.3) if case["clump"] else (a, b) for a, b in zip(lo, hi)]
        data = kit.random_particles(r, sim, case["n"], umax=0.5, w0=1.0, box=box)
        kit.put_particles(sim, isp, data, extra_dead=case["dead"])
    for p in sim.patches:     # absorbing layers with history, so that losing it is visible
        for b in p.pml_boundary:
            for k, v in vars(b).items():
                if k.startswith("psi") and isinstance(v, np.ndarray):
                    v[...] = kit.rng(case["seed"], int(p.index), len(k)).normal(0, 1, v.shape)
    if case["step"] and "qed" not in case["species"]:
        sim.run(1)
        kit.quiet()
    real = metis.compute_rank
    moved, probs = 0, []
    lb = sim.load_balancer
    if case["load"] == "one":
        lb.load_function = lambda p: 1.0
    elif case["load"] == "index":
        lb.load_function = lambda p: 1.0 + 7 * (p.index % 3)
    try:
        for n, kind in enumerate(case["seq"]):
            amap = kit.rank_assignment(kind, npt, size, case["seed"] + 31 * n + 1)
            metis.compute_rank = real if amap is None else (
                lambda patches, nrank, *a, _m=amap, **k: (list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]))
            before = state(sim, comm)
            lb.update_weights()
            lb()
            sim.update_patches()
            after = state(sim, comm)
            topo = comm.gather([(int(p.index), p.rank, np.asarray(p.neighbor_index).tolist(),
                                 np.asarray(p.neighbor_rank).tolist(), np.asarray(p.neighbor_ipatch).tolist(),
                                 k) for k, p in enumerate(sim.patches)], root=0)
            if rank == 0:
                probs += judge(case, sim, n, before, after, topo, amap, npt)
                moved += sum(before[2].get(i) != after[2].get(i) for i in range(npt))
            failed = comm.bcast(bool(probs), root=0)
            if failed:
                break
        # the rebalanced simulation still exchanges guards and particles correctly
        if not failed:
            for k in kit.EB:
                kit.set_field(sim, k, kit.rng(case["seed"], 5, len(k) + ord(k[0]) + ord(k[1])).normal(0, 1, sh))
            kit.sync_eb(sim)
            ng = cfg["ng"]
            bad = []
            for k in kit.EB:
                G = kit.rng(case["seed"], 5, len(k) + ord(k[0]) + ord(k[1])).normal(0, 1, sh)
                for p in sim.patches:
                    # a band of guard cells right of the patch along each axis
                    for a in range(sim.dimension):
                        nb = np.asarray(kit.pidx(sim, p))
                        nb[a] += 1
                        if nb[a] >= cfg["np"][a]:
                            if cfg["bc"][2 * a + 1] != "p":
                                continue
                            nb[a] = 0
                        n = kit.pshape(sim)
                        mine = [slice(0, m) for m in n]
                        mine[a] = slice(n[a], n[a] + ng)
                        theirs = [slice(i * m, (i + 1) * m) for i, m in zip(nb, n)]
                        theirs[a] = slice(nb[a] * n[a], nb[a] * n[a] + ng)
                        if not np.array_equal(getattr(p.fields, k)[tuple(mine)], G[tuple(theirs)]):
                            bad.append((int(p.index), k, a))
            allbad = comm.gather(bad, root=0)
            if rank == 0:
                for b in sum(allbad, []):
                    probs.append(f"after rebalancing, guards of patch {b[0]} field {b[1]} axis {b[2]} are not its neighbour's")
    finally:
        metis.compute_rank = real
    require(not probs, lambda: "\n".join(probs[:6]), key="rebalance")
    return {"nontrivial": moved > 0, "patch_migrations": int(moved)}


def judge(case, sim, n, before, after, topo, amap, npt):
    out = []
    (A, _, _), (B, seen, owner) = before, after
    if seen != list(range(npt)):
        return [f"rebalance {n}: patches present afterwards: {seen}"]
    if amap is not None and [owner[i] for i in range(npt)] != list(amap):
        out.append(f"rebalance {n}: patches are on {[owner[i] for i in range(npt)]}, the balancer decided {list(amap)}")
    for i in range(npt):
        if set(A[i]) != set(B[i]):
            out.append(f"rebalance {n}: patch {i}: state entries changed: {sorted(map(str, set(A[i]) ^ set(B[i])))[:4]}")
            continue
        for k in A[i]:
            if not same(A[i][k], B[i][k]):
                out.append(f"rebalance {n}: patch {i} {k} changed")
    local = {}
    for r, t in enumerate(topo):
        for idx, prank, ni, nr, nip, pos in t:
            local[idx] = (r, pos)
    for r, t in enumerate(topo):
        for idx, prank, ni, nr, nip, pos in t:
            if prank != r:
                out.append(f"rebalance {n}: patch {idx} is on rank {r} but labelled {prank}")
            for b, (j, jr, jp) in enumerate(zip(ni, nr, nip)):
                if j < 0:
                    if jr >= 0 or jp >= 0:
                        out.append(f"rebalance {n}: patch {idx} side {b} is open but points to rank {jr}/{jp}")
                    continue
                wr, wp = local[j]
                if wr == r:
                    if jp != wp:
                        out.append(f"rebalance {n}: patch {idx} side {b}: local neighbour {j} is at {wp}, recorded {jp}")
                    if jr not in (-1, r):
                        out.append(f"rebalance {n}: patch {idx} side {b}: neighbour {j} is local, recorded rank {jr}")
                else:
                    if jr != wr:
                        out.append(f"rebalance {n}: patch {idx} side {b}: neighbour {j} is on {wr}, recorded {jr}")
                    if jp >= 0:
                        out.append(f"rebalance {n}: patch {idx} side {b}: neighbour {j} is remote but has local index {jp}")
    return out


def groups(tier):
    return [Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=2),
            Group("mpi3", [Sub("mpi3", cases(3), run)], ranks=3, shards=2, threads=2)]
