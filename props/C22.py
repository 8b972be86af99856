"""Irregular domains: only the chosen patches exist, every open face absorbs, and how the shape is cut does not matter."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from props import C08
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated domain shapes (connected and disconnected sets of coarse blocks, holes, one-block-wide arms, concave "
        "corners, the full rectangle), each cut into patches in two generated ways, with generated fields, particles, rank maps "
        "and rebalances; the two runs are compared after every step, the topology with the shape, outputs with NaN outside it, "
        "and the full rectangle with a plain absorbing simulation. Non-trivial = the shape has an open face inside the "
        "rectangle (or the plain simulation is the reference) and the two cuts, the ranks or the classes differ.")
BUDGET = {"quick": 22.0}
DIRS = {"XMIN": (-1, 0), "XMAX": (1, 0), "YMIN": (0, -1), "YMAX": (0, 1),
        "XMINYMIN": (-1, -1), "XMAXYMIN": (1, -1), "XMINYMAX": (-1, 1), "XMAXYMAX": (1, 1)}


@st.composite
def shapes(draw, connected):
    cx, cy = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    kind = draw(st.sampled_from(["grow", "grow", "full", "hole", "any"]))
    M = np.zeros((cx, cy), bool)
    if kind == "full":
        M[:] = True
    elif kind == "hole":
        M[:] = True
        M[draw(st.integers(0, cx - 1)), draw(st.integers(0, cy - 1))] = cx * cy == 1
        if connected and min(cx, cy) < 3:
            kind = "grow"
    elif kind == "any" and not connected:
        bits = draw(st.lists(st.booleans(), min_size=cx * cy, max_size=cx * cy))
        M[:] = np.array(bits).reshape(cx, cy)
    if kind == "grow" or not M.any() or (kind == "any" and connected):
        M[:] = False
        M[draw(st.integers(0, cx - 1)), draw(st.integers(0, cy - 1))] = True
        for k in draw(st.lists(st.integers(0, 63), max_size=8)):
            front = [(i, j) for i in range(cx) for j in range(cy) if not M[i, j] and
                     any(0 <= i + a < cx and 0 <= j + b < cy and M[i + a, j + b] for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1)))]
            if front:
                M[front[k % len(front)]] = True
    return M.astype(int).tolist()


def thin(M, a):
    """Is a block open on both sides of axis a (two absorbing layers would face each other in one patch)?"""
    P = np.pad(np.asarray(M, bool), 1)
    P = P if a == 0 else P.T
    return bool((P[1:-1] & ~P[:-2] & ~P[2:]).any())


@st.composite
def cases(draw, ranks=1):
    M = draw(shapes(ranks > 1))
    th = draw(st.sampled_from([3, 3, 4]))
    u = [draw(st.sampled_from([12, 16, 20, 24])) for _ in range(2)]

    def cut():
        return [draw(st.sampled_from([q for q in (1, 2, 3, 4) if u[a] % q == 0 and u[a] // q > th + 1 and (q > 1 or not thin(M, a))]))
                for a in range(2)]
    rA, rB = cut(), cut()
    if rA == rB:
        rB = cut()
    nblk = int(np.sum(M))
    if nblk * rB[0] * rB[1] < ranks:
        rB = [2, 2]
    steps = draw(st.integers(2, 6))
    cfg = {"dim": 2, "n": [u[0] * len(M), u[1] * len(M[0])], "np": [len(M) * rB[0], len(M[0]) * rB[1]], "bc": "mmmm",
           "ng": draw(st.sampled_from([3, 3, 4])), "pml": th, "d": [draw(st.sampled_from([1e-7, 8e-8, 1.4e-7])) for _ in range(2)],
           "cfl": draw(st.sampled_from([0.95, 0.6]))}
    return {"cfg": cfg, "shape": M, "rA": rA, "plain": draw(st.booleans()), "seed": draw(gen.seeds()),
            "n": draw(st.sampled_from([30, 80, 200, 5, 0])), "steps": steps, "umax": draw(st.sampled_from([0.3, 3.0, 30.0])),
            "amp": draw(st.sampled_from([0.0, 0.1, 1.0, 5.0])), "noise": draw(st.booleans()),
            "species": draw(st.lists(st.sampled_from(["electron", "proton", "photon"]), min_size=1, max_size=3)),
            "split": draw(st.booleans()), "dead": draw(st.sampled_from([0, 2])),
            "map": draw(st.sampled_from(["metis", "cyclic", "blocks", "random"])),
            "rebal": [draw(st.sampled_from(["no", "metis", "cyclic", "random"])) for _ in range(steps)] if ranks > 1 else [],
            "outline": draw(st.lists(st.sampled_from([0.0, 1.0, -1.0, 0.6]), min_size=2, max_size=2)),
            "slice": draw(st.lists(st.tuples(st.floats(0, 0.9), st.floats(0.05, 1), st.integers(1, 4)), min_size=2, max_size=2))}


def mask_of(case):
    """Boolean map of the cells."""
    M = np.asarray(case["shape"], bool)
    n = case["cfg"]["n"]
    return np.kron(M, np.ones((n[0] // M.shape[0], n[1] // M.shape[1]), bool)).astype(bool)


def mask_fn(case):
    M = np.asarray(case["shape"], bool)
    L = [n * d for n, d in zip(case["cfg"]["n"], case["cfg"]["d"])]
    # an outline moved by less than half a patch selects the same patch centres
    off = [case["outline"][a] * 0.98 * 0.5 / max(case["rA"][a], case["cfg"]["np"][a] // M.shape[a]) for a in range(2)]

    def mask(x, y):
        i = [int(np.floor(v / L[a] * M.shape[a] + off[a])) for a, v in enumerate((x, y))]
        return bool(all(0 <= i[a] < M.shape[a] for a in range(2)) and M[i[0], i[1]])
    return mask


def build(case, comm, r, plain=False):
    from lambdapic.simulation._mask_simulation import _MaskSimulation
    kit.reset_registry()
    M = np.asarray(case["shape"])
    cfg = dict(case["cfg"], np=[M.shape[0] * r[0], M.shape[1] * r[1]])
    npatch = int(M.sum()) * r[0] * r[1]
    if plain:
        sim = kit.make_sim(cfg, C08.species(case), comm=comm)
    else:
        sim = kit.make_sim(cfg, C08.species(case), comm=comm, cls=_MaskSimulation, mask=mask_fn(case))
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], npatch, size, case["seed"])):
        kit.init(sim)
    rg = kit.rng(case["seed"])
    sh, d = kit.gshape(sim), kit.cellsize(sim)
    E0 = case["amp"] * kit.ME * kit.C_LIGHT * 2 * np.pi * 3e8 / 1e-6 / kit.QE
    for k in kit.EB:
        a = E0 * (1 if k[0] == "e" else 1 / kit.C_LIGHT)
        if case["noise"]:
            F = rg.normal(0, 1, sh) * a
        else:
            c = [rg.uniform(0, s) for s in sh]
            g = np.meshgrid(*[np.arange(s) for s in sh], indexing="ij")
            F = a * np.exp(-sum(((x - y) / 4.0) ** 2 for x, y in zip(g, c)))
        kit.set_field(sim, k, F)
    kit.sync_eb(sim)
    w0 = 1e27 * np.prod(d) * 1e-2
    for isp, s in enumerate(sim.species):
        data = kit.random_particles(rg, sim, case["n"], umax=case["umax"] / (50 if getattr(s, "mass", 1) > 10 else 1), w0=w0)
        kit.put_particles(sim, isp, data, ids=np.arange(case["n"]) + (1 << 28), extra_dead=case["dead"])
    return sim


def whole(sim, name, comm):
    G = np.zeros(kit.gshape(sim))
    for p in sim.patches:
        G[kit.pslice(sim, p)] += getattr(p.fields, name)[kit.interior(sim)]
    return G if comm is None else comm.reduce(G, root=0)


def snap(sim, comm):
    return ({k: whole(sim, k, comm) for k in kit.EB + kit.J4},
            [kit.get_particles(sim, i, comm) for i in range(len(sim.species))])


def topology(sim, case, r, comm, probs):
    """Every wanted patch once, every neighbour the patch next door, absorbing layers on exactly the open faces."""
    from lambdapic.core.patch.patch import Boundary2D
    mine = [(int(p.ipatch_x), int(p.ipatch_y), int(p.index), [int(i) for i in p.neighbor_index], [int(i) for i in p.neighbor_rank],
             int(p.rank), sorted(type(b).__name__ for b in p.pml_boundary), [int(i) for i in p.neighbor_ipatch]) for p in sim.patches]
    rows = [mine] if comm is None else comm.allgather(mine)
    flat = [x for row in rows for x in row]
    W = np.kron(np.asarray(case["shape"], bool), np.ones(r, bool)).astype(bool)
    want = {(i, j) for i in range(W.shape[0]) for j in range(W.shape[1]) if W[i, j]}
    if sorted((x[0], x[1]) for x in flat) != sorted(want):
        probs.append(f"the patches present are not those of the mask: {len(flat)} instead of {len(want)}")
        return
    if sorted(x[2] for x in flat) != list(range(len(want))):
        probs.append("patch indices are not unique")
    at = {(x[0], x[1]): x for x in flat}
    local = {x[2]: k for k, x in enumerate(mine)}
    rank = 0 if comm is None else comm.Get_rank()
    for x in flat:
        for name, (a, b) in DIRS.items():
            o = at.get((x[0] + a, x[1] + b))
            k = int(getattr(Boundary2D, name))
            w = -1 if o is None else o[2]
            if x[3][k] != w:
                probs.append(f"patch ({x[0]}, {x[1]}): neighbour {name} is patch {x[3][k]}, expected {w}")
            elif o is not None and o[5] != x[5] and x[4][k] != o[5]:
                probs.append(f"patch ({x[0]}, {x[1]}): neighbour {name} is looked for on rank {x[4][k]}, it is on {o[5]}")
            if x[5] == rank and o is not None and o[5] == rank and x[7][k] != local[o[2]]:
                probs.append(f"patch ({x[0]}, {x[1]}): local neighbour {name} is {x[7][k]}, expected {local[o[2]]}")
        pml = sorted("PML" + n[0] + n[1:].lower() for n, (a, b) in DIRS.items() if (a == 0 or b == 0) and (x[0] + a, x[1] + b) not in at)
        if x[6] != pml:
            probs.append(f"patch ({x[0]}, {x[1]}) has absorbing layers {x[6]}, its open faces are {pml}")


def outputs(sim, case, comm, wd, probs):
    """Field and density outputs are NaN exactly outside the shape and the true values inside."""
    import h5py
    from lambdapic import ExtractSpeciesDensity, SaveFieldsToHDF5, get_fields
    rank = comm.Get_rank() if comm else 0
    n = case["cfg"]["n"]
    sl = []
    for a, (lo, hi, s) in enumerate(case["slice"]):
        i = min(int(lo * n[a]), n[a] - 1)
        sl.append(slice(i, max(i + 1, int(hi * n[a])), s))
    sl = tuple(sl)
    names = ["ey", "bz", "rho"]
    got = get_fields(sim, names)
    SaveFieldsToHDF5(prefix=wd, interval=1, components=names, slice=sl)(sim)
    truth = {k: whole(sim, k, comm) for k in names}
    if rank:
        return
    m = mask_of(case)
    with h5py.File(os.path.join(wd, f"{sim.itime:06d}.h5"), "r") as f:
        for k, g in zip(names, got):
            for what, v, t, mm in (("get_fields", g, truth[k], m), ("HDF5", f[k][()], truth[k][sl], m[sl])):
                if v.shape != t.shape or (np.isnan(v) != ~mm).any():
                    probs.append(f"{what} {k}: NaN on {int(np.isnan(v).sum())} of {v.size} cells, {int((~mm).sum())} are outside the domain")
                elif not np.array_equal(v[mm], t[mm]):
                    probs.append(f"{what} {k} differs from the fields inside the domain")


def run(case, comm):
    from mpi4py import MPI
    rank, size = (comm.Get_rank(), comm.Get_size()) if comm else (0, 1)
    M = np.asarray(case["shape"], bool)
    plain = bool(case["plain"] and M.all())
    rB = [case["cfg"]["np"][a] // M.shape[a] for a in range(2)]
    probs, refs = [], []
    if rank == 0:
        A = build(case, MPI.COMM_SELF if comm else None, case["rA"], plain)
        for n in range(case["steps"]):
            C08.step(A, case, n)
            refs.append(snap(A, None))
    if comm:
        comm.Barrier()
    B = build(case, comm, rB)
    d = kit.cellsize(B)
    topology(B, case, rB, comm, probs)
    wd = kit.workdir() if rank == 0 else None
    wd = comm.bcast(wd, root=0) if comm else wd
    import lambdapic.core.patch.metis as metis
    real = metis.compute_rank
    npatch = int(M.sum()) * rB[0] * rB[1]
    npart0 = [kit.get_particles(B, i, comm) for i in range(len(B.species))]
    try:
        for n in range(case["steps"]):
            if comm:
                kind = case["rebal"][n]
                B.load_balancer.threshold = 1e9 if kind == "no" else -1.0
                amap = kit.rank_assignment(kind, npatch, size, case["seed"] + 13 * n) if kind not in ("no", "metis") else None
                if amap is None:
                    metis.compute_rank = real
                else:
                    def fake(patches, nrank, *a, _m=amap, **k):
                        return list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]
                    metis.compute_rank = fake
            C08.step(B, case, n)
            got = snap(B, comm)
            if rank == 0:
                C08.compare(case, n, refs[n], got, d, probs)
            if comm:
                topology(B, case, rB, comm, probs)
    finally:
        metis.compute_rank = real
    with contextlib.redirect_stdout(io.StringIO()):
        outputs(B, case, comm, wd, probs)
    if comm:
        probs = sum(comm.allgather(probs), [])
    require(not probs, lambda: "\n".join(probs[:6]), key="mask")
    return {"nontrivial": bool((plain or not M.all()) and (plain or comm or case["rA"] != rB) and (case["n"] or case["amp"])),
            "blocks": int(M.sum()), "particles": int(case["n"])}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=3),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=2)]
