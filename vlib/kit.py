"""Helpers to build simulations from plain cases and to look at their state as global arrays.

Only the public surface is used: Simulation/Simulation3D, Species classes, Patches iteration,
Fields/Particles attributes."""
import os

import numpy as np

AX = "xyz"
C_LIGHT = 299792458.0
EPS0 = 8.8541878128e-12
MU0 = 1.25663706212e-06
QE = 1.602176634e-19
ME = 9.1093837015e-31
EB = ("ex", "ey", "ez", "bx", "by", "bz")
J4 = ("jx", "jy", "jz", "rho")
# staggering: which axes carry a half-cell offset (Yee)
STAG = {"ex": (1, 0, 0), "ey": (0, 1, 0), "ez": (0, 0, 1),
        "bx": (0, 1, 1), "by": (1, 0, 1), "bz": (1, 1, 0),
        "jx": (1, 0, 0), "jy": (0, 1, 0), "jz": (0, 0, 1), "rho": (0, 0, 0)}


def quiet():
    from loguru import logger
    logger.remove()


_registry_cleared = False


def reset_registry():
    """The library keeps every Species ever built in a module-level list (for auto-registration)."""
    try:
        from lambdapic.core import species as sp
        sp._ALL_SPECIES.clear()
    except Exception:  # noqa
        pass


def make_sim(cfg, species, comm=None, cls=None, **extra):
    """cfg: {dim, n:[..], np:[..], d:[..], bc:'ppmm..' one letter per side, ng, pml, cfl, seed}"""
    import lambdapic
    dim = cfg["dim"]
    n, npp, d = cfg["n"], cfg["np"], cfg["d"]
    bc = cfg.get("bc", "p" * (2 * dim))
    names = [a + s for a in AX[:dim] for s in ("min", "max")]
    kw = dict(nx=n[0], ny=n[1], dx=d[0], dy=d[1], npatch_x=npp[0], npatch_y=npp[1],
              boundary_conditions={k: ("periodic" if b == "p" else "pml") for k, b in zip(names, bc)},
              n_guard=cfg.get("ng", 3), cpml_thickness=cfg.get("pml", 6), dt_cfl=cfg.get("cfl", 0.95),
              random_seed=cfg.get("seed", 1))
    C = lambdapic.Simulation
    if dim == 3:
        kw.update(nz=n[2], dz=d[2], npatch_z=npp[2])
        C = lambdapic.Simulation3D
    if cls is not None:
        C = cls
    if comm is not None:
        kw["comm"] = comm
    kw.update(extra)
    sim = C(**kw)
    quiet()
    if species:
        sim.add_species(species)
    return sim


def init(sim):
    sim.initialize()
    quiet()
    return sim


def dims(sim):
    return sim.dimension


def gshape(sim):
    return tuple([sim.nx, sim.ny] + ([sim.nz] if sim.dimension == 3 else []))


def pshape(sim):
    return tuple([sim.nx_per_patch, sim.ny_per_patch] + ([sim.nz_per_patch] if sim.dimension == 3 else []))


def cellsize(sim):
    return tuple([sim.dx, sim.dy] + ([sim.dz] if sim.dimension == 3 else []))


def pidx(sim, p):
    return tuple([p.ipatch_x, p.ipatch_y] + ([p.ipatch_z] if sim.dimension == 3 else []))


def pslice(sim, p):
    return tuple(slice(i * n, (i + 1) * n) for i, n in zip(pidx(sim, p), pshape(sim)))


def interior(sim):
    return tuple(slice(0, n) for n in pshape(sim))


def set_field(sim, name, G):
    """Write a global array into every local patch interior (guards untouched)."""
    I = interior(sim)
    for p in sim.patches:
        getattr(p.fields, name)[I] = G[pslice(sim, p)]


def sync_eb(sim, names=EB):
    sim.patches.sync_guard_fields(list(names))
    sim.mpi.sync_guard_fields(list(names))


def get_field(sim, name, comm=None, root_only=True):
    """Assemble the global interior array (on rank 0 when comm is given)."""
    G = np.zeros(gshape(sim))
    I = interior(sim)
    seen = np.zeros(gshape(sim), dtype=int)
    for p in sim.patches:
        G[pslice(sim, p)] = getattr(p.fields, name)[I]
        seen[pslice(sim, p)] += 1
    if comm is None:
        assert (seen == 1).all()
        return G
    G = comm.reduce(G, root=0)
    return G


def get_fields(sim, names, comm=None):
    return {k: get_field(sim, k, comm) for k in names}


def owner_index(sim, x):
    """Patch index tuple (arrays) owning positions x (dim arrays)."""
    out = []
    for a in range(sim.dimension):
        d, n = cellsize(sim)[a], pshape(sim)[a]
        g = np.floor((np.asarray(x[a]) + d / 2) / d).astype(int)
        out.append(np.clip(g // n, 0, gshape(sim)[a] // n - 1))
    return out


def put_particles(sim, ispec, data, ids=None, extra_dead=0, stale=None):
    """Place the given particles (dict of arrays with x,y[,z] and any attrs) into local patches.
    `extra_dead` adds that many dead slots in each patch (interleaved)."""
    dim = sim.dimension
    pos = [np.asarray(data[a], dtype=float) for a in AX[:dim]]
    own = owner_index(sim, pos)
    n = len(pos[0])
    if stale is None:
        stale = float(np.max(np.abs(data["w"]))) if "w" in data and n else 1e10
    if ids is None:
        ids = np.arange(n, dtype=np.uint64) + np.uint64(1)
    ids = np.asarray(ids, dtype=np.uint64)
    for p in sim.patches:
        sel = np.ones(n, bool)
        for o, i in zip(own, pidx(sim, p)):
            sel &= o == i
        k = int(sel.sum())
        part = p.particles[ispec]
        part.initialize(k + extra_dead)
        slots = np.arange(k + extra_dead)
        if extra_dead:
            dead = slots[:: max(1, (k + extra_dead) // extra_dead)][:extra_dead]
            part.is_dead[dead] = True
            for a in part.attrs:
                if a != "_id":
                    getattr(part, a)[dead] = np.nan
            part.w[dead] = 0
            # every other dead slot is one whose particle was sent to another rank: it keeps its last state
            for j in dead[1::2] if stale else ():
                for a in range(dim):
                    getattr(part, AX[a])[j] = getattr(p, AX[a] + "0") + (1 + a % 2) * cellsize(sim)[a]
                for a, v in (("ux", 0.3), ("uy", -0.2), ("uz", 0.1), ("inv_gamma", 1 / np.sqrt(1.14)), ("w", stale)):
                    getattr(part, a)[j] = v
            slots = np.setdiff1d(slots, dead)
        for a, v in data.items():
            getattr(part, a)[slots] = np.asarray(v, dtype=float)[sel]
        u2 = part.ux[slots] ** 2 + part.uy[slots] ** 2 + part.uz[slots] ** 2
        if part.__class__.__name__ and getattr(sim.species[ispec], "mass", 1) == 0:
            part.inv_gamma[slots] = 1 / np.sqrt(np.where(u2 > 0, u2, 1.0))
        else:
            part.inv_gamma[slots] = 1 / np.sqrt(1 + u2)
        part._id[slots] = ids[sel].view(np.float64)
        part.extended = True
    sim.patches.update_lists()
    sim.update_lists()


def get_particles(sim, ispec, comm=None, attrs=None):
    """All alive particles as a dict of arrays plus 'id', 'pi' (flat patch index). Rank 0 gets all."""
    out = {}
    cols = None
    for p in sim.patches:
        part = p.particles[ispec]
        if attrs is None:
            attrs = [a for a in part.attrs if a != "_id"]
        al = ~part.is_dead
        row = {a: getattr(part, a)[al].copy() for a in attrs}
        row["id"] = part._id[al].copy().view(np.uint64)
        row["pi"] = np.full(int(al.sum()), p.index)
        for k, v in row.items():
            out.setdefault(k, []).append(v)
    if comm is not None:
        allout = comm.gather(out, root=0)
        if allout is None or comm.Get_rank() != 0:
            return None
        out = {}
        for o in allout:
            for k, v in o.items():
                out.setdefault(k, []).extend(v)
    if not out:
        return {"id": np.array([], dtype=np.uint64), "pi": np.array([], int), **{a: np.array([]) for a in (attrs or [])}}
    return {k: np.concatenate(v) for k, v in out.items()}


def sort_by_id(P):
    o = np.argsort(P["id"], kind="stable")
    return {k: v[o] for k, v in P.items()}


def rng(*seed):
    return np.random.default_rng([int(s) & 0xFFFFFFFF for s in seed])


def random_particles(r, sim, n, umax=1.0, w0=1e10, box=None):
    dim = sim.dimension
    d = cellsize(sim)
    L = [k * s for k, s in zip(gshape(sim), d)]
    data = {}
    for a in range(dim):
        lo, hi = -d[a] / 2, L[a] - d[a] / 2
        if box is not None:
            lo, hi = box[a]
        data[AX[a]] = r.uniform(lo, hi, n)
    for a in ("ux", "uy", "uz"):
        data[a] = r.normal(0, 1, n) * umax
    data["w"] = w0 * r.uniform(0.5, 1.5, n)
    return data


def relerr(a, b, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.size == 0:
        return 0.0
    s = scale if scale is not None else max(float(np.max(np.abs(b))), 1e-300)
    return float(np.max(np.abs(a - b))) / s


def workdir():
    import tempfile
    return tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK", "/tmp"))


class forced_ranks:
    """Use a generated patch->rank assignment instead of METIS' (best effort)."""

    def __init__(self, ranks):
        self.ranks = ranks

    def __enter__(self):
        import lambdapic.simulation.simulation as m
        self.m, self.old = m, getattr(m, "compute_rank", None)
        if self.ranks is not None and self.old is not None:
            r = [int(i) for i in self.ranks]

            def fake(patches, nrank, *a, **k):
                return np.array(r), np.bincount(r, minlength=nrank)
            m.compute_rank = fake

    def __exit__(self, *a):
        if self.old is not None:
            self.m.compute_rank = self.old


def rank_assignment(kind, npatch, size, seed):
    """A valid assignment giving every rank at least one patch, or None (METIS decides)."""
    if size == 1 or kind == "metis":
        return None
    if kind == "cyclic":
        return [i % size for i in range(npatch)]
    if kind == "blocks":
        return [i * size // npatch for i in range(npatch)]
    r = rng(seed, 77)
    if kind == "empty":         # one rank is left without any patch (METIS does this on small grids)
        e = int(r.integers(0, size))
        return [int(i) for i in r.choice([k for k in range(size) if k != e], npatch)]
    a = list(range(size)) + list(r.integers(0, size, npatch - size))
    r.shuffle(a)
    return [int(i) for i in a]


def patch_bounds(sim, p):
    lo, hi = [], []
    for a in range(sim.dimension):
        d = cellsize(sim)[a]
        lo.append(getattr(p, AX[a] + "min") - d / 2)
        hi.append(getattr(p, AX[a] + "max") + d / 2)
    return lo, hi


def alive_region(sim, cfg):
    """Global region in which particles live: the domain minus the absorbing layers."""
    lo, hi = [], []
    for a in range(sim.dimension):
        d, n = cellsize(sim)[a], gshape(sim)[a]
        m0, m1 = (cfg["bc"][2 * a] == "m"), (cfg["bc"][2 * a + 1] == "m")
        lo.append(-d / 2 + (cfg["pml"] * d if m0 else 0))
        hi.append((n - 0.5) * d - (cfg["pml"] * d if m1 else 0))
    return lo, hi
