"""Particles written to a file and loaded back are the same particles, whatever cut the domain into patches."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated particle populations (2-D/3-D, several species and particle kinds, positions including patch "
        "edges to the last bit) saved by SaveParticlesToHDF5 in one decomposition, or written to a file by hand, and loaded by "
        "LoadParticles in another decomposition and rank map on top of a generated population, in generated batch sizes; the "
        "run then continues and is compared with a reference run. Non-trivial = at least one particle was loaded.")
BUDGET = {"quick": 20.0}
KINDS = ["electron", "proton", "photon", "spin", "qed", "bw"]
OPTIONAL = ["ux", "uy", "uz", "inv_gamma", "ex_part", "tau", "chi", "delta", "sx", "sy", "sz", "_id"]


@st.composite
def cases(draw, ranks=1):
    dim = draw(st.sampled_from([2, 2, 3]))
    bc = "p" * 2 * dim if draw(st.booleans()) else "".join(draw(st.sampled_from("pm")) * 2 for _ in range(dim))
    th = 3
    lo = 5 if "m" in bc else 4
    unit = {2: [12, 16, 20, 24], 3: [10, 12, 16]}[dim]
    n = [draw(st.sampled_from(unit)) for _ in range(dim)]

    def decomp(minp=1):
        out = []
        for a in range(dim):
            o = [q for q in range(1, 5) if n[a] % q == 0 and n[a] // q >= lo and (bc[2 * a] == "p" or q >= 2)]
            out.append(draw(st.sampled_from(o)))
        if int(np.prod(out)) < minp:
            out = [max(q for q in range(1, 5) if n[a] % q == 0 and n[a] // q >= lo) for a in range(dim)]
        return out
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3))
    return {"cfg": {"dim": dim, "n": n, "np": decomp(ranks), "bc": bc, "ng": 3, "pml": th, "cfl": 0.9,
                    "d": [draw(st.sampled_from([1e-7, 8e-8, 1.3e-7])) for _ in range(dim)]},
            "npA": decomp(ranks), "kinds": kinds, "which": draw(st.integers(0, 2)), "seed": draw(gen.seeds()),
            "n": draw(st.sampled_from([0, 1, 2, 7, 30, 60])), "edge": draw(st.floats(0, 1)),
            "pre": draw(st.sampled_from([0, 0, 3, 12])), "dead": draw(st.sampled_from([0, 2])),
            "attrs": draw(st.one_of(st.none(), st.lists(st.sampled_from(OPTIONAL), max_size=6, unique=True))),
            "hand": draw(st.booleans()), "batch": draw(st.sampled_from([None, 1, 3, 10, 1000])),
            "umax": draw(st.sampled_from([0.01, 1.0, 50.0])), "steps": draw(st.integers(1, 3)),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"]))}


def species(case):
    from lambdapic import Electron, Photon, Positron, Proton
    out, extra = [], []
    for i, k in enumerate(case["kinds"]):
        nm = f"s{i}"
        if k == "spin":
            out.append(Electron(name=nm, polarization=(0.0, 0.0, 1.0)))
        elif k == "qed":
            e = Electron(name=nm, radiation="photons")
            ph = Photon(name=nm + "ph")
            e.set_photon(ph)
            out.append(e)
            extra.append(ph)
        elif k == "bw":
            ph = Photon(name=nm)
            e, p = Electron(name=nm + "e"), Positron(name=nm + "p")
            ph.set_bw_pair(electron=e, positron=p)
            out.append(ph)
            extra += [e, p]
        else:
            out.append({"electron": Electron, "proton": Proton, "photon": Photon}[k](name=nm))
    return out + extra


def build(case, comm, npp):
    kit.reset_registry()
    sp = species(case)
    sim = kit.make_sim(dict(case["cfg"], np=npp), sp, comm=comm)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], int(np.prod(npp)), size, case["seed"])):
        kit.init(sim)
    return sim


def positions(case, sim, r, n, npps):
    """Uniform positions, a part of them placed on patch edges of either decomposition, moved by a few ulps."""
    lo, hi = kit.alive_region(sim, case["cfg"])
    out = []
    for a in range(sim.dimension):
        d, N = case["cfg"]["d"][a], case["cfg"]["n"][a]
        x = r.uniform(lo[a], hi[a], n)
        for i in range(n):
            if r.random() < case["edge"] * 0.7:
                q = npps[int(r.integers(0, len(npps)))][a]
                k = int(r.integers(0, q + 1)) * (N // q)
                e = [k * d - d / 2, (k - 0.5) * d, (k * d * q) / q - d / 2][int(r.integers(0, 3))]
                for _ in range(int(r.integers(0, 3))):
                    e = np.nextafter(e, e + d * (1 if r.random() < 0.5 else -1))
                if r.random() < 0.2:
                    e += d / 2
                if lo[a] + 1e-6 * d < e < hi[a] - 1e-6 * d:
                    x[i] = e
        out.append(x)
    return out


def population(case, sim, r, n, ispec, npps):
    data = kit.random_particles(r, sim, n, umax=case["umax"])
    for k, v in zip(kit.AX, positions(case, sim, r, n, npps)):
        data[k] = v
    if sim.dimension == 2:
        data["z"] = r.normal(size=n) * 1e-7
    if getattr(sim.species[ispec], "mass", 1) == 0:
        s = np.sqrt(data["ux"] ** 2 + data["uy"] ** 2 + data["uz"] ** 2)
        data["ux"] += np.where(s == 0, 1, 0)
    part = sim.patches[0].particles[ispec]
    for k in part.attrs:
        if k not in data and k not in ("inv_gamma", "_id") and not k.endswith("_part"):
            data[k] = np.abs(r.normal(size=n)) + 0.1
    return data


def inv_gamma(sim, ispec, P):
    u2 = P["ux"] ** 2 + P["uy"] ** 2 + P["uz"] ** 2
    if getattr(sim.species[ispec], "mass", 1) == 0:
        return np.where(u2 > 0, 1 / np.sqrt(np.where(u2 > 0, u2, 1)), np.nan)
    return 1 / np.sqrt(1 + u2)


def run(case, comm):
    import h5py
    from mpi4py import MPI
    from lambdapic import callback
    from lambdapic.callback.hdf5 import SaveParticlesToHDF5
    from lambdapic.callback.utils import LoadParticles
    root = comm is None or comm.Get_rank() == 0
    cfg = case["cfg"]
    which = case["which"] % len(case["kinds"])
    r = kit.rng(case["seed"])
    wd = kit.workdir() if root else None
    if comm is not None:
        wd = comm.bcast(wd)
    npps = [case["npA"], cfg["np"]]
    tol_id = []
    # ---------------------------------------------------------------- write
    A = build(case, comm, case["npA"])
    rA = kit.rng(case["seed"], 1)
    src = population(case, A, rA, case["n"], which, npps)
    n = case["n"]
    attrs = None if case["attrs"] is None else ["x", "y", "z", "w"] + list(case["attrs"])
    known = A.patches[0].particles[which].attrs
    if case["hand"]:
        f = os.path.join(wd, "in.h5")
        names = [k for k in (attrs or src) if k in src]
        if root:
            with h5py.File(f, "w") as h:
                for k in names:
                    h[k] = src[k]
                h["junk"] = np.arange(n)
                h["id"] = np.arange(n, dtype="u8")
        if comm is not None:
            comm.Barrier()
    else:
        if attrs is not None:
            attrs = [k for k in attrs if k in known]
        kit.put_particles(A, which, src, extra_dead=case["dead"])
        SaveParticlesToHDF5(A.species[which], prefix=wd, interval=1, attrs=None if attrs is None else list(attrs))(A)
        f = os.path.join(wd, f"s{which}_particles_000000.h5")
        names = [k for k in (attrs or known) if k in src]
        if root:
            with h5py.File(f) as h:
                ids = h["id"][:]
                require(sorted(ids.tolist()) == list(range(1, n + 1)), lambda: f"ids in the file: {sorted(ids.tolist())[:9]}...")
                o = np.argsort(ids)
                for k in names:
                    require(np.array_equal(h[k][:][o], src[k], equal_nan=True), f"attribute {k} written wrongly")
                want = set(attrs or known) | {"id"}
                require(set(h) == want, lambda: f"datasets {sorted(set(h) ^ want)} missing or unexpected")
    # ---------------------------------------------------------------- load
    B = build(case, comm, cfg["np"])
    rB = kit.rng(case["seed"], 2)
    pre = [population(case, B, rB, case["pre"], i, npps) for i in range(len(case["kinds"]))]
    for i, d in enumerate(pre):
        d["w"] = d["w"] * 0 + 1e9 * (1 + i) + np.arange(case["pre"])
        kit.put_particles(B, i, d, ids=[(100 + i << 40) + j for j in range(case["pre"])], extra_dead=case["dead"])
    cb = LoadParticles(B.species[which], f)
    if case["batch"]:
        cb._batch_size = case["batch"]
    shot, snaps = [], []
    light = [k for k in range(len(case["kinds"])) if case["kinds"][k] in ("electron", "proton", "photon", "spin")]
    plain = len(light) == len(case["kinds"])

    def look(sim):
        shot.append([kit.get_particles(sim, i, comm) for i in range(len(case["kinds"]))])

    def later(sim):
        snaps.append([kit.get_particles(sim, i, comm, attrs=["x", "y", "z", "ux", "uy", "uz", "w", "inv_gamma"])
                      for i in range(len(case["kinds"]))])
    if plain:
        first = callback("init")(lambda sim: look(sim) if sim.itime == 0 else None)
        B.run(case["steps"], callbacks=[cb, first, callback("end")(later)])
        B.run(1, callbacks=[cb, callback("end")(later)])
    else:
        cb(B)
        look(B)
    if not root:
        return {"nontrivial": n > 0}
    shutil.rmtree(wd, ignore_errors=True)
    # ---------------------------------------------------------------- judge the moment after loading
    for i in range(len(case["kinds"])):
        P = shot[0][i]
        old = np.isin(P["id"], np.array([(100 + i << 40) + j for j in range(case["pre"])], dtype=np.uint64))
        Q = kit.sort_by_id({k: v[old] for k, v in P.items()})
        require(len(Q["id"]) == case["pre"], lambda: f"species {i}: {len(Q['id'])} of {case['pre']} particles left after loading")
        for k, v in pre[i].items():
            require(np.array_equal(Q[k], v, equal_nan=True), f"species {i}: {k} of a particle already there changed")
        new = {k: v[~old] for k, v in P.items()}
        m = len(new["id"])
        if i != which:
            require(m == 0, f"species {i} received {m} particles of species {which}")
            continue
        require(m == n, lambda: f"{m} particles in the simulation after loading {n} "
                                f"(weights lost: {sorted(set(src['w']) - set(new['w']))[:3]})", "count")
        require(len(np.unique(P["id"])) == len(P["id"]), "identities are not unique after loading")
        o, q = np.argsort(new["w"]), np.argsort(src["w"])
        new = {k: v[o] for k, v in new.items()}
        for k in src:
            if k in names:
                require(np.array_equal(new[k], src[k][q], equal_nan=True),
                        lambda: f"attribute {k} of loaded particles differs: {new[k][:4]} != {src[k][q][:4]}")
            elif k in ("ux", "uy", "uz"):
                require((new[k] == 0).all(), lambda: f"{k} is not in the file but loaded particles have {k}={new[k][:4]}")
        g = inv_gamma(B, which, new)
        ok = np.isnan(g) | (np.abs(new["inv_gamma"] - g) <= 1e-12 * np.abs(g))
        require(ok.all(), lambda: f"inv_gamma of loaded particles is {new['inv_gamma'][:4]}, should be {g[:4]}")
        own = kit.owner_index(B, [new[a] for a in kit.AX[:cfg["dim"]]])
        near = np.zeros(m, bool)
        for a in range(cfg["dim"]):
            t = (new[kit.AX[a]] / cfg["d"][a] + 0.5) % 1
            near |= (t < 1e-6) | (t > 1 - 1e-6)
        idx = own[0] + cfg["np"][0] * own[1] + (cfg["np"][0] * cfg["np"][1] * own[2] if cfg["dim"] == 3 else 0)
        require((near | (idx == new["pi"])).all(), "a loaded particle is in a patch that does not own its position")
    # ---------------------------------------------------------------- the run that follows
    if plain:
        kit.reset_registry()
        C = build(case, MPI.COMM_SELF if comm is not None else None, cfg["np"])
        full = dict(src)
        for k in ("ux", "uy", "uz"):
            if k not in names:
                full[k] = np.zeros(n)
        for i in range(len(case["kinds"])):
            d = pre[i] if i != which else {k: np.concatenate([pre[i][k], full[k]]) for k in pre[i]}
            kit.put_particles(C, i, d)
        ref = []

        def late(sim):
            ref.append([kit.get_particles(sim, i, None, attrs=["x", "y", "z", "ux", "uy", "uz", "w", "inv_gamma"])
                        for i in range(len(case["kinds"]))])
        still = getattr(C.species[which], "mass", 1) == 0 and not ((full["ux"] ** 2 + full["uy"] ** 2 + full["uz"] ** 2) > 0).all()
        C.run(case["steps"] + 1, callbacks=[callback("end")(late)])
        if not still:
            for t, (s, q) in enumerate(zip(snaps, ref)):
                for i in range(len(case["kinds"])):
                    a, b = np.argsort(s[i]["w"], kind="stable"), np.argsort(q[i]["w"], kind="stable")
                    require(len(a) == len(b), lambda: f"step {t}: {len(a)} particles of species {i}, {len(b)} had they been there from the start")
                    for k in ("x", "y", "ux", "uy", "uz", "inv_gamma"):
                        A_, B_ = s[i][k][a], q[i][k][b]
                        sc = max(1e-300, float(np.max(np.abs(B_), initial=0)))
                        require(np.allclose(A_, B_, rtol=1e-9, atol=1e-9 * sc, equal_nan=True),
                                lambda: f"step {t}: {k} of species {i} differs from a run that starts with the same particles: "
                                        f"{A_[:4]} vs {B_[:4]}")
    return {"nontrivial": n > 0}


WARM = [{"cfg": {"dim": d, "n": [12] * d, "np": [2] * d, "bc": "p" * 2 * d, "ng": 3, "pml": 3, "cfl": 0.9, "d": [1e-7] * d},
         "npA": [2] * d, "kinds": ["electron"], "which": 0, "seed": 1, "n": 3, "edge": 0.0, "pre": 0, "dead": 0,
         "attrs": None, "hand": False, "batch": None, "umax": 1.0, "steps": 1, "map": "metis"} for d in (2, 3)]


def groups(tier):
    return [Group("serial", [Sub("serial", cases(), run, warm=WARM)], shards=4, threads=1),
            Group("mpi2", [Sub("mpi2", cases(2), run, warm=WARM)], ranks=2, shards=1, threads=1)]
