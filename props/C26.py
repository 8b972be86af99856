"""Setting a simulation up: what was asked for is what stands ready to run, and what cannot be meant is refused."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated set-ups: grids, patches and time-step factors; histories of add_species calls with clashing names, "
        "species with emission, pairs and polarisation, on 1-2 ranks; profiles and particle numbers given as numbers, functions and compiled "
        "functions; species left to automatic registration; and one setting or species outside what is documented. "
        "Non-trivial = at least two species (set-up, registration), particles were loaded (forms), or a setting was refused.")
BUDGET = {"quick": 12.0}
NAMES = ["a", "a", "a", "a.1", "a.1.1", "a.2", "a.3", "a.10", "electron", "electron.1", "e+", "e(", "a.x", ""]
KINDS = ["electron", "positron", "proton", "photon", "species", "electron-qed", "photon-qed", "electron-spin", "electron-spin-qed"]
BASE = ["x", "y", "z", "w", "ux", "uy", "uz", "inv_gamma", "ex_part", "ey_part", "ez_part", "bx_part", "by_part", "bz_part", "_id"]
ME, MP, QE = 9.1093837015e-31, 1.67262192369e-27, 1.602176634e-19


@st.composite
def grid(draw, dim=None, ranks=1):
    dim = dim or draw(st.sampled_from([2, 2, 3]))
    npp = [draw(st.integers(1, 3 if dim == 2 else 2)) for _ in range(dim)]
    if int(np.prod(npp)) < ranks:
        npp[draw(st.integers(0, dim - 1))] *= ranks
    return {"dim": dim, "np": npp, "n": [p * draw(st.integers(6, 9)) for p in npp], "bc": "p" * (2 * dim), "ng": 3, "pml": 3,
            "d": [draw(st.floats(1e-9, 1e-5)) for _ in range(dim)],
            "cfl": draw(st.one_of(st.sampled_from([1.0, 0.95, 0.5]), st.floats(0.01, 1.0))), "seed": draw(st.integers(0, 99))}


@st.composite
def setups(draw, ranks=1, init=True):
    one = st.tuples(st.sampled_from(KINDS), st.one_of(st.none(), st.sampled_from(NAMES))).map(list)
    return {"cfg": draw(grid(ranks=ranks)), "init": init,
            "batches": draw(st.lists(st.lists(one, min_size=0 if init else 1, max_size=4), min_size=1, max_size=4 if init else 6)),
            "charge": draw(st.integers(-3, 7)), "mass": draw(st.floats(0.5, 1e5))}


def make(case, kind, name, dens=None, ppc=0):
    """(species, expected charge, mass in kg, names of extra attributes)"""
    import lambdapic as lp
    kw = {} if name is None else {"name": name}
    if dens is not None:
        kw.update(density=dens, ppc=ppc)
    base = kind.split("-")[0]
    extra = []
    if base == "species":
        s = lp.Species(**{"name": "ion", **kw}, charge=case["charge"], mass=case["mass"])
        return s, case["charge"], case["mass"] * ME, extra
    if "spin" in kind:
        kw["polarization"] = (0.0, 0.0, 1.0)
        extra += ["sx", "sy", "sz"]
    if "qed" in kind and base == "electron":
        kw["radiation"] = "photons"
    s = {"electron": lp.Electron, "positron": lp.Positron, "proton": lp.Proton, "photon": lp.Photon}[base](**kw)
    if "qed" in kind:
        extra += ["chi", "tau"]
    q, m = {"electron": (-1, ME), "positron": (1, ME), "proton": (1, MP), "photon": (0, 0.0)}[base]
    return s, q, m, extra


def link(all_):
    """Every emitter gets a photon species, every QED photon a pair of species; the helpers are appended at the end."""
    import lambdapic as lp
    out = []
    for kind, s in all_:
        if kind.endswith("qed") and kind.startswith("electron"):
            ph = lp.Photon(name="emitted")
            s.set_photon(ph)
            out.append((ph, 0, 0.0, []))
        elif kind == "photon-qed":
            e, p = lp.Electron(name="pair_e"), lp.Positron(name="pair_p")
            s.set_bw_pair(electron=e, positron=p)
            out += [(e, -1, ME, []), (p, 1, ME, [])]
    return out


def run_setup(case, comm):
    kit.reset_registry()
    cfg = case["cfg"]
    probs = []
    sim = kit.make_sim(cfg, [], comm=comm if comm else None)
    want, flat = [], []
    for b in case["batches"]:
        batch = [make(case, *x) for x in b]
        flat += [(x[0], y[0]) for x, y in zip(b, batch)]
        asked = [s[0].name for s in batch]
        taken = [s[0].name for s in want]
        sim.add_species([s[0] for s in batch])
        want += batch
        for (s, *_), a in zip(batch, asked):
            if a not in taken and s.name != a and not any(t == a or t.startswith(a + ".") for t in taken):
                probs.append(f"free name {a!r} became {s.name!r}; taken: {taken}")
            if a in taken and not s.name.startswith(a):
                probs.append(f"name {a!r} became {s.name!r}")
            taken.append(s.name)
    extra = link(flat)
    sim.add_species([x[0] for x in extra])
    want += extra
    names = [s.name for s in sim.species]
    if len(set(names)) != len(names):
        probs.append(f"two species share a name: {names}")
    if any(a is not b[0] for a, b in zip(sim.species, want)) or len(sim.species) != len(want):
        probs.append(f"species are not in the order they were added: {names}")
    if [s.ispec for s in sim.species] != list(range(len(want))):
        probs.append(f"species numbers {[s.ispec for s in sim.species]}")
    if not want:
        return {"nontrivial": False}
    if case["init"]:
        kit.init(sim)
    d, n = cfg["d"], cfg["n"]
    dt = cfg["cfl"] / (299792458.0 * np.sqrt(sum(1 / x ** 2 for x in d)))
    if not abs(sim.dt / dt - 1) < 1e-12:
        probs.append(f"time step {sim.dt}, should be {dt}")
    for a, nn, dd, npp in zip("xyz", n, d, cfg["np"]):
        if not abs(getattr(sim, "L" + a) / (nn * dd) - 1) < 1e-12 or getattr(sim, f"n{a}_per_patch") * npp != nn:
            probs.append(f"axis {a}: length or cells per patch")
    if (sim.itime, sim.time) != (0, 0.0):
        probs.append("the clock is not at zero")
    mine = []
    for p in sim.patches if case["init"] else []:
        mine.append(int(p.index))
        ip = [p.ipatch_x, p.ipatch_y] + ([p.ipatch_z] if cfg["dim"] == 3 else [])
        for a, i, nn, dd, npp in zip("xyz", ip, n, d, cfg["np"]):
            ax = np.asarray(getattr(p, a + "axis")).ravel()[:nn // npp]
            if not np.abs(ax / dd - (i * (nn // npp) + np.arange(nn // npp))).max() < 1e-6:
                probs.append(f"patch {p.index}: {a} axis starts at {ax[0] / dd} cells")
        if len(p.particles) != len(want):
            probs.append(f"patch {p.index} holds {len(p.particles)} species of {len(want)}")
            continue
        for part, (s, q, m, ex) in zip(p.particles, want):
            if sum(k not in part.attrs for k in BASE) or len(set(part.attrs)) != len(part.attrs):
                probs.append(f"{s.name}: attributes {part.attrs}")
            for k in ex:
                if not (hasattr(part, k) and np.shape(getattr(part, k)) == (part.npart,)):
                    probs.append(f"{s.name}: attribute {k} is missing on patch {p.index}")
    for (s, q, m, ex) in want:
        if not (abs(s.q - q * QE) <= 1e-6 * QE and abs(s.m - m) <= 1e-6 * max(m, 1e-40)):
            probs.append(f"{s.name}: charge {s.q}, mass {s.m}")
    owned = sum(comm.allgather(mine), []) if comm else mine
    if case["init"] and sorted(owned) != list(range(int(np.prod(cfg["np"])))):
        probs.append(f"patches {sorted(owned)}")
    if comm:
        probs = sum(comm.allgather(probs), [])
    require(not probs, lambda: f"{case['batches']}: " + "\n".join(probs[:5]), key="setup")
    return {"nontrivial": len(want) > 1, "species": len(want)}


# ------------------------------------------------------------------ forms of a profile
@st.composite
def forms(draw):
    return {"cfg": draw(grid()), "ppc": draw(st.integers(0, 5)), "cut": draw(st.floats(0, 1)), "slope": draw(st.booleans()),
            "min": draw(st.sampled_from([0, 0, 0.5, 1.0])), "forms": draw(st.lists(st.sampled_from(["int", "function", "compiled"]),
                                                                         min_size=2, max_size=2)),
            "dens": draw(st.lists(st.sampled_from(["function", "compiled"]), min_size=2, max_size=2))}


def run_forms(case, comm):
    import lambdapic as lp
    from numba import njit
    cfg = case["cfg"]
    L = cfg["n"][0] * cfg["d"][0]
    cut, k, slope = case["cut"] * L, case["ppc"], 1.0 if case["slope"] else 0.0
    if cfg["dim"] == 2:
        def dens(x, y):
            return 1e24 * (1 + slope * x / L) if x >= cut else 0.0

        def ppc(x, y):
            return k
    else:
        def dens(x, y, z):
            return 1e24 * (1 + slope * x / L) if x >= cut else 0.0

        def ppc(x, y, z):
            return k
    out = []
    for f, g in zip(case["forms"], case["dens"]):
        kit.reset_registry()
        s = lp.Electron(density=dens if g == "function" else njit(dens), density_min=case["min"] * 1e24,
                        ppc={"int": k, "function": ppc}.get(f) if f != "compiled" else njit(ppc))
        sim = kit.init(kit.make_sim(cfg, [s]))
        out.append([{a: np.array(getattr(p.particles[0], a)) for a in ("x", "y", "z", "w", "ux", "_id", "is_dead")} for p in sim.patches])
    tot = 0
    for pa, pb in zip(*out):
        for a in pa:
            tot += pa[a].size
            require(pa[a].shape == pb[a].shape and pa[a].tobytes() == pb[a].tobytes(),
                    lambda: f"ppc {k} given as {case['forms']}, density as {case['dens']}: {a} differs, "
                            f"{pa[a].shape} and {pb[a].shape}", key="forms")
    return {"nontrivial": bool(tot), "values": tot}


# ------------------------------------------------------------------ automatic registration
@st.composite
def autos(draw):
    return {"cfg": draw(grid()), "dims": draw(st.lists(st.sampled_from([0, 2, 3, -2, -3]), min_size=0, max_size=5)),
            "added": draw(st.sampled_from([0, 0, 0, 1, 2])), "via": draw(st.sampled_from(["initialize", "run"]))}


def run_autos(case, comm):
    import lambdapic as lp
    kit.reset_registry()
    fn = {2: lambda x, y: 0.0, 3: lambda x, y, z: 0.0}
    made = [lp.Species(name=f"s{i}", charge=i, mass=1.0 + i, **({} if k == 0 else {"density": fn[k], "ppc": 1} if k > 0 else {"ppc": fn[-k]}))
            for i, k in enumerate(case["dims"])]
    dim = case["cfg"]["dim"]
    fits = [s for s, k in zip(made, case["dims"]) if k in (0, dim, -dim)]
    sim = kit.make_sim(case["cfg"], [])
    added = fits[::-1][:case["added"]]
    if added:
        sim.add_species(added)
    want = added or fits
    if case["via"] == "run":
        sim.run(1)
    else:
        sim.initialize()
    kit.quiet()
    got = [s.name for s in sim.species]
    require(got == [s.name for s in want] and all(a is b for a, b in zip(sim.species, want)),
            lambda: f"{dim}-D, species for {case['dims']} dimensions made, {len(added)} added: the simulation has {got}", key="auto")
    require([s.ispec for s in sim.species] == list(range(len(want))) and all(len(p.particles) == len(want) for p in sim.patches),
            lambda: "automatically registered species are not numbered in order", key="auto")
    kit.reset_registry()
    return {"nontrivial": len(made) > 1, "species": len(got)}


# ------------------------------------------------------------------ refusals
BAD = {"nx": [0, -16], "ny": [0, -8], "dx": [0.0, -1e-7, float("nan")], "dy": [0.0, -1e-7], "npatch_x": [-1, 5], "npatch_y": [-2, 7],
       "dt_cfl": [0.0, -0.5, 1.0000001, 2.0, float("nan")], "n_guard": [0, -3], "cpml_thickness": [0, -6], "nsteps": [0, -1],
       "sim_time": [0.0, -1e-15], "boundary_conditions": ["open", "side"]}
BAD3 = {"nz": [0, -8], "dz": [0.0, -1e-7, float("nan")], "npatch_z": [-1, 3]}
SPECIES = ["not-a-species", "collide-stranger", "photon-without-radiation", "radiation-word", "pusher-word", "arity-density", "arity-ppc",
           "no-profile"]
GOOD = [{}, {"dt_cfl": 1.0}, {"nsteps": 1}, {"sim_time": 1e-18}, {"cpml_thickness": 1}, {"n_guard": 4}, {"random_seed": 0}]


@st.composite
def refusals(draw):
    dim = draw(st.sampled_from([2, 3]))
    what = draw(st.sampled_from(["setting", "setting", "species", "good", "both"]))
    if what == "species":
        return {"dim": dim, "what": what, "key": draw(st.sampled_from(SPECIES)), "value": 0}
    if what == "good":
        return {"dim": dim, "what": what, "key": draw(st.integers(0, len(GOOD) - 1)), "value": 0}
    if what == "both":
        return {"dim": dim, "what": what, "key": "nsteps", "value": draw(st.integers(1, 9))}
    t = dict(BAD, **(BAD3 if dim == 3 else {}))
    k = draw(st.sampled_from(sorted(t)))
    return {"dim": dim, "what": what, "key": k, "value": draw(st.integers(0, len(t[k]) - 1))}


def run_refusal(case, comm):
    import lambdapic as lp
    kit.reset_registry()
    dim = case["dim"]
    sides = [a + e for a in "xyz"[:dim] for e in ("min", "max")]
    kw = dict(nx=16, ny=16, dx=1e-7, dy=1e-7, npatch_x=2, npatch_y=2, boundary_conditions={s: "periodic" for s in sides})
    C = lp.Simulation
    if dim == 3:
        kw.update(nz=8, dz=1e-7, npatch_z=1)
        C = lp.Simulation3D

    def outcome(f):
        try:
            f()
        except Exception as e:  # noqa
            return type(e).__name__
        finally:
            kit.quiet()
        return None

    if case["what"] == "good":
        g = GOOD[case["key"]]
        r = outcome(lambda: C(**dict(kw, **g)))
        require(r is None, lambda: f"{dim}-D {g} is refused: {r}", key="refused")
        return {"nontrivial": False}
    if case["what"] == "both":
        kw.update(nsteps=case["value"], sim_time=1e-15)
        r = outcome(lambda: C(**kw))
        require(r is not None, lambda: "nsteps and sim_time together are accepted", key="accepted")
        return {"nontrivial": True}
    if case["what"] == "setting":
        t = dict(BAD, **BAD3)[case["key"]]
        v = t[case["value"]]
        if v == "open":
            v = dict(kw["boundary_conditions"], ymin="open")
        elif v == "side":
            v = dict(kw["boundary_conditions"], wmin="pml") if dim == 3 else dict(kw["boundary_conditions"], zmin="pml")
        kw[case["key"]] = v
        r = outcome(lambda: C(**kw))
        require(r is not None, lambda: f"{dim}-D {case['key']}={v!r} is accepted", key="accepted")
        return {"nontrivial": True}
    k = case["key"]
    sim = C(**kw)
    kit.quiet()
    f2, f3 = (lambda x, y: 1e20), (lambda x, y, z: 1e20)
    right, wrong = (f2, f3) if dim == 2 else (f3, f2)

    def go():
        if k == "not-a-species":
            sim.add_species([lp.Electron(), "proton"])
        elif k == "collide-stranger":
            e = lp.Electron()
            sim.add_species([e])
            sim.add_collision([[e, lp.Proton()]])
        elif k == "photon-without-radiation":
            lp.Electron().set_photon(lp.Photon())
        elif k == "radiation-word":
            sim.add_species([lp.Electron(radiation="loud")])
            sim.initialize()
        elif k == "pusher-word":
            lp.Species(name="a", charge=1, mass=1, pusher="leap")
        elif k in ("arity-density", "arity-ppc"):
            s = lp.Proton(density=wrong, ppc=1) if k == "arity-density" else lp.Proton(density=right, ppc=wrong)
            sim.add_species([s])
            sim.initialize()
        else:
            sim.add_species([lp.Proton(density=3.0, ppc=1)])
            sim.initialize()
    r = outcome(go)
    kit.reset_registry()
    require(r is not None, lambda: f"{dim}-D {k} is accepted", key="accepted")
    return {"nontrivial": True}


def groups(tier):
    return [Group("local", [Sub("setup", setups(), run_setup, share=1.5), Sub("names", setups(1, False), run_setup, share=0.5),
                            Sub("auto", autos(), run_autos, share=0.8),
                            Sub("refuse", refusals(), run_refusal, share=0.7)], shards=2),
            Group("forms", [Sub("forms", forms(), run_forms)], shards=1),
            Group("mpi2", [Sub("mpi2", setups(2), run_setup)], ranks=2, shards=1, threads=1)]
