"""Momentum initialisers: exactly the requested momenta, or draws from the requested thermal distribution."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated sequences of SetMomentum / SetTemperature / SetMomentumAndTemperature (add or set, isotropic, "
        "anisotropic, cold, eV to MeV) on one of several species in generated patch grids with dead slots; exact operations "
        "are compared with a model, thermal draws with the Maxwell-Juttner law (Kolmogorov-Smirnov, energy and direction). "
        "Non-trivial = at least one operation acted on at least one particle.")
ASSUMPTIONS = ["Relativistic anisotropic temperatures have no unique definition; the anisotropy is judged below 5 keV per electron mass.",
               "Statistical tests: KS statistic above 0.012 + 3.6/sqrt(n); probability of a false alarm below 1e-10 per test."]
BUDGET = {"quick": 14.0}
MEC2 = 510998.95


@st.composite
def op(draw):
    k = draw(st.sampled_from(["mom", "temp", "temp", "both"]))
    comp = st.one_of(st.just(0.0), st.floats(-3, 3), st.floats(-200, 200))
    o = {"k": k, "add": draw(st.booleans()), "u": [draw(comp) for _ in range(3)]}
    shape = draw(st.sampled_from(["iso", "iso", "iso3", "aniso", "cold1", "cold"]))
    hot = st.floats(-7.5, 1.5).map(lambda v: 10.0 ** v)           # theta = T/(mc^2)
    if shape == "iso" or shape == "iso3":
        t = draw(hot)
        o["t"] = t if shape == "iso" else [t] * 3
    elif shape == "aniso":
        o["t"] = [10.0 ** draw(st.floats(-7, -2.1)) for _ in range(3)]
    elif shape == "cold1":
        o["t"] = [10.0 ** draw(st.floats(-7, -2.1)) for _ in range(3)]
        o["t"][draw(st.integers(0, 2))] = 0.0
        if draw(st.booleans()):
            o["t"][draw(st.integers(0, 2))] = 0.0
    else:
        o["t"] = draw(st.sampled_from([0.0, [0.0] * 3]))
    return o


@st.composite
def cases(draw, ranks=1):
    return {"cfg": draw(gen.grid(max_np=(3, 2), min_patches=ranks)), "seed": draw(gen.seeds()),
            "kinds": draw(st.lists(st.sampled_from(["electron", "proton", "photon", "electron"]), min_size=1, max_size=3)),
            "which": draw(st.integers(0, 2)), "n": draw(st.sampled_from([0, 1, 5, 3000, 20000])), "dead": draw(st.sampled_from([0, 3])),
            "ops": draw(st.lists(op(), min_size=1, max_size=3)), "via": draw(st.sampled_from(["call", "run"])),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"]))}


def mj_cdf(theta):
    """CDF of the kinetic energy (gamma - 1)/theta of the Maxwell-Juttner law."""
    e = np.concatenate([[0], np.logspace(-8, np.log10(60.0), 6000)])
    g = 1 + e * theta
    # gamma sqrt(gamma^2-1) exp(-gamma/theta), with gamma^2-1 = e theta (e theta + 2)
    f = g * np.sqrt(e * theta * (e * theta + 2)) * np.exp(-e)
    F = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(e))])
    return e, F / F[-1]


def ks(sample, cdf):
    s = np.sort(sample)
    n = len(s)
    F = cdf(s)
    return max(np.max(np.arange(1, n + 1) / n - F), np.max(F - np.arange(n) / n))


def thermal(du, T3, what):
    """du: 3 arrays of momentum increments, T3: the three temperatures in units of mc^2."""
    n = len(du[0])
    T3 = np.asarray(T3, float)
    for a in range(3):
        if T3[a] == 0:
            require((du[a] == 0).all(), lambda: f"{what}: a zero temperature gave momentum {du[a][:3]}", "cold")
    ref = T3.max()
    if ref == 0 or n == 0:
        return
    hot = [a for a in range(3) if T3[a] > 0]
    v = [du[a] / np.sqrt(T3[a] / ref) for a in hot]
    require(all(np.isfinite(x).all() for x in v), lambda: f"{what}: momenta are not finite: {v[0][:3]}", "nan")
    if n > 4:
        require(len(np.unique(v[0])) == n, lambda: f"{what}: only {len(np.unique(v[0]))} different momenta for {n} particles", "repeat")
    if n < 1000:
        return
    lim = 0.012 + 3.6 / np.sqrt(n)
    if len(hot) == 3:
        u2 = v[0] ** 2 + v[1] ** 2 + v[2] ** 2
        kin = u2 / (1 + np.sqrt(1 + u2)) / ref
        e, F = mj_cdf(ref)
        D = ks(kin, lambda s: np.interp(s, e, F))
        require(D < lim, lambda: f"{what}: kinetic energies (mean {kin.mean():.4g} T) do not follow Maxwell-Juttner at "
                                 f"T={ref:.3g} mc^2 (KS {D:.4f} > {lim:.4f})", "energy")
        for a in range(3):
            D = ks(v[a] / np.sqrt(u2), lambda s: (s + 1) / 2)
            require(D < lim, lambda: f"{what}: directions are not isotropic along axis {a} (KS {D:.4f} > {lim:.4f})", "direction")
    else:
        from math import erf
        for x in v:
            D = ks(x / np.sqrt(ref), lambda s: np.array([0.5 * (1 + erf(t / 2 ** 0.5)) for t in s]))
            require(D < lim, lambda: f"{what}: a thermal momentum component is not Gaussian of width sqrt(T) (KS {D:.4f})", "energy")
    z = [x / np.std(x) for x in v]
    for i in range(len(v)):
        for j in range(i):
            c = float(np.mean(z[i] * z[j]))
            require(abs(c) < 12 / np.sqrt(n), lambda: f"{what}: momentum components are correlated ({c:.3f})", "correlation")


def judge(case, k, o, T, which, massless, before, after):
    what = f"operation {k} {o['k']}"
    for i in range(len(before)):
        a, b = kit.sort_by_id(after[i]), kit.sort_by_id(before[i])
        for q in b:
            if i != which or q not in ("ux", "uy", "uz", "inv_gamma"):
                require(np.array_equal(a[q], b[q], equal_nan=True), lambda: f"{what} changed {q} of species {i}", "other")
    a, b = kit.sort_by_id(after[which]), kit.sort_by_id(before[which])
    u0 = [b[q] if o["add"] else np.zeros(len(b["id"])) for q in ("ux", "uy", "uz")]
    u1 = [a[q] for q in ("ux", "uy", "uz")]
    if o["k"] != "temp":
        u0 = [x + y for x, y in zip(u0, o["u"])]
    if o["k"] == "mom":
        for x, y in zip(u0, u1):
            require(np.array_equal(x, y), lambda: f"{what} {o['u']} (add={o['add']}) gave {y[:3]}, expected {x[:3]}", "momentum")
    else:
        mag = max(float(np.max(np.abs(x), initial=0)) for x in u0)
        T3 = T if isinstance(T, list) else [T] * 3
        du = [y - x for x, y in zip(u0, u1)]
        if mag == 0 or mag * 1e-16 < 1e-5 * np.sqrt(max(T3)) or max(T3) == 0:
            thermal(du, T3, what + f" (add={o['add']}, T={T})")
    u2 = sum(x ** 2 for x in u1)
    if massless:
        g = np.where(u2 > 0, 1 / np.sqrt(np.where(u2 > 0, u2, 1)), a["inv_gamma"])
    else:
        g = 1 / np.sqrt(1 + u2)
    require((np.abs(a["inv_gamma"] - g) <= 1e-12 * g).all(),
            lambda: f"{what}: inv_gamma {a['inv_gamma'][:3]} does not belong to the momentum ({g[:3]})", "gamma")
    return len(a["id"]) > 0


def run(case, comm):
    from lambdapic import Electron, Photon, Proton
    from lambdapic.callback.utils import SetMomentum, SetMomentumAndTemperature, SetTemperature
    root = comm is None or comm.Get_rank() == 0
    kit.reset_registry()
    cfg = case["cfg"]
    sp = [{"electron": Electron, "proton": Proton, "photon": Photon}[k](name=f"s{i}") for i, k in enumerate(case["kinds"])]
    sim = kit.make_sim(dict(cfg, seed=case["seed"] % 1000), sp, comm=comm)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(cfg), size, case["seed"])):
        kit.init(sim)
    which = case["which"] % len(sp)
    s = sim.species[which]
    massless = case["kinds"][which] == "photon"
    mc2 = MEC2 * s.mass
    for i in range(len(sp)):
        r = kit.rng(case["seed"], i)
        n = case["n"] if i == which else 10
        kit.put_particles(sim, i, kit.random_particles(r, sim, n), ids=np.arange(n) + 1 + (i << 30), extra_dead=case["dead"])

    def look():
        return [kit.get_particles(sim, i, comm) for i in range(len(sp))]

    def slots():
        return [[(part.is_dead.copy(), {a: getattr(part, a)[part.is_dead].copy() for a in part.attrs}) for p in sim.patches
                 for part in [p.particles[i]]] for i in range(len(sp))]
    before, dead0 = look(), slots()
    todo = []
    for k, o in enumerate(case["ops"]):
        if massless and o["k"] != "mom":
            continue                     # a temperature in units of mc^2 means nothing for photons
        T = o["t"] if not isinstance(o["t"], list) else list(o["t"])
        TeV = T * mc2 if not isinstance(T, list) else [t * mc2 for t in T]
        if o["k"] == "mom":
            cb = SetMomentum(s, list(o["u"]), add=o["add"])
        elif o["k"] == "temp":
            cb = SetTemperature(s, TeV, add=o["add"])
        else:
            cb = SetMomentumAndTemperature(s, list(o["u"]), TeV, add=o["add"])
        if case["via"] == "run":
            sim.run(0, callbacks=[cb])
            kit.quiet()
        else:
            cb(sim)
        after = look()
        todo.append((k, o, T, before, after))
        before = after
    for A, B in zip(slots(), dead0):
        for (x, p), (y, q) in zip(A, B):
            require(np.array_equal(x, y), "dead flags changed", "dead")
            require(all(np.array_equal(p[a], q[a], equal_nan=True) for a in q), "data of a dead slot changed", "dead")
    acted = root and [judge(case, k, o, T, which, massless, b, a) for k, o, T, b, a in todo]
    return {"nontrivial": bool(acted) and any(acted)}


def law_cases():
    return st.fixed_dictionaries({"theta": st.one_of(st.floats(-2.3, 0.7), st.floats(-2, -0.3)).map(lambda v: 10.0 ** v),
                                  "kind": st.sampled_from(["electron", "proton"]), "seed": gen.seeds(), "np": st.integers(1, 3),
                                  "via": st.sampled_from(["temp", "both"])})


def run_law(case, comm):
    """Many particles at one temperature: the whole energy law, tail and mean included."""
    from lambdapic import Electron, Proton
    from lambdapic.callback.utils import SetMomentumAndTemperature, SetTemperature
    kit.reset_registry()
    cfg = {"dim": 2, "n": [8 * case["np"], 8], "np": [case["np"], 1], "bc": "pppp", "ng": 3, "pml": 3, "d": [1e-7] * 2, "cfl": 0.9,
           "seed": case["seed"] % 1000}
    s = {"electron": Electron, "proton": Proton}[case["kind"]]()
    sim = kit.make_sim(cfg, [s])
    kit.init(sim)
    n, th = 600000, case["theta"]
    r = kit.rng(case["seed"])
    kit.put_particles(sim, 0, kit.random_particles(r, sim, n), ids=np.arange(n) + 1)
    T = th * MEC2 * s.mass
    (SetTemperature(s, T) if case["via"] == "temp" else SetMomentumAndTemperature(s, [0, 0, 0], T))(sim)
    parts = [p.particles[0] for p in sim.patches]
    u = [np.concatenate([getattr(q, a)[~q.is_dead] for q in parts]) for a in ("ux", "uy", "uz")]
    u2 = sum(x ** 2 for x in u)
    kin = u2 / (1 + np.sqrt(1 + u2)) / th
    e, F = mj_cdf(th)
    D, lim = ks(kin, lambda x: np.interp(x, e, F)), 0.0065 + 3.6 / np.sqrt(n)
    require(D < lim, lambda: f"kinetic energies at T={th:.4g} mc^2 do not follow Maxwell-Juttner (KS {D:.4f} > {lim:.4f})", "energy")
    mean = float(np.sum((1 - F[1:] + 1 - F[:-1]) / 2 * np.diff(e)))
    rel = kin.mean() / mean - 1
    require(abs(rel) < 0.015 + 7 * kin.std() / mean / np.sqrt(n),
            lambda: f"mean kinetic energy at T={th:.4g} mc^2 is off by {100 * rel:.2f} %", "mean")
    for a in range(3):
        D = ks(u[a] / np.sqrt(u2), lambda x: (x + 1) / 2)
        require(D < 0.001 + 3.6 / np.sqrt(n), lambda: f"directions are not isotropic along axis {a} (KS {D:.4f})", "direction")
    return {"nontrivial": True, "particles": n}


def groups(tier):
    return [Group("serial", [Sub("serial", cases(), run)], shards=2, threads=1),
            Group("law", [Sub("law", law_cases(), run_law)], shards=2, threads=1),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=1)]
