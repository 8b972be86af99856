"""QED events happen as often, and share the energy, as the LCFA rates say."""
import os
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit, lcfa
from vlib.core import Group, Sub, Violation, require

RULE = ("Cases are generated: process, uniform electric and magnetic fields, directions, quantum parameters 0.02-95 (photons "
        "0.3-95), Lorentz factors, time steps and 1-3 steps with 40000 emitters each; the number of events is compared with "
        "the rate integrated independently, the energy shares with the independent spectrum, the quantum parameter itself "
        "with extended-precision arithmetic. Bounds: 7 standard deviations plus the documented table resolution. "
        "Non-trivial = at least 200 events (rates), at least 20 particles (parameter).")
ASSUMPTIONS = ["the rate tables are regenerated from the working tree in every run, so the generator is part of what is judged",
               "statistical bounds are 7 sigma and 1e-10 for the distribution test; the table resolution (256x1024 or 128x128) "
               "is an accepted error, computed by summing the independent spectrum on that grid",
               "photon numbers below the table's smallest energy share count, their distribution among themselves is free"]
BUDGET = {"quick": 25.0}
REGEN_QED = True
N = 40000


@st.composite
def rates(draw, sigmoid=False):
    kind = draw(st.sampled_from(["photon", "photon", "pair"]))
    lo = 0.003 if kind == "photon" else 0.3
    k = draw(st.integers(1, 3))
    chis = [float(np.exp(draw(st.floats(np.log(lo), np.log(95.0))))) for _ in range(k)]
    return {"kind": kind, "chis": chis, "gamma": draw(st.sampled_from([80.0, 500.0, 5000.0])), "seed": draw(gen.seeds()),
            "T": draw(st.sampled_from([0.1, 0.7, 2.0])), "steps": draw(st.integers(1, 3)), "dim": draw(st.sampled_from([2, 2, 3])),
            "erel": draw(st.sampled_from([0.0, 0.0, 0.5, 2.0])), "positron": draw(st.booleans()), "sigmoid": sigmoid}


def build(case):
    """Uniform fields; emitters of the requested chi."""
    from lambdapic import Electron, Photon, Positron
    r = kit.rng(case["seed"], 5)
    ele, pos, pho = Electron(name="ele"), Positron(name="pos"), Photon(name="pho")
    if case["kind"] == "photon":
        cls = Positron if case["positron"] else Electron
        src = cls(name="src", radiation="photons")
        src.set_photon(pho)
        sp = [src, pho]
    else:
        pho.set_bw_pair(electron=ele, positron=pos)
        sp = [pho, ele, pos]
    B = r.normal(0, 1, 3)
    B /= np.linalg.norm(B)
    E = np.cross(B, r.normal(0, 1, 3))
    E += r.normal(0, 1, 3) * 0.3
    E *= case["erel"] / np.linalg.norm(E)
    n = case.get("N", N) // len(case["chis"])
    U, CH, F0 = [], [], []
    chimid = float(np.exp(np.mean(np.log(case["chis"]))))
    amp = chimid * lcfa.ES / case["gamma"]
    for c in case["chis"]:
        v = r.normal(0, 1, (6 * n, 3))
        v /= np.linalg.norm(v, axis=1)[:, None]
        f = np.sqrt(np.maximum((np.cross(v, B) + E) ** 2, 0).sum(1) - (v @ E) ** 2)
        v, f = v[f > 0.4 * f.max()], f[f > 0.4 * f.max()]
        v, f = v[:n], f[:n]
        U.append(v * (c / (f * amp / lcfa.ES))[:, None])
        CH.append(np.full(len(v), c))
    U, CH = np.concatenate(U), np.concatenate(CH)
    W = lcfa.rate(case["kind"], CH) * lcfa.RATE / np.linalg.norm(U, axis=1)
    dt = case["T"] / float(np.median(W))
    dim = case["dim"]
    d = dt * kit.C_LIGHT * np.sqrt(dim) / 0.95
    cfg = {"dim": dim, "n": [8, 8, 4][:dim], "np": [2, 2, 1][:dim], "d": [d] * dim, "ng": 3}
    kit.reset_registry()
    sim = kit.init(kit.make_sim(cfg, sp))
    sh = kit.gshape(sim)
    for k, v in zip(kit.EB, list(E * amp) + list(B * amp / kit.C_LIGHT)):
        kit.set_field(sim, k, np.full(sh, v))
    kit.sync_eb(sim)
    m = len(U)
    data = kit.random_particles(r, sim, m, w0=1.0)
    for i, a in enumerate(("ux", "uy", "uz")):
        data[a] = U[:, i]
    scale = 1e-12 * np.prod(kit.cellsize(sim)) * 1e20
    data["w"] = scale * (1 + np.arange(m) / m)
    kit.put_particles(sim, 0, data, ids=np.arange(m) + (1 << 28))
    return sim, E * amp, B * amp / kit.C_LIGHT, CH


def vec(P):
    return np.array([P["ux"], P["uy"], P["uz"]]).T


def chi_of(u, gam, E, B):
    u, gam = u.astype(np.longdouble), gam.astype(np.longdouble)
    E, cB = E.astype(np.longdouble), B.astype(np.longdouble) * np.longdouble(kit.C_LIGHT)
    F = gam[:, None] * E + np.cross(u, cB)
    q = (F ** 2).sum(1) - (u @ E) ** 2
    return np.sqrt(np.maximum(q, 0)) / np.longdouble(lcfa.ES), F, q


def delta_grid(case):
    if case["sigmoid"]:
        A = np.log(1 / 1.5e-4 - 1)
        return 1 / (1 + np.exp(-A * np.linspace(-1, 1, 128)))
    return np.logspace(-3, 0, 1024)


SIMPLE = {"T": 0.7, "chis": [1.0], "dim": 2, "erel": 0.0, "gamma": 80.0, "positron": False, "seed": 0, "steps": 1}
_other = []


def other_mode_first():
    """The compiled kernels of the other sampling mode are in the cache already, as after any earlier run of the user."""
    if _other:
        return
    _other.append(1)
    env = dict(os.environ)
    env.pop("LAMBDAPIC_USE_SIGMOID_SAMPLING", None)
    code = ("from props import C19\nfor k in ('photon', 'pair'):\n"
            "    try: C19.run_rates(dict(C19.SIMPLE, kind=k, sigmoid=False))\n"
            "    except C19.Violation: pass\n")
    subprocess.run([sys.executable, "-c", code], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)


def run_rates(case, comm=None):
    if case["sigmoid"]:
        other_mode_first()
    from lambdapic import callback
    sim, E, B, nominal = build(case)
    kind = case["kind"]
    at = ["ux", "uy", "uz", "w", "inv_gamma"]
    S = {}

    def take(key, i):
        def f(s):
            if key == "b" or s.ispec == 0:
                S[key] = kit.sort_by_id(kit.get_particles(sim, i, attrs=at))
        return f
    events, exp_n, var = 0, 0.0, 0.0
    lo_n, hi_n = 0.0, 0.0
    first = None
    dlog = 5 * np.log(10) / (127 if case["sigmoid"] else 255)
    for n in range(case["steps"]):
        before = kit.sort_by_id(kit.get_particles(sim, 0, attrs=at))
        pre1 = kit.get_particles(sim, 1, attrs=["w"]) if kind == "pair" else None
        sim.run(1, callbacks=[callback("current_deposition")(take("a", 0)), callback("qed_create_particles")(take("b", 0))])
        kit.quiet()
        u = vec(before)
        mass = 1.0 if kind == "photon" else 0.0
        gam = np.sqrt(mass + (u ** 2).sum(1))
        chi = chi_of(u, gam, E, B)[0].astype(float)
        a, b = S["a"], S["b"]
        if kind == "photon":
            fired = (vec(a) != vec(b)).any(axis=1)
            delta = 1 - np.linalg.norm(vec(b), axis=1) / np.linalg.norm(vec(a), axis=1)
        else:
            fired = ~np.isin(a["id"], b["id"])
            el = kit.get_particles(sim, 1, attrs=at)
            new = ~np.isin(el["w"], pre1["w"])
            share = dict(zip(el["w"][new].tolist(), np.linalg.norm(vec(el)[new], axis=1).tolist()))
            mod = np.linalg.norm(vec(a), axis=1)
            delta = np.array([share.get(w, np.nan) / m if f else 0.0 for w, m, f in zip(a["w"].tolist(), mod.tolist(), fired.tolist())])
            require(np.isfinite(delta).all(), f"step {n}: a photon vanished without leaving an electron of its weight", key="pairless")
        use = (chi > (2e-3 if kind == "photon" else 0.25)) & (chi < 99)
        c = chi[use]
        x = lcfa.rate(kind, c) * lcfa.RATE * sim.dt / gam[use]
        # linear interpolation of the rate between neighbouring entries of the table
        tol = 2e-3 + (1.0 if kind == "photon" else (8 / (3 * c) + 1) ** 2) * dlog ** 2 / 8 * 1.2
        p = 1 - np.exp(-x)
        exp_n += p.sum()
        lo_n += (1 - np.exp(-x * (1 - tol))).sum()
        hi_n += (1 - np.exp(-x * (1 + tol))).sum()
        var += (p * (1 - p)).sum()
        events += int(fired[use].sum())
        if n == 0:
            first = (fired, delta, chi)
    sd = 7 * np.sqrt(var) + 10
    require(lo_n - sd <= events <= hi_n + sd,
            f"{kind}: {events} events, the rate gives {exp_n:.1f} (accepted {lo_n - sd:.1f}..{hi_n + sd:.1f}) at chi={case['chis']}, "
            f"dt={sim.dt}", key="rate")
    # energy shares, in the first step
    fired, delta, chi = first
    grid = delta_grid(case)
    shares = 0
    for c in sorted(set(case["chis"])):
        m = fired & (nominal == c)
        M = int(m.sum())
        if M < 200:
            continue
        cc = float(chi[nominal == c].mean())
        dd, cum, tot, mean = lcfa.cdf(kind, cc)
        x = np.sort(delta[m])
        require((x > 0).all() and (x <= 1 + 1e-12).all(), f"{kind}: energy shares outside (0,1]: {x[0]}..{x[-1]} at chi={cc}", key="share")
        rF, rM = lcfa.riemann(kind, cc, grid)
        F = np.interp(x, dd, cum) / tot
        i = np.arange(M)
        hard = x >= grid[0]
        D = max(np.max(np.abs((i + 1) / M - F)[hard], initial=0), np.max(np.abs(i / M - F)[hard], initial=0),
                abs((~hard).mean() - np.interp(grid[0], dd, cum) / tot))
        bound = np.sqrt(11.9 / M) + 1.5 * rF + 3e-3
        require(D <= bound, f"{kind}: distribution of the energy share off by {D:.4f} (accepted {bound:.4f}) over {M} events at chi={cc:.4g}; "
                f"share of events below {grid[0]:.3g}: {(~hard).mean():.4f}, expected {np.interp(grid[0], dd, cum) / tot:.4f}", key="spectrum")
        soft = np.interp(grid[0], dd, cum) / tot * grid[0] / 2
        em = abs(x.mean() - mean)
        bm = 7 * x.std() / np.sqrt(M) + 1.5 * rM + soft + 0.005 * mean
        require(em <= bm, f"{kind}: mean energy share {x.mean():.6g}, expected {mean:.6g} +- {bm:.2g} over {M} events at chi={cc:.4g} "
                "(the radiated power is wrong by the same factor)", key="power")
        shares += M
    return {"nontrivial": events >= 200, "events": events, "shares": shares}


@st.composite
def params(draw, sigmoid=False):
    return {"seed": draw(gen.seeds()), "kind": draw(st.sampled_from(["photon", "pair"])),
            "field": draw(st.sampled_from(["wave", "wave", "random", "E", "B", "zero"])),
            "dir": draw(st.sampled_from(["along", "along", "against", "random", "rest"])),
            "logg": draw(st.floats(-3, 6)), "logchi": draw(st.floats(-6, 4)), "n": draw(st.sampled_from([20, 200])),
            "steps": draw(st.integers(1, 2)), "sigmoid": sigmoid}


def run_params(case, comm=None):
    """The quantum parameter is right and finite for all particles, and events stay physical beyond the table."""
    from lambdapic import Electron, Photon, Positron, callback
    r = kit.rng(case["seed"], 6)
    ele, pos, pho = Electron(name="ele"), Positron(name="pos"), Photon(name="pho")
    if case["kind"] == "photon":
        src = Electron(name="src", radiation="photons")
        src.set_photon(pho)
        sp = [src, pho]
    else:
        pho.set_bw_pair(electron=ele, positron=pos)
        sp = [pho, ele, pos]
    kit.reset_registry()
    umod, chi0 = 10 ** case["logg"], 10 ** case["logchi"]
    amp = chi0 * lcfa.ES / max(umod, 1.0)
    W = lcfa.RATE * min(1.44 * chi0, 1.46 * chi0 ** (2 / 3)) / max(umod, 1.0)
    d = 0.5 / W * kit.C_LIGHT
    d = min(max(d, 1e-12), 1e-3)
    sim = kit.init(kit.make_sim({"dim": 2, "n": [8, 8], "np": [2, 2], "d": [d, d], "ng": 3}, sp))
    q = np.linalg.qr(r.normal(0, 1, (3, 3)))[0]
    E, B, k = q
    B = np.cross(k, E)
    if case["field"] == "random":
        E, B = r.normal(0, 1, 3), r.normal(0, 1, 3)
    elif case["field"] == "E":
        B = B * 0
    elif case["field"] == "B":
        E = E * 0
    elif case["field"] == "zero":
        E, B = E * 0, B * 0
    E, B = E * amp, B * amp / kit.C_LIGHT
    sh = kit.gshape(sim)
    for nm, v in zip(kit.EB, list(E) + list(B)):
        kit.set_field(sim, nm, np.full(sh, v))
    kit.sync_eb(sim)
    n = case["n"]
    if case["dir"] == "along":
        v = np.tile(k, (n, 1))
    elif case["dir"] == "against":
        v = np.tile(-k, (n, 1))
    else:
        v = r.normal(0, 1, (n, 3))
        v /= np.linalg.norm(v, axis=1)[:, None]
    mod = umod * r.uniform(0.5, 1.5, n)
    if case["dir"] == "rest" and case["kind"] == "photon":
        mod *= 0
    data = kit.random_particles(r, sim, n, w0=1.0)
    for i, a in enumerate(("ux", "uy", "uz")):
        data[a] = v[:, i] * mod
    data["w"] = 1e-30 * (1 + np.arange(n) / n)
    kit.put_particles(sim, 0, data, ids=np.arange(n) + (1 << 28))
    S = {}

    def atq(s):
        if s.ispec == 0:
            S["q"] = kit.get_particles(sim, 0, attrs=["ux", "uy", "uz", "inv_gamma", "chi", "ex_part", "ey_part", "ez_part",
                                                      "bx_part", "by_part", "bz_part"])

    def ata(s):
        if s.ispec == 0:
            S["a"] = kit.sort_by_id(kit.get_particles(sim, 0, attrs=["ux", "uy", "uz"]))

    def atb(s):
        S["b"] = kit.sort_by_id(kit.get_particles(sim, 0, attrs=["ux", "uy", "uz"]))
    worst, ev = 0.0, 0
    for st_ in range(case["steps"]):
        sim.run(1, callbacks=[callback("_qed")(atq), callback("current_deposition")(ata), callback("qed_create_particles")(atb)])
        kit.quiet()
        Q = S["q"]
        u = vec(Q)
        Ep = np.array([Q["ex_part"], Q["ey_part"], Q["ez_part"]]).T
        Bp = np.array([Q["bx_part"], Q["by_part"], Q["bz_part"]]).T
        gam = np.sqrt((1.0 if case["kind"] == "photon" else 0.0) + (u.astype(np.longdouble) ** 2).sum(1))
        L = np.longdouble
        F = gam[:, None] * Ep.astype(L) + np.cross(u.astype(L), Bp.astype(L) * L(kit.C_LIGHT))
        rad = (F ** 2).sum(1) - ((u.astype(L) * Ep).sum(1)) ** 2
        ref = np.sqrt(np.maximum(rad, 0)) / L(lcfa.ES)
        big = gam * (np.linalg.norm(Ep, axis=1) + kit.C_LIGHT * np.linalg.norm(Bp, axis=1)) / lcfa.ES
        err = np.abs(Q["chi"] - ref)
        # the difference of squares is known to a few units of rounding of the largest of them
        ok = (np.abs(Q["chi"].astype(L) ** 2 - ref ** 2) <= 3e-14 * big ** 2 + 1e-6 * ref ** 2)
        require(bool(np.all(ok)), lambda: f"chi={Q['chi'][~ok][0]!r} for u={u[~ok][0]}, E={Ep[~ok][0]}, B={Bp[~ok][0]}; expected {float(ref[~ok][0])!r}",
                key="chi")
        worst = max(worst, float(np.max(err / np.maximum(big, 1e-300))))
        if case["kind"] == "photon":
            a, b = vec(S["a"]), vec(S["b"])
            na, nb = np.linalg.norm(a, axis=1), np.linalg.norm(b, axis=1)
            require(np.isfinite(b).all(), "momenta are not finite after events", key="finite")
            ch = (a != b).any(axis=1)
            bad = ch & ~((nb <= na) & ((a * b).sum(1) >= -1e-12 * na ** 2))
            require(not bad.any(), lambda: f"emission turned momentum {a[bad][0]} into {b[bad][0]} (chi={float(ref.max()):.4g})", key="share")
            ev += int(ch.sum())
            x = np.minimum(lcfa.rate("photon", np.clip(ref.astype(float), 1e-3, 99)), 1e9) * lcfa.RATE * sim.dt / gam.astype(float)
            sure = (x > 30) & (ref > 2e-3)
            o = np.argsort(Q["id"])
            require(bool(ch[sure[o]].all()), lambda: f"{int((~ch[sure[o]]).sum())} of {int(sure.sum())} emitters with optical depth >30 per step "
                    f"(chi up to {float(ref.max()):.4g}) did not emit", key="silent")
        else:
            for i in (1, 2):
                P = kit.get_particles(sim, i, attrs=["ux", "uy", "uz", "inv_gamma"])
                if len(P["id"]):
                    nv = np.linalg.norm(vec(P), axis=1)
                    lim = 1.5 * umod * (1 + 1e-9)
                    # the pair is pushed in later steps: only bound it in the first
                    require(np.isfinite(nv).all() and (st_ > 0 or bool((nv <= lim).all())),
                            lambda: f"pair member momentum {nv.max()} from photons of at most {lim}", key="share")
                    ev += len(P["id"])
    return {"nontrivial": n >= 20 and case["field"] != "zero", "events": ev, "worst": worst}


def groups(tier):
    def subs(sg):
        warm = [dict(SIMPLE, kind=k, sigmoid=sg) for k in ("photon", "pair")]
        few = rates(sg).map(lambda c: dict(c, chis=c["chis"][:1], steps=1, T=0.7, N=800000))
        return [Sub("rates", rates(sg), run_rates, share=2.0, warm=warm),
                Sub("precise", few, run_rates, share=1.2, min_examples=4), Sub("params", params(sg), run_params, share=1.0)]
    return [Group("default", subs(False), shards=3),
            Group("sigmoid", subs(True), shards=2, env={"LAMBDAPIC_USE_SIGMOID_SAMPLING": "1", "VERIF_OWN_CACHE": "1"})]
