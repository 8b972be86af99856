"""Motion of test particles in arbitrary fields: gather + Boris + position update, fused or split."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit, refpic
from vlib.core import Group, Sub, require

RULE = ("Cases are zero-weight particles (electrons, protons, positrons, photons; momenta 0..1e4 mc, positions anywhere "
        "in the live region including patch and cell boundaries) in generated fields (random, uniform, linear, "
        "magnetic-only, none; strengths up to a0~1e3) on generated geometries; one or two steps, fused and split pusher "
        "from the same state; non-trivial = at least two particles and a non-zero field or motion.")
KINDS = ["electron", "proton", "positron", "photon"]


@st.composite
def cases(draw):
    cfg = draw(gen.grid(bcs=draw(st.sampled_from(["periodic", "axis"])), pml=draw(st.sampled_from([2, 3])), ng=(3, 4),
                        minp=(4, 5), maxp=(9, 7), max_np=(3, 2), max_patches=9))
    return {"cfg": cfg, "seed": draw(gen.seeds()), "n": draw(st.integers(1, 80)),
            "umax": draw(st.sampled_from([0.0, 1e-3, 1.0, 50.0, 1e4])), "a0": draw(st.sampled_from([0.0, 0.1, 5.0, 1e3])),
            "field": draw(st.sampled_from(["random", "uniform", "magnetic", "linear", "none"])),
            "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3)),
            "snap": draw(st.booleans()), "dead": draw(st.sampled_from([0, 2])), "steps": draw(st.integers(1, 2)),
            "disabled": draw(st.sampled_from([None, None, 0, 1]))}


def one(case, split):
    from lambdapic import Electron, Photon, Positron, Proton, callback
    kit.reset_registry()
    cls = dict(zip(KINDS, (Electron, Proton, Positron, Photon)))
    sp = [cls[k]() for k in case["kinds"]]
    cfg = case["cfg"]
    sim = kit.init(kit.make_sim(cfg, sp))
    dim, d, sh = sim.dimension, kit.cellsize(sim), kit.gshape(sim)
    r = kit.rng(case["seed"])
    E0 = case["a0"] * kit.ME * kit.C_LIGHT ** 2 * 2 * np.pi / (20 * max(d)) / kit.QE
    F = {}
    X = np.meshgrid(*[np.linspace(-1, 1, n) for n in sh], indexing="ij")
    for k in kit.EB:
        s = E0 * (1 if k[0] == "e" else 1 / kit.C_LIGHT)
        kind = case["field"]
        if kind == "none" or (kind == "magnetic" and k[0] == "e"):
            F[k] = np.zeros(sh)
        elif kind == "random":
            F[k] = r.normal(0, s, sh)
        elif kind == "linear":
            F[k] = sum(x * r.normal(0, s) for x in X)
        else:
            F[k] = np.full(sh, r.normal(0, s))
        kit.set_field(sim, k, F[k])
    kit.sync_eb(sim)
    lo, hi = kit.alive_region(sim, cfg)
    parts = []
    for i, s in enumerate(sim.species):
        # one cell of margin to absorbing layers: the reference has no layer
        m = [(d[a] * 2.0 if cfg["bc"][2 * a] == "m" else 0.0) for a in range(dim)]
        m = [min(mm, (hi[a] - lo[a]) * 0.45) for a, mm in enumerate(m)]
        data = kit.random_particles(r, sim, case["n"], umax=case["umax"], w0=0.0,
                                    box=[(lo[a] + m[a], hi[a] - m[a]) for a in range(dim)])
        if case["snap"]:
            for a in range(dim):
                x = data[kit.AX[a]]
                t = (np.round(x / d[a] * 2) / 2) * d[a]
                ok = (r.random(len(x)) < 0.6) & (t > lo[a] + m[a]) & (t < hi[a] - m[a])
                data[kit.AX[a]] = np.where(ok, t, x)
        if s.mass == 0:
            z = data["ux"] ** 2 + data["uy"] ** 2 + data["uz"] ** 2 == 0
            data["ux"] = np.where(z, 1.0, data["ux"])
        kit.put_particles(sim, i, data, extra_dead=case["dead"])
        parts.append(data)
    if case["disabled"] is not None and case["disabled"] < len(sp):
        sp[case["disabled"]].disable()
    snaps = []

    @callback("maxwell_1")
    def grab(s):
        snaps.append(kit.get_fields(s, kit.EB))
    cbs = [grab] + ([callback("_interpolator")(lambda s: None)] if split else [])
    states = []
    for _ in range(case["steps"]):
        sim.run(1, callbacks=cbs)
        kit.quiet()
        states.append(([kit.sort_by_id(kit.get_particles(sim, i)) for i in range(len(sp))],
                       kit.get_fields(sim, ("jx", "jy", "jz", "rho"))))
    return sim, parts, snaps, states


def predict(sim, s, st_, F, dt):
    """One step of the reference motion for a species; st_: {'pos','u'}; returns new state + E,B."""
    dim, d = sim.dimension, kit.cellsize(sim)
    if s.mass == 0:
        u2 = np.sqrt(sum(v ** 2 for v in st_["u"]))
        pos = [st_["pos"][a] + kit.C_LIGHT * dt * st_["u"][a] / u2 for a in range(dim)]
        return {"pos": pos, "u": st_["u"]}
    pos = refpic.push_x(st_["pos"], st_["u"], dt / 2, dim)
    E = [refpic.gather(F[n], n, pos, d) for n in ("ex", "ey", "ez")]
    B = [refpic.gather(F[n], n, pos, d) for n in ("bx", "by", "bz")]
    u = refpic.boris(st_["u"], E, B, s.q, s.m, dt)
    return {"pos": refpic.push_x(pos, u, dt / 2, dim), "u": u, "E": E, "B": B}


def run(case, comm):
    probs = []
    results = []
    for split in (False, True):
        tag = "split" if split else "fused"
        sim, parts, snaps, states = one(case, split)
        dim, d, sh, cfg = sim.dimension, kit.cellsize(sim), kit.gshape(sim), case["cfg"]
        results.append(states)
        cur = [{"pos": [p[a] for a in "xyz"[:dim]], "u": [p["ux"], p["uy"], p["uz"]]} for p in parts]
        for n, (P, J) in enumerate(states):
            for i, s in enumerate(sim.species):
                got = P[i]
                name = f"{tag} step {n} {case['kinds'][i]}"
                if len(got["id"]) != case["n"]:
                    probs.append(f"{name}: {len(got['id'])} of {case['n']} particles left")
                    continue
                off = case["disabled"] == i
                new = cur[i] if off else predict(sim, s, cur[i], snaps[n], sim.dt)
                # momentum: relative to the size of the kick and the momentum of that particle
                if s.mass > 0 and not off:
                    kick = abs(s.q) * sim.dt / (s.m * kit.C_LIGHT)
                    fmax = max(np.abs(snaps[n][k]).max() * (1 if k[0] == "e" else kit.C_LIGHT) for k in kit.EB)
                    us = np.sqrt(sum(v ** 2 for v in cur[i]["u"])) + kick * fmax + 1e-12
                else:
                    us = np.sqrt(sum(v ** 2 for v in cur[i]["u"])) + 1e-300
                tolu = 0.0 if (s.mass == 0 or off) else 1e-9
                for a in range(3):
                    e = np.abs(got["u" + "xyz"[a]] - new["u"][a]) / us
                    if not (e <= tolu).all():
                        k = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
                        probs.append(f"{name}: u{'xyz'[a]} = {got['u' + 'xyz'[a]][k]!r}, expected {new['u'][a][k]!r} (rel {e[k]:.1e})")
                for a in range(dim):
                    L = sh[a] * d[a]
                    e = np.abs(got["xyz"[a]] - new["pos"][a])
                    if cfg["bc"][2 * a] == "p":
                        e = np.minimum(e, np.abs(e - L))
                    if not (e <= 1e-9 * d[a]).all():      # a particle handed to the next patch may shift by rounding
                        k = int(np.nanargmax(np.where(np.isnan(e), np.inf, e)))
                        probs.append(f"{name}: {'xyz'[a]} = {got['xyz'[a]][k]!r}, expected {new['pos'][a][k]!r}")
                g = np.sqrt((1 if s.mass > 0 else 0) + sum(got[k] ** 2 for k in ("ux", "uy", "uz")))
                if not np.allclose(got["inv_gamma"] * g, 1, rtol=1e-10, atol=0):
                    probs.append(f"{name}: inv_gamma inconsistent with the momentum")
                # the speed never exceeds c
                u2 = np.sqrt(sum(got[k] ** 2 for k in ("ux", "uy", "uz")))
                if (u2 * got["inv_gamma"] > 1 + 1e-12).any():
                    probs.append(f"{name}: faster than light")
                # magnetic-only: |u| kept
                if case["field"] == "magnetic" and n == 0 and s.mass > 0 and not off:
                    Fm = snaps[n]
                    if max(np.abs(Fm[k]).max() for k in ("ex", "ey", "ez")) == 0:
                        u1 = np.sqrt(sum(v ** 2 for v in cur[i]["u"]))
                        if not np.allclose(u1, u2, rtol=1e-11, atol=1e-15):
                            probs.append(f"{name}: |u| changed in a pure magnetic field")
                cur[i] = {"pos": [got["xyz"[a]] for a in range(dim)], "u": [got["ux"], got["uy"], got["uz"]]}
            for k, v in J.items():
                if np.abs(v).max() != 0:
                    probs.append(f"{tag} step {n}: zero-weight particles deposit {k}")
    require(not probs, lambda: "\n".join(probs[:8]), key="motion")
    moving = case["umax"] > 0 or (case["a0"] > 0 and case["field"] != "none")
    return {"nontrivial": case["n"] > 1 and moving, "particles": case["n"] * len(case["kinds"])}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=5)]
