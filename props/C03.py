"""Whole periodic PIC step against an independent global reference, and its exact invariants:
charge continuity, Gauss' law, div B, total charge/current."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit, refpic
from vlib.core import Group, Sub, require

RULE = ("Cases are generated periodic geometries (2-D/3-D, 1-4 patches per axis, cell aspect ratios, CFL), fields and "
        "1-3 charged species with generated positions/momenta (cold to ultra-relativistic), run for 2-8 steps through "
        "Simulation.run; non-trivial = at least one macro-particle crossed a cell boundary.")


@st.composite
def cases(draw, ranks=1):
    cfg = draw(gen.grid(bcs="periodic", ng=(3, 4), minp=(4, 4), maxp=(9, 6), max_np=(4, 3), max_patches=12,
                        min_patches=2 * ranks if ranks > 1 else 1))
    if ranks > 1 and gen.npatches(cfg) < ranks:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * ranks
        cfg["np"][0] = ranks
    return {"cfg": cfg, "seed": draw(gen.seeds()), "n": draw(st.integers(1, 60)), "steps": draw(st.integers(2, 8)),
            "umax": draw(st.sampled_from([0.0, 0.1, 1.0, 20.0])), "amp": draw(st.sampled_from([0.0, 1.0, 10.0])),
            "species": draw(st.lists(st.sampled_from(["electron", "proton", "positron"]), min_size=1, max_size=3)),
            "split": draw(st.booleans()), "dead": draw(st.sampled_from([0, 3])),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"]))}


def build(case, comm):
    from lambdapic import Electron, Positron, Proton
    kit.reset_registry()
    cls = {"electron": Electron, "proton": Proton, "positron": Positron}
    sp = [cls[s]() for s in case["species"]]
    cfg = case["cfg"]
    sim = kit.make_sim(cfg, sp)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(cfg), size, case["seed"])):
        kit.init(sim)
    return sim


def run(case, comm):
    from lambdapic import callback
    cfg = case["cfg"]
    rank = comm.Get_rank() if comm else 0
    sim = build(case, comm)
    dim, d, sh = sim.dimension, kit.cellsize(sim), kit.gshape(sim)
    r = kit.rng(case["seed"])
    E0 = case["amp"] * kit.ME * kit.C_LIGHT * 2 * np.pi * 3e8 / 1e-6 / kit.QE
    F = {k: r.normal(0, 1, sh) * E0 * (1 if k[0] == "e" else 1 / kit.C_LIGHT) for k in kit.EB}
    for k in kit.EB:
        kit.set_field(sim, k, F[k])
    kit.sync_eb(sim)
    ref_sp = []
    w0 = 1e27 * np.prod(d) * 1e-2
    for isp, s in enumerate(sim.species):
        data = kit.random_particles(r, sim, case["n"], umax=case["umax"] / (1 if s.mass < 10 else 50), w0=w0)
        kit.put_particles(sim, isp, data, extra_dead=case["dead"])
        ref_sp.append(dict(q=s.q, m=s.m, pos=[data[a].copy() for a in "xyz"[:dim]],
                           u=[data[a].copy() for a in ("ux", "uy", "uz")], w=data["w"]))
    ref = refpic.RefPIC(F, d, sim.dt, ref_sp)
    hist = {"rho": [], "J": [], "gauss": [], "divb": [], "rho_now": None}
    probs = []

    # --- observers (none of them changes the simulation)
    @callback("maxwell_1")
    def at_half(s):
        f = kit.get_fields(s, kit.EB + ("rho",), comm)
        if rank == 0:
            hist["gauss"].append((refpic.div_e(f, d), f["rho"] / kit.EPS0, sum(np.abs(f[k]).max() / min(d) for k in ("ex", "ey", "ez"))))
            hist["divb"].append((refpic.div_b(f, d), sum(np.abs(f[k]).max() / min(d) for k in ("bx", "by", "bz"))))

    @callback("qed_create_particles")
    def after_dep(s):
        f = kit.get_fields(s, kit.J4, comm)
        if rank == 0:
            hist["J"].append({k: f[k] for k in ("jx", "jy", "jz")})
            hist["rho"].append(f["rho"])

    cbs = [at_half, after_dep]
    if case["split"]:
        cbs.append(callback("_push_momentum")(lambda s: None))
    crossed = 0
    for n in range(case["steps"]):
        old = [np.stack([np.floor(p / dd + 0.5) for p, dd in zip(s["pos"], d)]) for s in ref.sp]
        sim.run(1, callbacks=cbs)
        kit.quiet()
        f = kit.get_fields(sim, kit.EB + kit.J4, comm)
        parts = [kit.get_particles(sim, i, comm) for i in range(len(sim.species))]
        if rank != 0:
            if comm.bcast(None, root=0):
                break
            continue
        ref.step()
        crossed += sum(int((np.stack([np.floor(p / dd + 0.5) for p, dd in zip(s["pos"], d)]) != o).sum())
                       for s, o in zip(ref.sp, old))
        # --- differential
        escale = max(max(np.abs(ref.F[k]).max() for k in ("ex", "ey", "ez")),
                     kit.C_LIGHT * max(np.abs(ref.F[k]).max() for k in ("bx", "by", "bz")), 1e-30)
        jscale = sum(np.abs(s["w"]).sum() * abs(s["q"]) for s in ref.sp) / np.prod(d) * kit.C_LIGHT / max(1, case["n"])
        for k in kit.EB + kit.J4:
            scale = {"e": escale, "b": escale / kit.C_LIGHT, "j": jscale, "r": jscale / kit.C_LIGHT}[k[0]]
            err = float(np.abs(f[k] - ref.F[k]).max()) / scale
            if not err < 1e-8:
                probs.append(f"step {n}: {k} differs from the reference by {err:.2e} (relative)")
        for s, P, o in zip(ref.sp, parts, sim.species):
            P = kit.sort_by_id(P)
            if len(P["id"]) != case["n"]:
                probs.append(f"step {n}: {o.name}: {len(P['id'])} of {case['n']} particles left")
                continue
            for a in range(dim):
                L = sh[a] * d[a]
                df = np.abs(P["xyz"[a]] - s["pos"][a])
                df = np.minimum(df, np.abs(df - L)).max() / d[a]
                if not df < 1e-8:
                    probs.append(f"step {n}: {o.name} {'xyz'[a]} off by {df:.2e} cells")
            us = max(1e-3, np.abs(np.stack(s["u"])).max())
            for a in range(3):
                df = np.abs(P["u" + "xyz"[a]] - s["u"][a]).max() / us
                if not df < 1e-8:
                    probs.append(f"step {n}: {o.name} u{'xyz'[a]} off by {df:.2e}")
            if not np.array_equal(P["w"], s["w"]):
                probs.append(f"step {n}: {o.name} weights changed")
            g = 1 / np.sqrt(1 + sum(P[k] ** 2 for k in ("ux", "uy", "uz")))
            if not np.allclose(P["inv_gamma"], g, rtol=1e-12, atol=0):
                probs.append(f"step {n}: {o.name} inv_gamma inconsistent with u")
        # --- invariants of the simulation's own history
        scale_rho = jscale / kit.C_LIGHT
        q_tot = sum((s["w"] * s["q"]).sum() for s in ref.sp)
        if abs(f["rho"].sum() * np.prod(d) - q_tot) > 1e-9 * scale_rho * np.prod(d) * max(1, case["n"]):
            probs.append(f"step {n}: deposited charge {f['rho'].sum() * np.prod(d)!r} != particle charge {q_tot!r}")
        if len(hist["rho"]) >= 2:
            J = hist["J"][-1]
            div = sum(refpic.dminus(J["j" + kit.AX[a]], a, d[a]) for a in range(dim))
            res = np.abs((hist["rho"][-1] - hist["rho"][-2]) / sim.dt + div).max() / (scale_rho / sim.dt)
            if not res < 1e-9:
                probs.append(f"step {n}: continuity equation violated, relative residual {res:.2e}")
        # Gauss: at half step the accumulated current and the charge match from the second step on
        if len(hist["gauss"]) >= 3:
            (e1, r1, s1), (e0, r0, s0) = hist["gauss"][-1], hist["gauss"][1]
            res = np.abs((e1 - r1) - (e0 - r0)).max() / max(s1, s0, 1e-30)
            if not res < 1e-9:
                probs.append(f"step {n}: Gauss' law residual drifts by {res:.2e}")
        (b1, s1), (b0, s0) = hist["divb"][-1], hist["divb"][0]
        res = np.abs(b1 - b0).max() / max(s1, s0, 1e-30)
        if not res < 1e-9:
            probs.append(f"step {n}: div B drifts by {res:.2e}")
        if comm:
            comm.bcast(bool(probs), root=0)
        if probs:
            break
    require(not probs, lambda: "\n".join(probs[:8]), key="pic")
    return {"nontrivial": crossed > 0, "cell_crossings": crossed}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=4),
            Group("mpi3", [Sub("mpi3", cases(3), run)], ranks=3, shards=1, threads=2)]
