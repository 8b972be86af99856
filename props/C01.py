"""Particle exchange between patches and ranks: nobody is lost, duplicated, altered or misplaced."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated patch layouts (2-D/3-D, periodic or absorbing axes, 1-4 patches per axis, generated "
        "patch-to-rank maps), particle sets with dead slots, and 1-4 rounds of displacements of up to one cell, "
        "including positions placed exactly on or a few ulps around patch boundaries; non-trivial = at least one "
        "particle changed patch.")


@st.composite
def cases(draw, ranks=1):
    cfg = draw(gen.grid(bcs="axis", pml=draw(st.sampled_from([2, 4, 6])), minp=(4, 3), maxp=(10, 6),
                        max_np=(4, 3), max_patches=18, min_patches=2 * ranks if ranks > 1 else 1))
    if ranks > 1 and gen.npatches(cfg) < ranks:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * ranks
        cfg["np"][0] = ranks
    return {"cfg": cfg, "seed": draw(gen.seeds()), "per": draw(st.integers(1, 30)),
            "dead": draw(st.sampled_from([0, 1, 5, 40])), "rounds": draw(st.integers(1, 4)),
            "adv": draw(st.booleans()), "nspec": draw(st.integers(1, 3)),
            "aux": draw(st.booleans()), "kill": draw(st.sampled_from([0, 0, 0.2, 0.6])), "map": draw(st.sampled_from(["metis", "cyclic", "random", "blocks"]))}


def species(case):
    from lambdapic import Electron, Photon, Positron, Proton
    kit.reset_registry()
    e = Electron(radiation="photons")
    ph = Photon()
    e.set_photon(ph)
    pr = Proton()
    out = [[pr], [pr, Electron()], [e, ph, pr]][case["nspec"] - 1]
    if case["aux"]:
        out[0]._aux_attrs = ["work_x", "tagval"]
    return out


def displace(r, sim, part, adv):
    """Move alive particles by at most one cell per axis; returns nothing (in place)."""
    n = part.npart
    al = ~part.is_dead
    mv = r.random(n) < 0.6
    for a in range(sim.dimension):
        d, nper = kit.cellsize(sim)[a], kit.pshape(sim)[a]
        x = getattr(part, kit.AX[a])
        step = r.uniform(-0.99, 0.99, n) * d
        new = np.where(al & mv, x + step, x)
        if adv:
            snap = al & (r.random(n) < 0.5)
            L = nper * d
            k = np.round((x + d / 2) / L)
            tgt = k * L - d / 2
            ulps = r.integers(-3, 4, n)
            t2 = tgt.copy()
            for _ in range(3):
                t2 = np.where(ulps > 0, np.nextafter(t2, np.inf), np.where(ulps < 0, np.nextafter(t2, -np.inf), t2))
                ulps = ulps - np.sign(ulps)
            ok = snap & (np.abs(t2 - x) <= 0.99 * d)
            new = np.where(ok, t2, new)
        x[:] = new


def run(case, comm):
    cfg = case["cfg"]
    size = comm.Get_size() if comm else 1
    rank = comm.Get_rank() if comm else 0
    sim = kit.make_sim(cfg, species(case))
    m = kit.rank_assignment(case["map"], gen.npatches(cfg), size, case["seed"])
    with kit.forced_ranks(m):
        kit.init(sim)
    dim = sim.dimension
    lo_g, hi_g = kit.alive_region(sim, cfg)
    ntot = case["per"] * gen.npatches(cfg)
    for ispec in range(len(sim.species)):
        r = kit.rng(case["seed"], ispec)
        data = kit.random_particles(r, sim, ntot, box=list(zip(lo_g, hi_g)))
        kit.put_particles(sim, ispec, data, extra_dead=case["dead"])
        for p in sim.patches:
            part = p.particles[ispec]
            rr = kit.rng(case["seed"], ispec, p.index, 5)
            for a in part.attrs:
                if a not in ("x", "y", "z", "_id", "w", "ux", "uy", "uz") or (a == "z" and dim == 2):
                    getattr(part, a)[:] = np.where(part.is_dead, np.nan, rr.normal(0, 1, part.npart))
    crossed = 0
    died = 0
    problems = []
    for rnd in range(case["rounds"]):
        before = []
        for ispec in range(len(sim.species)):
            for p in sim.patches:
                rk = kit.rng(case["seed"], ispec, p.index, 100 + rnd)
                displace(rk, sim, p.particles[ispec], case["adv"])
                # absorbed in an event after the push: dead, still at its new place
                if case.get("kill", 0):
                    p.particles[ispec].is_dead[rk.random(p.particles[ispec].npart) < case["kill"]] = True
            before.append(kit.get_particles(sim, ispec, comm))
        for ispec in range(len(sim.species)):
            sim.mpi.sync_particles(ispec)
        sim.patches.sync_particles()
        for ispec, s in enumerate(sim.species):
            after = kit.get_particles(sim, ispec, comm)
            if rank == 0:
                c, dd = judge(sim, cfg, s.name, before[ispec], after, lo_g, hi_g, rnd, problems)
                crossed += c
                died += dd
    # bookkeeping on every rank
    for p in sim.patches:
        for ispec in range(len(sim.species)):
            part = p.particles[ispec]
            for a in part.attrs:
                if len(getattr(part, a)) != part.npart or len(part.is_dead) != part.npart:
                    problems.append(f"patch {p.index}: attribute {a} has length {len(getattr(part, a))} != npart {part.npart}")
    require(not problems, lambda: "\n".join(problems[:6]), key="exchange")
    return {"nontrivial": crossed > 0, "crossed": int(crossed), "left_domain": int(died)}


def judge(sim, cfg, name, B, A, lo_g, hi_g, rnd, problems):
    dim = sim.dimension
    B, A = kit.sort_by_id(B), kit.sort_by_id(A)
    if len(np.unique(A["id"])) != len(A["id"]):
        u, c = np.unique(A["id"], return_counts=True)
        problems.append(f"round {rnd} {name}: duplicated particles ids {u[c > 1][:5]}")
        return 0, 0
    d = kit.cellsize(sim)
    tol = [1e-9 * s for s in d]
    # where every particle should be
    must_die = np.zeros(len(B["id"]), bool)
    may_die = np.zeros(len(B["id"]), bool)
    wrapped = {}
    for a in range(dim):
        x = B[kit.AX[a]]
        L = kit.gshape(sim)[a] * d[a]
        if cfg["bc"][2 * a] == "m":
            must_die |= (x < lo_g[a] - tol[a]) | (x > hi_g[a] + tol[a])
            may_die |= (x < lo_g[a] + tol[a]) | (x > hi_g[a] - tol[a])
            wrapped[a] = x
        else:
            w = np.where(x > hi_g[a], x - L, np.where(x < lo_g[a], x + L, x))
            wrapped[a] = w
    idx = {i: k for k, i in enumerate(A["id"].tolist())}
    pos = np.array([idx.get(i, -1) for i in B["id"].tolist()], int)
    missing = pos < 0
    bad = missing & ~may_die
    if bad.any():
        k = int(np.argmax(bad))
        problems.append(f"round {rnd} {name}: {int(bad.sum())} particle(s) lost, e.g. id {B['id'][k]} at " +
                        ", ".join(f"{kit.AX[a]}={B[kit.AX[a]][k]!r}" for a in range(dim)) + f" from patch {B['pi'][k]}")
    surv = ~missing & must_die
    if surv.any():
        problems.append(f"round {rnd} {name}: {int(surv.sum())} particle(s) outside an open boundary still alive")
    extra = set(A["id"].tolist()) - set(B["id"].tolist())
    if extra:
        problems.append(f"round {rnd} {name}: {len(extra)} particle(s) appeared from nowhere")
    ok = ~missing
    pa = pos[ok]
    for a in range(dim):
        x0, x1 = wrapped[a][ok], A[kit.AX[a]][pa]
        L = kit.gshape(sim)[a] * d[a]
        diff = np.abs(x1 - x0)
        if cfg["bc"][2 * a] == "p":
            diff = np.minimum(diff, np.abs(diff - L))
        e = diff > 1e-12 * L
        if e.any():
            k = int(np.argmax(e))
            problems.append(f"round {rnd} {name}: {kit.AX[a]} became {x1[k]!r}, expected {x0[k]!r} "
                            f"(was {B[kit.AX[a]][ok][k]!r}, L={L!r})")
        # inside the bounds of the patch that holds it
        n = kit.pshape(sim)[a]
        flat = A["pi"][pa]
        sh = cfg["np"]
        ip = flat % sh[0] if a == 0 else (flat // sh[0]) % sh[1] if a == 1 else flat // (sh[0] * sh[1])
        e = (x1 < ip * n * d[a] - d[a] / 2 - tol[a]) | (x1 > (ip + 1) * n * d[a] - d[a] / 2 + tol[a])
        if e.any():
            k = int(np.argmax(e))
            problems.append(f"round {rnd} {name}: particle at {kit.AX[a]}={x1[k]!r} held by patch {flat[k]} which does not own it")
    for a in B:
        if a in ("id", "pi") or a in kit.AX[:dim]:
            continue
        v0, v1 = B[a][ok], A[a][pa]
        e = ~((v0 == v1) | (np.isnan(v0) & np.isnan(v1)))
        if e.any():
            k = int(np.argmax(e))
            problems.append(f"round {rnd} {name}: attribute {a} changed from {v0[k]!r} to {v1[k]!r}")
    return int((B["pi"][ok] != A["pi"][pa]).sum()), int(missing.sum())


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=3),
            Group("mpi3", [Sub("mpi3", cases(3), run)], ranks=3, shards=1, threads=2),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=2)]
