"""The outcome of a run does not depend on how the domain is cut into patches, nor on how patches are
spread over MPI ranks, nor on when and how they are rebalanced."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated geometries (2-D/3-D, periodic and absorbing sides), two different patch decompositions of the "
        "same domain, generated rank maps (and, on MPI, a generated rebalance before each step), fields and species; both "
        "runs are compared after every step. Non-trivial = the decompositions differ or patches migrated, and at least "
        "one particle changed patch or was absorbed, or fields crossed a patch edge.")
BUDGET = {"quick": 22.0}


def divisors(n, lo):
    return [q for q in range(1, n + 1) if n % q == 0 and n // q >= lo]


@st.composite
def cases(draw, ranks=1):
    dim = draw(st.sampled_from([2, 2, 3]))
    bcs = draw(st.sampled_from(["periodic", "axis", "axis"]))
    bc = "p" * 2 * dim if bcs == "periodic" else "".join(draw(st.sampled_from("pm")) * 2 for _ in range(dim))
    th = draw(st.sampled_from([3, 4, 6] if dim == 2 else [3, 4]))
    lo = (th + 2) if "m" in bc else 4
    unit = {2: [12, 16, 18, 20, 24, 30, 36], 3: [8, 10, 12, 16, 18]}[dim]
    n = [draw(st.sampled_from([u for u in unit if u >= 2 * lo])) for _ in range(dim)]

    def decomp():
        out, tot = [], 1
        three = 0
        for a in range(dim):
            pml = bc[2 * a] == "m"
            opts = [q for q in divisors(n[a], lo) if tot * q <= 16]
            if pml and dim == 2:
                opts = [q for q in opts if q >= 2] or [q for q in divisors(n[a], lo) if q >= 2][:1]
            q = draw(st.sampled_from(opts))
            three += (2 if q == 1 else 1) if pml else 0
            out.append(q)
            tot *= q
        if dim == 3 and three > 3:      # at most three absorbing layers per patch
            for a in range(dim):
                if bc[2 * a] == "m":
                    out[a] = max(out[a], next(q for q in divisors(n[a], lo) if q >= 2))
        return out
    npA, npB = decomp(), decomp()
    tot = int(np.prod(npB))
    if tot < ranks:
        a = int(np.argmax([max(divisors(n[k], lo)) for k in range(dim)]))
        npB[a] = max(divisors(n[a], lo))
        if int(np.prod(npB)) < ranks:
            npB = [max(divisors(n[k], lo)) for k in range(dim)]
    steps = draw(st.one_of(st.integers(2, 6), st.just(9)))
    return {"cfg": {"dim": dim, "n": n, "np": npB, "bc": bc, "ng": draw(st.sampled_from([3, 3, 4])), "pml": th,
                    "d": [draw(st.sampled_from([1e-7, 8e-8, 1.4e-7])) for _ in range(dim)],
                    "cfl": draw(st.sampled_from([0.95, 0.6]))},
            "npA": npA, "seed": draw(gen.seeds()), "n": draw(st.integers(0, 60)), "steps": steps,
            "umax": draw(st.sampled_from([0.3, 3.0, 30.0])), "amp": draw(st.sampled_from([0.0, 0.1, 1.0, 5.0])),
            "noise": draw(st.booleans()),
            "species": draw(st.lists(st.sampled_from(["electron", "proton", "photon", "positron"]), min_size=1, max_size=3)),
            "off": draw(st.one_of(st.just([]), st.just([]), st.lists(st.lists(st.booleans(), min_size=3, max_size=3), min_size=1, max_size=3))),
            "split": draw(st.booleans()), "dead": draw(st.sampled_from([0, 2])),
            "map": draw(st.sampled_from(["metis", "cyclic", "blocks", "random"])),
            "rebal": [draw(st.sampled_from(["no", "metis", "cyclic", "random", "random"])) for _ in range(steps)] if ranks > 1 else []}


def species(case):
    from lambdapic import Electron, Photon, Positron, Proton
    cls = {"electron": Electron, "proton": Proton, "positron": Positron, "photon": Photon}
    return [cls[s]() for s in case["species"]]


def build(case, comm, npp):
    kit.reset_registry()
    cfg = dict(case["cfg"], np=npp)
    sim = kit.make_sim(cfg, species(case), comm=comm)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], int(np.prod(npp)), size, case["seed"])):
        kit.init(sim)
    r = kit.rng(case["seed"])
    sh, d = kit.gshape(sim), kit.cellsize(sim)
    E0 = case["amp"] * kit.ME * kit.C_LIGHT * 2 * np.pi * 3e8 / 1e-6 / kit.QE
    for k in kit.EB:
        a = E0 * (1 if k[0] == "e" else 1 / kit.C_LIGHT)
        if case["noise"]:
            F = r.normal(0, 1, sh) * a
        else:
            F = np.zeros(sh)
            c = [r.uniform(0, s) for s in sh]
            g = np.meshgrid(*[np.arange(s) for s in sh], indexing="ij")
            F += a * np.exp(-sum(((x - y) / 3.0) ** 2 for x, y in zip(g, c)))
        kit.set_field(sim, k, F)
    kit.sync_eb(sim)
    lo, hi = kit.alive_region(sim, cfg)
    w0 = 1e27 * np.prod(d) * 1e-2
    for isp, s in enumerate(sim.species):
        m = getattr(s, "mass", 1)
        data = kit.random_particles(r, sim, case["n"], umax=case["umax"] / (50 if m > 10 else 1), w0=w0,
                                    box=list(zip(lo, hi)))
        kit.put_particles(sim, isp, data, ids=np.arange(case["n"]) + (1 << 28), extra_dead=case["dead"])
    return sim


def step(sim, case, n=None):
    from lambdapic import callback
    for i, s in enumerate(sim.species):
        if case.get("off") and n is not None:
            (s.disable if case["off"][n % len(case["off"])][i] else s.enable)()
    sim.run(1, callbacks=[callback("_push_momentum")(lambda s: None)] if case["split"] else [])
    kit.quiet()


def snap(sim, comm):
    f = kit.get_fields(sim, kit.EB + kit.J4, comm)
    P = [kit.get_particles(sim, i, comm) for i in range(len(sim.species))]
    return f, P


def compare(case, n, ref, got, d, probs):
    (fr, Pr), (fg, Pg) = ref, got
    escale = max(max(np.abs(fr[k]).max() for k in ("ex", "ey", "ez")),
                 kit.C_LIGHT * max(np.abs(fr[k]).max() for k in ("bx", "by", "bz")), 1e-30)
    # one macro-particle's density is the natural scale of rounding in the deposited quantities
    wmax = max([float(np.max(P["w"])) if len(P["w"]) else 0.0 for P in Pr] + [1.0])
    jscale = max(wmax * kit.QE / np.prod(d) * kit.C_LIGHT, max(np.abs(fr[k]).max() for k in ("jx", "jy", "jz")))
    for k in kit.EB + kit.J4:
        scale = {"e": escale, "b": escale / kit.C_LIGHT, "j": jscale, "r": jscale / kit.C_LIGHT}[k[0]]
        err = np.abs(fr[k] - fg[k])
        # a current deposited by ultra-relativistic or fast particles is compared on the run's scale
        if not err.max() < 1e-8 * scale:
            probs.append(f"step {n}: {k} differs between decompositions by {err.max() / scale:.2e} at "
                         f"{np.unravel_index(int(err.argmax()), err.shape)}")
    for isp, (A, B) in enumerate(zip(Pr, Pg)):
        A, B = kit.sort_by_id(A), kit.sort_by_id(B)
        if not np.array_equal(A["id"], B["id"]):
            probs.append(f"step {n}: species {isp}: surviving particles differ: {len(A['id'])} vs {len(B['id'])}; "
                         f"only in one: {sorted(set(A['id'].tolist()) ^ set(B['id'].tolist()))[:5]}")
            continue
        if not len(A["id"]):
            continue
        us = max(1e-3, max(np.abs(A[k]).max() for k in ("ux", "uy", "uz")))
        for k in A:
            if k in ("id", "pi"):
                continue
            if k == "z" and len(d) == 2:
                continue
            sc = {"x": d[0], "y": d[1], "z": d[-1]}.get(k, us if k[0] == "u" else None)
            if sc is None:
                sc = max(np.abs(A[k]).max(), 1e-300)
            if k.endswith("_part"):
                sc = escale / (1 if k[0] == "e" else kit.C_LIGHT)
            err = np.abs(A[k] - B[k])
            if k in "xyz"[:len(d)]:
                L = case["cfg"]["n"]["xyz".index(k)] * d["xyz".index(k)]
                err = np.minimum(err, np.abs(err - L))
            if not np.nanmax(err) < 1e-8 * sc or (np.isnan(A[k]) != np.isnan(B[k])).any():
                probs.append(f"step {n}: species {isp}: {k} differs by {np.nanmax(err) / sc:.2e}")


def run_local(case, comm):
    A, B = build(case, None, case["npA"]), build(case, None, case["cfg"]["np"])
    d = kit.cellsize(A)
    probs, moved = [], 0
    P0 = [kit.sort_by_id(kit.get_particles(B, i, None, ["x"])) for i in range(len(B.species))]
    for n in range(case["steps"]):
        step(A, case, n)
        step(B, case, n)
        sa, sb = snap(A, None), snap(B, None)
        compare(case, n, sa, sb, d, probs)
        if probs:
            break
    for a, b in zip(P0, sb[1]):
        b = kit.sort_by_id(b)
        moved += len(a["id"]) != len(b["id"]) or int((a["pi"] != b["pi"]).sum())
    require(not probs, lambda: "\n".join(probs[:6]), key="decomposition")
    return {"nontrivial": bool(case["npA"] != case["cfg"]["np"] and (moved or case["amp"])), "patch_changes": int(moved)}


def run_mpi(case, comm):
    from mpi4py import MPI
    rank, size = comm.Get_rank(), comm.Get_size()
    refs = []
    if rank == 0:
        A = build(case, MPI.COMM_SELF, case["npA"])
        for n in range(case["steps"]):
            step(A, case, n)
            refs.append(snap(A, None))
    comm.Barrier()
    B = build(case, comm, case["cfg"]["np"])
    d = kit.cellsize(B)
    npt = int(np.prod(case["cfg"]["np"]))
    import lambdapic.core.patch.metis as metis
    real = metis.compute_rank
    probs, mig = [], 0
    try:
        for n in range(case["steps"]):
            kind = case["rebal"][n]
            before = comm.allgather(sorted(p.index for p in B.patches))
            lb = B.load_balancer
            if kind == "no":
                lb.threshold = 1e9
            else:
                lb.threshold = -1.0
                amap = kit.rank_assignment(kind, npt, size, case["seed"] + 13 * n)
                if amap is None:
                    metis.compute_rank = real
                else:
                    def fake(patches, nrank, *a, _m=amap, **k):
                        return list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]
                    metis.compute_rank = fake
            step(B, case, n)
            after = comm.allgather(sorted(p.index for p in B.patches))
            mig += sum(len(set(a) - set(b)) for a, b in zip(after, before))
            got = snap(B, comm)
            if rank == 0:
                if sorted(sum(after, [])) != list(range(npt)):
                    probs.append(f"step {n}: patches after rebalancing: {after}")
                compare(case, n, refs[n], got, d, probs)
            if comm.bcast(bool(probs), root=0):
                break
    finally:
        metis.compute_rank = real
    require(not probs, lambda: "\n".join(probs[:6]), key="ranks")
    return {"nontrivial": bool(case["npA"] != case["cfg"]["np"] or mig), "patch_migrations": mig}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run_local)], shards=3),
            Group("mpi2", [Sub("mpi2", cases(2), run_mpi)], ranks=2, shards=1, threads=2),
            Group("mpi3", [Sub("mpi3", cases(3), run_mpi)], ranks=3, shards=1, threads=2)]
