"""What the diagnostics report is what the simulation holds at that step."""
import glob
import os

import numpy as np
from hypothesis import strategies as st

from props import C08, C12
from vlib import kit, refpic
from vlib.core import Group, Sub, require

RULE = ("Cases are generated simulations as for C12 with generated field/density/particle outputs, density extraction and "
        "get_fields requests (generated components, numpy-style slices, z planes, intervals, ranks); every file and returned "
        "array is compared with the state gathered by the harness at the same stage (densities: an independent spline deposit "
        "of the gathered particles). Non-trivial = at least one non-zero array was compared.")
BUDGET = {"quick": 22.0}
KINDS = ("fields", "density", "density", "extract", "particles", "getfields")


def full(sl, dims):
    """The slice with ints kept as length-1 axes."""
    if sl is None:
        return tuple(slice(None) for _ in dims)
    return tuple(slice(s % n, s % n + 1) if not isinstance(s, slice) else s for s, n in zip(sl, dims))


def run(case, comm):
    import h5py
    from lambdapic import callback
    rank = comm.Get_rank() if comm else 0
    sim = C08.build(case, comm, case["cfg"]["np"])
    wd = comm.bcast(kit.workdir() if rank == 0 else None, root=0) if comm else kit.workdir()
    C12.disable(sim, case)
    dim, dims, d = sim.dimension, kit.gshape(sim), kit.cellsize(sim)
    truth = {}          # (diag, itime) -> what the harness saw
    probs, compared = [], 0
    dgs = [(i, dg) for i, dg in enumerate(case["diags"])
           if not (dg["kind"] in ("density", "extract") and C12.neutral(case, dg["species"]))]
    cbs, logs, dens = [], {}, {}
    for i, dg in dgs:
        logs[i] = []
        cb = C12.make_diag(sim, case, dg, os.path.join(wd, str(i)), logs[i])
        cbs.append(cb)
        dens[i] = cb

    def want(dg):
        return sim.itime % dg["interval"] == 0

    def at(stage, s):
        for i, dg in dgs:
            if dg["kind"] in ("fields", "getfields") and want(dg) and dg["stage"] == stage:
                truth[i, s.itime] = kit.get_fields(s, dg["names"], comm)
            elif dg["kind"] == "particles" and want(dg) and dg["stage"] == stage:
                truth[i, s.itime] = kit.get_particles(s, dg["species"], comm)
            elif stage == "end" and dg["kind"] == "extract" and want(dg) and not case["off"][dg["species"]]:
                logs[i].append((s.itime, dens[i].density.copy()))

    def at_dep(s):
        for i, dg in dgs:
            if dg["kind"] in ("density", "extract") and want(dg) and s.ispec == dg["species"]:
                P = kit.get_particles(s, dg["species"], comm)
                if rank == 0:
                    q = s.species[dg["species"]].q
                    pos = [P[a] for a in "xyz"[:dim]]
                    truth[i, s.itime] = refpic.deposit(tuple(dims), d, pos, [P["ux"], P["uy"], P["uz"]], P["w"], q, s.dt)["rho"] / q
    stages = ["end"] + sorted({dg["stage"] for _, dg in dgs if dg.get("stage", "end") != "end"})
    obs = [callback(k)(lambda s, k=k: at(k, s)) for k in stages] + [callback("current_deposition")(at_dep)]
    C12.drive(sim, case, case["steps"], cbs + obs)
    if rank == 0:
        # largest charge density in play: rounding scale of a density obtained as a difference
        for i, dg in dgs:
            k, sl = dg["kind"], full(C12.slice_of(case, dg), dims)
            name = sim.species[dg["species"]].name
            label = f"diagnostic {i} {k} slice={C12.slice_of(case, dg)}"
            times = sorted(t for j, t in truth if j == i)
            if k in ("fields", "density", "particles"):
                pre = {"fields": "", "density": name + "_", "particles": name + "_particles_"}[k]
                have = sorted(os.path.basename(f) for f in glob.glob(os.path.join(wd, str(i), "*")))
                exp = [f"{pre}{t:06d}.h5" for t in times]
                if have != exp:
                    probs.append(f"{label}: files {have}, expected {exp}")
                    continue
            else:
                if [t for t, _ in logs[i]] != times:
                    probs.append(f"{label}: results at steps {[t for t, _ in logs[i]]}, expected {times}")
                    continue
            for n, t in enumerate(times):
                T = truth[i, t]
                if k == "fields":
                    with h5py.File(os.path.join(wd, str(i), exp[n])) as f:
                        if sorted(f.keys()) != sorted(dg["names"]):
                            probs.append(f"{label}: datasets {sorted(f.keys())}")
                        for c in dg["names"]:
                            check(probs, f"{label} step {t} {c}", f[c][()], T[c][sl], 0)
                            compared += bool(np.any(T[c][sl]))
                        attrs(probs, label, f, sim, t)
                elif k == "getfields":
                    for c, got in zip(dg["names"], logs[i][n][1]):
                        e = T[c]
                        if dim == 3:
                            z = sim.Lz / 2 if dg["z"] is None else dg["z"] * sim.Lz
                            j = z / sim.dz + 0.5
                            if abs(j - round(j)) < 1e-6:      # half way between two planes: either will do
                                cand = [int(round(j)) - 1, int(round(j))]
                            else:
                                cand = [int(np.floor(j))]
                            cand = [min(max(m, 0), dims[2] - 1) for m in cand]
                            e = min((e[:, :, m] for m in cand), key=lambda a: np.abs(a - got).max() if np.shape(got) == a.shape else 0)
                        check(probs, f"{label} step {t} {c} z={dg['z']}", got, e, 0)
                        compared += bool(np.any(e))
                elif k in ("density", "extract"):
                    if k == "density":
                        with h5py.File(os.path.join(wd, str(i), exp[n])) as f:
                            got = f["density"][()]
                            attrs(probs, label, f, sim, t)
                    else:
                        got = logs[i][n][1]
                    check(probs, f"{label} of {name} step {t}", got, T[sl], 1e-9 * scale(case, d))
                    compared += bool(np.any(T[sl]))
                else:
                    with h5py.File(os.path.join(wd, str(i), exp[n])) as f:
                        at = [a for a in (dg["attrs"] or T.keys()) if a not in ("id", "pi")]
                        miss = [a for a in at + ["id"] if a not in f]
                        if miss:
                            probs.append(f"{label}: no dataset {miss}")
                            continue
                        o1, o2 = np.argsort(f["id"][()]), np.argsort(T["id"])
                        check(probs, f"{label} step {t} id", f["id"][()][o1].astype(np.uint64), T["id"][o2], 0)
                        for a in at:
                            check(probs, f"{label} step {t} {a}", f[a][()][o1], T[a][o2], 0)
                        compared += len(o2) > 0
                        if abs(f.attrs["time"] - t * sim.dt) > 1e-9 * sim.dt * (t + 1) or f.attrs["itime"] != t:
                            probs.append(f"{label}: time stamp {f.attrs['time']}, {f.attrs['itime']} at step {t}")
    if comm:
        probs = comm.bcast(probs, root=0)
    require(not probs, lambda: "\n".join(probs[:6]), key="content")
    return {"nontrivial": bool(compared), "arrays_compared": int(compared)}


def scale(case, d):
    """Largest number density the cell of a macro-particle can reach (all particles in one cell)."""
    return 1.5e25 * max(1, case["n"]) * max(1, len(case["species"]))


def check(probs, label, got, exp, tol):
    got = np.asarray(got)
    if got.shape != exp.shape:
        probs.append(f"{label}: shape {got.shape}, expected {exp.shape}")
    elif tol == 0 and not np.array_equal(got, exp, equal_nan=got.dtype.kind == "f"):
        w = tuple(int(v) for v in np.argwhere(~((got == exp) | ((got != got) & (exp != exp))))[0])
        probs.append(f"{label}: value at {w} is {got[w]!r}, the simulation holds {exp[w]!r}")
    elif tol and got.size and not np.abs(got - exp).max() <= tol:
        w = np.unravel_index(int(np.argmax(np.nan_to_num(np.abs(got - exp), nan=np.inf))), got.shape)
        probs.append(f"{label}: value at {tuple(int(v) for v in w)} is {got[w]:.6e}, expected {exp[w]:.6e}")


def attrs(probs, label, f, sim, t):
    e = {"itime": t, "time": t * sim.dt}
    for a, n, h in zip("xyz", kit.gshape(sim), kit.cellsize(sim)):
        e["n" + a], e["d" + a], e["L" + a] = n, h, n * h
    for k, v in e.items():
        if k not in f.attrs or abs(f.attrs[k] - v) > 1e-9 * abs(v) + 1e-30:
            probs.append(f"{label}: attribute {k} = {f.attrs.get(k)}, expected {v}")


def run_bad(case, comm):
    """Slices that select nothing or are not numpy basic slices are refused, never guessed at."""
    from lambdapic.callback.hdf5 import _normalize_slice
    n = case["n"]
    s = {"ellipsis": (Ellipsis,) + (slice(None),) * (len(n) - 1), "none": (None,) + (slice(None),) * (len(n) - 1),
         "short": (slice(None),) * (len(n) - 1), "long": (slice(None),) * (len(n) + 1),
         "out": (n[0] + case["k"],) + (0,) * (len(n) - 1), "under": (-n[0] - 1 - case["k"],) + (0,) * (len(n) - 1),
         "negstep": (slice(None, None, -1 - case["k"]),) + (0,) * (len(n) - 1),
         "zero": (slice(None, None, 0),) + (0,) * (len(n) - 1),
         "empty": (slice(3, 3),) + (0,) * (len(n) - 1), "beyond": (slice(n[0], None),) + (0,) * (len(n) - 1),
         "float": (1.5,) + (0,) * (len(n) - 1)}[case["what"]]
    try:
        got = _normalize_slice(len(n), s, tuple(n))
    except ValueError:
        return {"nontrivial": True}
    require(False, f"slice {s} on a grid {n} was accepted as {got}", key="bad-slice")


bad = st.fixed_dictionaries({"n": st.lists(st.integers(4, 30), min_size=2, max_size=3), "k": st.integers(0, 5),
                             "what": st.sampled_from(["ellipsis", "none", "short", "long", "out", "under", "negstep", "zero",
                                                      "empty", "beyond", "float"])})


def groups(tier):
    return [Group("local", [Sub("local", C12.cases(kinds=KINDS), run), Sub("slices", bad, run_bad, share=0.03, max_examples=150)], shards=2),
            Group("mpi2", [Sub("mpi2", C12.cases(2, kinds=KINDS), run)], ranks=2, shards=1, threads=1)]
