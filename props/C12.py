"""Observing a simulation never changes it: with or without diagnostics, the run is the same run."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from props import C08
from vlib import kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated simulations (2-D/3-D, periodic/absorbing, 1-3 species, some disabled, fused and unfused "
        "pushers, 1-2 ranks) run twice, once bare and once with a generated set of diagnostics (field, density and particle "
        "output with slices, density extraction, get_fields, plots, checkpoints) at generated intervals; states are compared "
        "after every step. Non-trivial = at least one diagnostic fired before the last compared step and the state held "
        "particles or fields.")
BUDGET = {"quick": 22.0}
FIELDS = kit.EB + kit.J4
KIND = ["electron", "proton", "photon", "positron"]
SPECIES = [2, 1, 3, 3]


@st.composite
def axis_slice(draw):
    k = draw(st.sampled_from(["all", "int", "range", "step", "neg", "over"]))
    if k == "all":
        return ["s", None, None, None]
    if k == "over":        # bounds beyond the axis, which numpy clamps
        return ["o", draw(st.one_of(st.none(), st.integers(1, 9))), draw(st.one_of(st.none(), st.integers(0, 9))),
                draw(st.sampled_from([None, 2, 3]))]
    if k == "int":
        return ["i", draw(st.floats(0, 0.999)), draw(st.booleans())]
    a, b = sorted([draw(st.floats(0, 1)), draw(st.floats(0, 1))])
    return ["s", draw(st.sampled_from([a, None])), draw(st.sampled_from([b, None])),
            draw(st.sampled_from([None, 2, 3, 5])) if k != "range" else None, k == "neg"]


def make_slice(spec, n):
    """A slice element with at least one cell, from fractions of the axis."""
    if spec[0] == "i":
        i = int(spec[1] * n)
        return i - n if spec[2] else i
    if spec[0] == "o":
        return slice(None if spec[1] is None else -n - spec[1], None if spec[2] is None else n + spec[2], spec[3])
    a = None if spec[1] is None else int(spec[1] * n)
    b = None if spec[2] is None else int(spec[2] * n)
    if a is not None and a >= n:
        a = n - 1
    if b is not None and b <= (a or 0):
        b = (a or 0) + 1
    if len(spec) > 4 and spec[4]:
        a = None if a is None else a - n
        b = None if b is None or b >= n else b - n
    return slice(a, b, spec[3])


@st.composite
def diag(draw, dim, nspec, kinds=("fields", "density", "density", "extract", "particles", "getfields", "plot", "restart"),
         lean=False):
    k = draw(st.sampled_from(list(kinds)))
    sl = draw(st.one_of(st.none(), st.lists(axis_slice(), min_size=dim, max_size=dim)))
    out = {"kind": k, "interval": draw(st.integers(1, 3)), "slice": sl, "species": draw(st.integers(0, nspec - 1))}
    if lean and k in ("density", "extract") and draw(st.booleans()):
        out["species"] = nspec - 1
        out["interval"] = 1
    if k == "fields" or k == "getfields" or k == "plot":
        out["names"] = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4, unique=True))
        out["z"] = draw(st.one_of(st.none(), st.floats(0, 1)))
    if k in ("fields", "getfields", "plot", "particles"):
        out["stage"] = draw(st.sampled_from(["end", "end", "start", "maxwell_1", "qed_create_particles", "maxwell_2"]))
    if k == "particles":
        out["attrs"] = draw(st.one_of(st.none(), st.lists(st.sampled_from(["x", "y", "ux", "uy", "uz", "w", "inv_gamma", "id"]),
                                                          min_size=1, max_size=5, unique=True)))
    return out


@st.composite
def cases(draw, ranks=1, kinds=None):
    c = draw(C08.cases(ranks))
    c["map"] = draw(st.sampled_from(["cyclic", "blocks", "random"]))
    c["rebal"] = []
    c["steps"] = draw(st.integers(1, 4))
    c["species"] = draw(st.sampled_from(SPECIES).flatmap(lambda n: st.lists(st.sampled_from(KIND), min_size=n, max_size=n)))
    c["off"] = draw(st.lists(st.booleans(), min_size=3, max_size=3)) if draw(st.integers(0, 3)) == 2 else [False] * 3
    if not c["n"] and draw(st.booleans()):
        c["n"] = 20
    kw = {"lean": True} if kinds is None else {"kinds": kinds, "lean": True}
    c["diags"] = draw(st.lists(diag(c["cfg"]["dim"], len(c["species"]), **kw), min_size=draw(st.integers(1, 3)) if kinds is None else 2,
                               max_size=4 if kinds is None else 7))
    return c


def slice_of(case, dg):
    if dg["slice"] is None:
        return None
    return tuple(make_slice(s, n) for s, n in zip(dg["slice"], case["cfg"]["n"]))


def neutral(case, isp):
    return case["species"][isp] == "photon"


def make_diag(sim, case, dg, where, log):
    """(callback, label). `log` collects what in-memory diagnostics return: (label, itime, value)."""
    from lambdapic import ExtractSpeciesDensity, SaveFieldsToHDF5, SaveParticlesToHDF5, SaveSpeciesDensityToHDF5, callback, get_fields
    s = sim.species[dg["species"]]
    k, iv = dg["kind"], dg["interval"]
    def at(cb):
        cb.stage = dg.get("stage", "end")
        return cb
    if k == "fields":
        return at(SaveFieldsToHDF5(prefix=where, interval=iv, components=list(dg["names"]), slice=slice_of(case, dg)))
    if k == "density":
        return SaveSpeciesDensityToHDF5(s, prefix=where, interval=iv, slice=slice_of(case, dg))
    if k == "extract":
        return ExtractSpeciesDensity(sim, s, interval=iv, slice=slice_of(case, dg))
    if k == "particles":
        return at(SaveParticlesToHDF5(s, prefix=where, interval=iv, attrs=None if dg["attrs"] is None else list(dg["attrs"])))
    if k == "plot":
        from lambdapic.callback.plot import PlotFields
        return at(PlotFields([dict(field=n, scale=2.0, cmap=c) for n, c in zip(dg["names"][:2], ("bwr_alpha", None))],
                             prefix=where, interval=iv, figsize=(2, 2), dpi=20))
    if k == "restart":
        from lambdapic.callback.restart import RestartDump
        return RestartDump(where, interval=iv, keep=2)

    def gf(sim_):
        args = {}
        if sim_.dimension == 3 and dg["z"] is not None:
            args["slice_at"] = dg["z"] * sim_.Lz
        log.append((sim_.itime, get_fields(sim_, list(dg["names"]), **args)))
    return callback(dg.get("stage", "end"), interval=iv)(gf)


def raw(sim):
    """Everything the patches hold, bit for bit: guard cells, dead slots and layer memory included."""
    out = {}
    for p in sim.patches:
        t = int(p.index)
        for k in kit.EB + kit.J4:
            out[t, "field " + k] = getattr(p.fields, k).copy()
        for i, b in enumerate(p.pml_boundary):
            for k, v in vars(b).items():
                if isinstance(v, np.ndarray):
                    out[t, f"layer {i} {k}"] = v.copy()
        for i, part in enumerate(p.particles):
            for a in list(part.attrs) + ["is_dead"]:
                out[t, f"species {i} {a}"] = np.asarray(getattr(part, a)).copy()
    return out


def rng_state(sim):
    b = sim.rand_gen.bit_generator
    return str(b.state), b.seed_seq.n_children_spawned


def disable(sim, case):
    for s, off in zip(sim.species, case["off"]):
        if off:
            s.disable()


def drive(sim, case, n, cbs=()):
    from lambdapic import callback
    cbs = list(cbs) + ([callback("_push_momentum")(lambda s: None)] if case["split"] else [])
    with contextlib.redirect_stdout(io.StringIO()):
        sim.run(n, callbacks=cbs)
    kit.quiet()


def run(case, comm):
    from mpi4py import MPI
    rank = comm.Get_rank() if comm else 0
    me = comm if comm else None
    A = C08.build(case, me, case["cfg"]["np"])
    B = C08.build(case, me, case["cfg"]["np"])
    wd = kit.workdir() if rank == 0 else None
    wd = comm.bcast(wd, root=0) if comm else wd
    for s in (A, B):
        disable(s, case)
    cbs, fired, exact = [], 0, True
    for i, dg in enumerate(case["diags"]):
        if dg["kind"] in ("density", "extract") and neutral(case, dg["species"]):
            continue
        cbs.append(make_diag(B, case, dg, os.path.join(wd, str(i)), []))
        fired += 1
        exact &= dg["kind"] not in ("density", "extract")      # those add up the currents in another order
    d = kit.cellsize(A)
    probs = []
    for n in range(case["steps"]):
        drive(A, case, 1)
        drive(B, case, 1, cbs)
        if rng_state(A) != rng_state(B):
            probs.append(f"step {n}: diagnostics {[x['kind'] for x in case['diags']]} consumed the simulation's random stream")
        if (A.itime, A.time) != (B.itime, B.time):
            probs.append(f"step {n}: clock {A.itime, A.time} vs {B.itime, B.time}")
        ra, rb = raw(A), raw(B)
        if ra.keys() != rb.keys():
            probs.append(f"step {n}: other patches, attributes or layers: {sorted(ra.keys() ^ rb.keys())[:4]}")
        for k in ra.keys() & rb.keys():
            if ra[k].shape != rb[k].shape or ((exact or k[1].endswith(("is_dead", "_id"))) and ra[k].tobytes() != rb[k].tobytes()):
                probs.append(f"step {n}: patch {k[0]} {k[1]} is not the same bits")
        sa, sb = C08.snap(A, me), C08.snap(B, me)
        if rank == 0:
            C08.compare(case, n, sa, sb, d, probs)
    if comm:
        probs = sum(comm.allgather(probs), [])
    require(not probs, lambda: "with diagnostics " + str([x["kind"] for x in case["diags"]]) + ": " + "\n".join(probs[:6]),
            key="diagnostics")
    return {"nontrivial": bool(fired and (case["n"] or case["amp"])), "diagnostics": fired}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=2),
            Group("mpi2", [Sub("mpi2", cases(2), run)], ranks=2, shards=1, threads=1)]
