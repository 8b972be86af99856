"""Particle container lifecycle: growth, death, pruning and copies keep live particles, identities stay unique."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from props import C08
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated operation sequences (initialize, extend, fill, kill, prune, pickle, deepcopy) on every "
        "particle container class against a dictionary model, and whole simulations (1-3 ranks, particles leaving patches, "
        "photon and pair creation forced) whose live identities must stay pairwise distinct, and twin runs of which one has its "
        "storage pruned and extended between the steps; non-trivial = at least one "
        "growth or prune with live particles, or at least one created/migrated particle.")

BUDGET = {"quick": 20.0}
CLASSES = ["ParticlesBase", "QEDParticles", "SpinParticles", "SpinQEDParticles"]


@st.composite
def container_cases(draw):
    op = st.one_of(
        st.tuples(st.just("extend"), st.integers(-1, 12)),
        st.tuples(st.just("kill"), st.integers(0, 100)),
        st.tuples(st.just("fill"), st.integers(0, 8)),
        st.tuples(st.just("prune"), st.sampled_from([0.0, 0.1, 0.25, 1.0])),
        st.tuples(st.just("pickle"), st.just(0)), st.tuples(st.just("copy"), st.just(0)))
    return {"cls": draw(st.sampled_from(CLASSES)), "n0": draw(st.sampled_from([0, 1, 2, 7, 40])),
            "ipatch": draw(st.sampled_from([0, 1, 77, 2 ** 18 - 1])), "rank": draw(st.sampled_from([0, 1, 5, 2 ** 14 - 1])),
            "aux": draw(st.booleans()), "seed": draw(gen.seeds()),
            "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=14))]}


def run_container(case, comm):
    from lambdapic.core import particles as P
    part = getattr(P, case["cls"])(case["ipatch"], case["rank"])
    if case["aux"]:
        part.attrs.append("extra")
    part.initialize(case["n0"])
    r = kit.rng(case["seed"])
    model = {}       # id -> tuple of attribute values
    seen_ids = set()
    names = [a for a in part.attrs if a != "_id"]
    bad = []
    work = 0

    def note(slots):
        for k in slots:
            i = int(part.id[k])
            if i in model:
                bad.append(f"identity {i:#x} given to two live particles")
            if (i >> 50) != case["rank"] or ((i >> 32) & (2 ** 18 - 1)) != case["ipatch"]:
                bad.append(f"identity {i:#x} does not carry rank {case['rank']} and patch {case['ipatch']}")
            seen_ids.add(i)
            model[i] = tuple(float(getattr(part, a)[k]) for a in names)

    def fill(slots):
        for a in names:
            getattr(part, a)[slots] = r.normal(size=len(slots))
        if len(slots):
            part.is_dead[slots] = False
        note(slots)

    if (np.asarray(part.inv_gamma) != 1).any() or part.is_dead.any():
        bad.append("fresh particles are not alive and at rest")
    fill(np.arange(case["n0"]))

    def check(tag):
        n = part.npart
        for a in part.attrs + ["is_dead"]:
            if len(getattr(part, a)) != n:
                bad.append(f"{tag}: attribute {a} has {len(getattr(part, a))} slots, npart is {n}")
                return
        if hasattr(part, "event") and len(part.event) != n:
            bad.append(f"{tag}: event has {len(part.event)} slots, npart is {n}")
        al = np.flatnonzero(~np.asarray(part.is_dead))
        if not np.array_equal(np.asarray(part.is_alive), ~np.asarray(part.is_dead)):
            bad.append(f"{tag}: is_alive is not the complement of is_dead")
        got = {int(part.id[k]): tuple(float(getattr(part, a)[k]) for a in names) for k in al}
        if len(got) != len(al):
            bad.append(f"{tag}: duplicate identities among live particles")
        if got != model:
            lost = [hex(i) for i in model if i not in got]
            new = [hex(i) for i in got if i not in model]
            ch = [hex(i) for i in got if i in model and got[i] != model[i]]
            bad.append(f"{tag}: live particles differ: lost {lost[:3]}, appeared {new[:3]}, changed {ch[:3]}")

    check("initialize")
    for op, v in case["ops"]:
        if bad:
            break
        if op == "extend":
            n0 = part.npart
            part.extend(v)
            if v > 0:
                if part.npart != n0 + v or not part.is_dead[n0:].all() or not part.extended:
                    bad.append(f"extend({v}): {n0} -> {part.npart} slots, new slots must be dead")
                if np.nansum(np.abs(part.w[n0:])) != 0:
                    bad.append("extend: new slots carry weight")
                work += len(model) > 0
            elif part.npart != n0:
                bad.append(f"extend({v}) changed the container")
        elif op == "kill":
            al = np.flatnonzero(~part.is_dead)
            c = al[r.random(len(al)) < v / 100]
            for k in c:
                model.pop(int(part.id[k]))
            part.is_dead[c] = True
        elif op == "fill":
            dead = np.flatnonzero(part.is_dead)
            # only slots whose identity was never used
            fresh = np.array([k for k in dead if int(part.id[k]) not in seen_ids], dtype=int)[:v]
            fill(fresh)
        elif op == "prune":
            n0, nal = part.npart, len(model)
            part.prune(extra_buff=v)
            if part.npart > n0 or part.npart < nal or part.npart > max(n0 if int(nal * (1 + v)) >= n0 else int(nal * (1 + v)), nal):
                bad.append(f"prune({v}): {n0} slots, {nal} alive -> {part.npart} slots")
            work += nal > 0 and part.npart < n0
        elif op == "pickle":
            part = pickle.loads(pickle.dumps(part))
        elif op == "copy":
            old = part
            part = copy.deepcopy(part)
            for a in part.attrs:
                if np.shares_memory(getattr(part, a), getattr(old, a)) and old.npart:
                    bad.append(f"deepcopy shares {a}")
        check(f"{op}({v})")
    require(not bad, lambda: "\n".join(bad[:6]), key="container")
    return {"nontrivial": work > 0}


# ---------------------------------------------------------------- identities in simulations
@st.composite
def sim_cases(draw, ranks=1):
    cfg = draw(gen.grid(dims=(2, 3) if ranks == 1 else (2,), bcs="periodic", minp=(5, 4), maxp=(8, 5), max_np=(3, 2), max_patches=8,
                        min_patches=2 * ranks if ranks > 1 else 1))
    if ranks > 1 and gen.npatches(cfg) < ranks:
        cfg["n"][0] = cfg["n"][0] // cfg["np"][0] * ranks
        cfg["np"][0] = ranks
    return {"cfg": cfg, "seed": draw(gen.seeds()), "ppc": 2, "umax": draw(st.sampled_from([0.1, 10.0])),
            "steps": draw(st.integers(1, 6)), "qed": draw(st.sampled_from(["none", "photons", "pairs"])),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"]))}


_pool = {}


def pool(dim, ppc):
    """Profile functions are reused so that the loading kernels compile once."""
    if not _pool:
        from numba import njit

        @njit
        def dens2(x, y):
            return 1e20

        @njit
        def dens3(x, y, z):
            return 1e20
        _pool[2], _pool[3] = dens2, dens3
    return _pool[dim]


_ppc = {}


def ppc_fn(dim, k):
    if (dim, k) not in _ppc:
        from numba import njit
        if dim == 2:
            @njit
            def f(x, y):
                return float(k)
        else:
            @njit
            def f(x, y, z):
                return float(k)
        _ppc[dim, k] = f
    return _ppc[dim, k]


def run_sim(case, comm):
    from lambdapic import Electron, Photon, Positron, callback
    kit.reset_registry()
    cfg = case["cfg"]
    size = comm.Get_size() if comm else 1
    q = case["qed"]
    ele = Electron(density=pool(cfg["dim"], 0), ppc=ppc_fn(cfg["dim"], case["ppc"]),
                   radiation="photons" if q != "none" else None)
    pho, pos = Photon(), Positron()
    if q != "none":
        ele.set_photon(pho)
    if q == "pairs":
        pho.set_bw_pair(electron=ele, positron=pos)
    sp = [ele, pho, pos]
    sim = kit.make_sim(cfg, sp)
    with kit.forced_ranks(kit.rank_assignment(case["map"], gen.npatches(cfg), size, case["seed"])):
        kit.init(sim)
    rank = comm.Get_rank() if comm else 0
    r = kit.rng(case["seed"], rank)
    for p in sim.patches:
        part = p.particles[0]
        for a in ("ux", "uy", "uz"):
            getattr(part, a)[:] = r.normal(0, case["umax"], part.npart)
        part.inv_gamma[:] = 1 / np.sqrt(1 + part.ux ** 2 + part.uy ** 2 + part.uz ** 2)
    n0 = len(getattr(sim, "patches")) and sum(int((~p.particles[0].is_dead).sum()) for p in sim.patches)
    counts = []

    @callback("_qed")
    def force(s):
        i = s.ispec
        if i in (0, 1) and hasattr(s.patches[0].particles[i], "event"):
            if (i == 0 and q == "none") or (i == 1 and q != "pairs"):
                return
            for p in s.patches:
                part = p.particles[i]
                al = np.flatnonzero(~part.is_dead)
                c = al[r.random(len(al)) < 0.3]
                part.event[:] = False
                part.event[c] = True
                part.delta[c] = r.uniform(0.1, 0.9, len(c))
    bad = []

    def look(tag):
        for i, s in enumerate(sp):
            P = kit.get_particles(sim, i, comm, attrs=["w"])
            if P is None:
                continue
            ids = P["id"]
            counts.append((i, len(ids)))
            u, c = np.unique(ids, return_counts=True)
            if len(u) != len(ids):
                bad.append(f"{tag}: {s.name}: identity {int(u[c > 1][0]):#x} belongs to {int(c.max())} live particles "
                           f"({len(ids) - len(u)} of {len(ids)} not unique)")
    look("after loading")
    cbs = [force] if q != "none" else []
    for k in range(case["steps"]):
        sim.run(1, callbacks=cbs)
        kit.quiet()
        look(f"step {k}")
        stop = bool(bad) if comm is None else comm.bcast(bool(bad), root=0)
        if stop:
            break
    require(not bad, lambda: "\n".join(bad[:6]), key="identity")
    return {"nontrivial": gen.npatches(cfg) > 1 or q != "none"}


# ------------------------------------------------ structural changes by the user between steps
@st.composite
def twin_cases(draw):
    c = draw(C08.cases())
    c["npA"] = c["cfg"]["np"]
    c["dead"] = draw(st.sampled_from([0, 2, 20]))
    c["ops"] = [draw(st.lists(st.tuples(st.sampled_from(["prune", "prune", "extend", "kill"]), st.integers(0, 2),
                                        st.integers(0, 40)).map(list), max_size=3)) for _ in range(c["steps"])]
    return c


def structural(sim, case, ops, kill_only):
    """prune/extend by the user, announced with update_lists(); kills happen in both runs."""
    for kind, isp, v in ops:
        isp %= len(sim.species)
        for p in sim.patches:
            part = p.particles[isp]
            if kind == "kill":
                part.is_dead[np.isin(part.id % 50, (v, v + 1))] = True
            elif kill_only:
                continue
            elif kind == "prune":
                part.prune(extra_buff=v / 40)
            else:
                part.extend(v)
    if not kill_only and ops:
        sim.patches.update_lists()
        sim.update_lists()


def run_twin(case, comm):
    A, B = (C08.build(case, None, case["npA"]) for _ in range(2))
    d = kit.cellsize(A)
    probs = []
    changed = 0
    for n in range(case["steps"]):
        n0 = sum(part.npart for p in B.patches for part in p.particles)
        structural(A, case, case["ops"][n], True)
        structural(B, case, case["ops"][n], False)
        changed += n0 != sum(part.npart for p in B.patches for part in p.particles)
        C08.step(A, case, n)
        C08.step(B, case, n)
        C08.compare(case, n, C08.snap(A, None), C08.snap(B, None), d, probs)
        if probs:
            break
    require(not probs, lambda: "storage was pruned or extended between the steps: " + "\n".join(probs[:6]), key="twin")
    return {"nontrivial": changed > 0}


def groups(tier):
    return [Group("container", [Sub("container", container_cases(), run_container)], shards=1),
            Group("twin", [Sub("twin", twin_cases(), run_twin)], shards=1),
            Group("sim", [Sub("sim", sim_cases(), run_sim)], shards=2),
            Group("mpi3", [Sub("mpi3", sim_cases(3), run_sim)], ranks=3, shards=1, threads=1)]
