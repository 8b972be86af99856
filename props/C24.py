"""Dividing the work: automatic patch numbers are valid, ranks share the load asked for, rebalancing happens when due."""
import numpy as np
from hypothesis import strategies as st

from props import C07, C23
from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated grids (prime, highly divisible, thin), guard widths, layer thicknesses and thread counts per rank for "
        "the automatic decomposition; generated patch graphs, loads and previous owners for the assignment of ranks; generated "
        "runs on 2-3 ranks with load functions, thresholds and uneven starts for the rebalancing. Non-trivial = a decomposition "
        "had to be chosen among several, or the loads were uneven and more than one rank took part.")
BUDGET = {"quick": 12.0}


# ------------------------------------------------------------------ automatic patch numbers
@st.composite
def autos(draw, ranks=1):
    dim = draw(st.sampled_from([2, 2, 3]))
    size = st.one_of(st.integers(4, 260), st.sampled_from([16, 24, 36, 48, 60, 96, 128, 180, 240, 256, 13, 97, 121, 169]))
    return {"dim": dim, "n": [draw(size) for _ in range(dim)], "ng": draw(st.integers(3, 5)), "pml": draw(st.integers(2, 14)),
            "threads": [draw(st.integers(1, 12)) for _ in range(ranks)], "given": draw(st.sampled_from([0, 0, 0, 2]))}


def run_auto(case, comm):
    dim, n = case["dim"], case["n"]
    rank = comm.Get_rank() if comm else 0
    cfg = {"dim": dim, "n": n, "np": [case["given"]] + [0] * (dim - 1), "bc": "m" * (2 * dim), "ng": case["ng"], "pml": case["pml"],
           "d": [1e-7] * dim}
    kit.reset_registry()
    C23.set_threads(case["threads"][rank])
    try:
        sim = kit.make_sim(cfg, [], comm=comm)
        got = [sim.npatch_x, sim.npatch_y] + ([sim.npatch_z] if dim == 3 else [])
    except Exception as e:      # no valid numbers: refused
        got = f"{type(e).__name__}: {e}"[:160]
    finally:
        C23.set_threads(1)
    allg = comm.allgather(got) if comm else [got]
    valid = [[p for p in range(2, m + 1) if m % p == 0 and m // p >= max(case["pml"], 2 * case["ng"])] for m in n]
    total = np.array([1])
    for v in valid:
        total = np.outer(total, v).ravel()
    what = f"grid {n}, {case['ng']} guard cells, layers of {case['pml']}, {case['threads']} threads"
    require(all(g == allg[0] for g in allg), lambda: f"{what}: the ranks decide differently: {allg}", key="auto")
    if not len(total):
        require(isinstance(got, str), lambda: f"{what}: no valid decomposition, but {got} was chosen", key="auto")
        return {"nontrivial": False, "choices": 0}
    require(not isinstance(got, str), lambda: f"{what}: refused with {got}", key="auto")
    require(all(p in v for p, v in zip(got, valid)), lambda: f"{what}: {got} patches chosen, valid numbers are {valid}", key="auto")
    need = 4 * sum(case["threads"])
    require(np.prod(got) >= min(need, total.max()),
            lambda: f"{what}: {got} patches are too few for the threads, {total.max()} were possible", key="auto")
    return {"nontrivial": bool(len(total) > 1), "choices": len(total)}


# ------------------------------------------------------------------ patches to ranks
@st.composite
def graphs(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    npp = [draw(st.integers(1, 9)) for _ in range(dim)] if dim == 2 else [draw(st.integers(1, 5)) for _ in range(3)]
    bc = "".join(draw(st.sampled_from(["pp", "mm"])) for _ in range(dim))
    npt = int(np.prod(npp))
    return {"dim": dim, "np": [p + (b == "m" and p == 1) for p, b in zip(npp, bc[::2])], "bc": bc, "seed": draw(gen.seeds()),
            "loads": draw(st.sampled_from(["equal", "random", "clump", "heavy", "front"])),
            "ranks": draw(st.integers(1, max(1, min(8, npt)))), "prev": draw(st.sampled_from(["none", "permuted", "permuted", "other"]))}


def make_loads(kind, npp, r):
    npt = int(np.prod(npp))
    if kind == "equal":
        return np.full(npt, 50.0)
    if kind == "random":
        return r.integers(1, 1000, npt).astype(float)
    if kind == "heavy":
        w = r.integers(10, 30, npt).astype(float)
        w[r.integers(0, npt)] = 4000
        return w
    g = np.indices(npp[::-1])[::-1].reshape(len(npp), -1)       # patch index runs along x first
    if kind == "front":
        return np.where(g[0] < npp[0] * r.uniform(0.2, 0.8), 32.0, 500.0)
    c = [r.uniform(0, p) for p in npp]
    return 20 + 2000 * np.exp(-sum(((x - y) / 1.5) ** 2 for x, y in zip(g, c)))


def fair(loads, own, nrank):
    """Text describing an unfair distribution, or ''."""
    per = np.bincount(own, weights=loads, minlength=nrank)
    cnt = np.bincount(own, minlength=nrank)
    if (cnt == 0).any():
        return f"ranks {np.flatnonzero(cnt == 0).tolist()} have no patch"
    lim = 1.25 * loads.sum() / nrank + loads.max()
    if per.max() > lim:
        return f"rank loads {np.round(per, 3).tolist()}, average {loads.sum() / nrank:.4g}, heaviest patch {loads.max():.4g}"
    return ""


def run_ranks(case, comm):
    from lambdapic.core.patch.metis import compute_rank
    kit.reset_registry()
    sim = kit.make_sim({"dim": case["dim"], "n": [8 * p for p in case["np"]], "np": case["np"], "bc": case["bc"], "ng": 3, "pml": 3,
                        "d": [1e-7] * case["dim"]}, [])
    patches = sim.create_patches()
    r = kit.rng(case["seed"])
    npt, k = len(patches), case["ranks"]
    loads = make_loads(case["loads"], case["np"], r)
    own, cnt = compute_rank(patches, k, loads)
    own = np.asarray(own)
    what = f"{case['np']} patches, {case['loads']} loads, {k} ranks"
    require(len(own) == npt and own.min() >= 0 and own.max() < k, lambda: f"{what}: owners {own.tolist()}", key="ranks")
    require(list(cnt) == np.bincount(own, minlength=k).tolist(), lambda: f"{what}: counts {list(cnt)} for owners {own.tolist()}", key="ranks")
    bad = fair(loads, own, k)
    require(not bad, lambda: f"{what}: {bad}", key="ranks")
    if case["prev"] != "none":
        perm = r.permutation(k)
        prev = perm[own]
        if case["prev"] == "other":         # few patches changed hands meanwhile
            prev = prev.copy()
            prev[r.integers(0, npt)] = r.integers(0, k)
        new, _ = compute_rank(patches, k, loads, prev)
        new = np.asarray(new)
        bad = fair(loads, new, k)
        require(not bad, lambda: f"{what}, previous owners {prev.tolist()}: {bad}", key="ranks")
        if case["prev"] == "permuted":
            require((new == prev).all(), lambda: f"{what}: {int((new != prev).sum())} patches move although the owners already have "
                    f"this partition: {prev.tolist()} -> {new.tolist()}", key="ranks")
    return {"nontrivial": bool(k > 1 and npt > k), "patches": npt}


# ------------------------------------------------------------------ rebalancing
@st.composite
def runs(draw, ranks=2):
    dim = draw(st.sampled_from([2, 2, 2, 3]))
    npp = [draw(st.integers(1, 5)), draw(st.integers(1, 4))] if dim == 2 else [draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 2))]
    while np.prod(npp) < ranks + 1:
        npp[0] += 1
    steps = draw(st.integers(2, 5))
    return {"cfg": {"dim": dim, "n": [8 * p for p in npp], "np": npp, "bc": "p" * 2 * dim, "ng": 3, "pml": 3, "d": [1e-7] * dim,
                    "cfl": 0.95}, "steps": steps, "seed": draw(gen.seeds()),
            "start": draw(st.sampled_from(["own", "own", "cyclic", "random", "blocks", "permuted", "permuted"])),
            "prof": draw(st.lists(st.sampled_from(["slab", "bump", "uniform", None]), min_size=1, max_size=3)),
            "func": draw(st.sampled_from(["default", "default", "ints", "fractions", "spread", "steps", "zero"])),
            "thr": [draw(st.sampled_from([None, None, 0.1, 0.3, 0.8, 2.0, 0.01, -1.0])) for _ in range(steps)]}


def table(case, npt):
    r = kit.rng(case["seed"])
    sh = (case["steps"] + 1, npt)
    kind = case["func"]
    if kind == "ints":
        return r.integers(1, 500, sh).astype(float)
    if kind == "fractions":
        return r.uniform(0.001, 0.9, sh)
    if kind == "spread":
        return r.lognormal(0, 1.5, sh) * 10.0 ** r.integers(-6, 7)
    if kind == "steps":         # changes rarely
        return np.repeat(r.integers(1, 50, (1, npt)).astype(float), sh[0], axis=0) * (1 + (np.arange(sh[0]) > 1))[:, None] ** r.integers(0, 3, npt)[None]
    return np.zeros(sh)


def run_balance(case, comm):
    from lambdapic import Electron, Proton
    import lambdapic.core.patch.metis as metis
    import lambdapic.simulation.simulation as module
    rank, size = comm.Get_rank(), comm.Get_size()
    kit.reset_registry()
    npt, dim = int(np.prod(case["cfg"]["np"])), case["cfg"]["dim"]
    sp = []
    for i, name in enumerate(case["prof"]):
        kw = {}
        if name:
            kw["density"], kw["ppc"] = C07.jitted(dim, name)
        sp.append((Electron, Proton)[i % 2](name=f"s{i}", **kw))
    sim = kit.make_sim(case["cfg"], sp, comm=comm)
    first = []
    begin = module.compute_rank

    def boot(patches, nrank, weights, *a, **k):
        first.append(np.asarray(weights, float).copy())
        own = begin(patches, nrank, weights, *a, **k)[0]
        if case["start"] == "permuted":         # a balanced start, other names of the ranks
            own = [(int(i) + 1) % nrank for i in own]
        elif case["start"] != "own":
            own = kit.rank_assignment(case["start"], npt, size, case["seed"])
        return list(own), [int(x) for x in np.bincount(own, minlength=nrank)]
    module.compute_rank = boot
    try:
        kit.init(sim)
    finally:
        module.compute_rank = begin
    T = table(case, npt)
    half = int(np.prod(case["cfg"]["n"])) / npt / 2
    if case["func"] != "default":
        def load(p):
            return float(T[min(sim.itime, len(T) - 1), p.index])
        sim.load_balancer.load_function = load

    def owners():
        o = {}
        for part in comm.allgather({int(p.index): (rank, sum(int((~q.is_dead).sum()) for q in p.particles)) for p in sim.patches}):
            for k, v in part.items():
                if k in o:
                    o["twice"] = k
                o[k] = v
        return o
    calls = []
    real = metis.compute_rank

    def spy(patches, nrank, weights, *a, **k):
        calls.append(np.asarray(weights, float).copy())
        return real(patches, nrank, weights, *a, **k)
    hist = []
    metis.compute_rank = spy
    try:
        hist.append((owners(), None, None))
        for n in range(case["steps"]):
            if case["thr"][n] is not None:
                sim.load_balancer.threshold = case["thr"][n]
            thr = sim.load_balancer.threshold
            calls.clear()
            sim.run(1)
            kit.quiet()
            hist.append((owners(), comm.allgather(thr), comm.bcast(list(calls), root=0)))
    finally:
        metis.compute_rank = real
    probs, moved = [], 0
    o = hist[0][0]
    if sorted(k for k in o if k != "twice") != list(range(npt)) or "twice" in o:
        probs.append(f"patches at the start: {o}")
    elif first:
        L = np.array([o[i][1] + half for i in range(npt)])
        if len(first[0]) != npt or np.abs(first[0] - L).max() > 1:
            probs.append(f"at the start: ranks are chosen for loads {first[0][:8].tolist()}, the patches have {L[:8].tolist()}")
    if case["start"] == "own" and not probs:
        bad = fair(np.array([o[i][1] + half for i in range(npt)]), np.array([o[i][0] for i in range(npt)]), size)
        if bad:
            probs.append(f"at the start: {bad}")
    for n, (new, thr, got) in enumerate(hist[1:]):
        if probs:
            break
        if len(set(thr)) > 1:
            probs.append(f"step {n}: the ranks hold different thresholds {thr}")
        if sorted(k for k in new if k != "twice") != list(range(npt)) or "twice" in new:
            probs.append(f"step {n}: patches {sorted(k for k in new if k != 'twice')} on the ranks, {npt} exist")
            break
        L = np.array([o[i][1] + half for i in range(npt)]) if case["func"] == "default" else T[min(n, len(T) - 1)]
        a, b = np.array([o[i][0] for i in range(npt)]), np.array([new[i][0] for i in range(npt)])
        per = np.bincount(a, weights=L, minlength=size)
        imb = (per.max() - per.min()) / per.mean() if per.mean() > 0 else 0.0
        if abs(imb - thr[0]) > 1e-9 * max(imb, 1):
            due = imb > thr[0] and L.sum() > 0
            if due != bool(got):
                probs.append(f"step {n}: imbalance {imb:.6g}, threshold {thr[0]:.6g}, but {'no ' if due else ''}rebalancing")
                break
        if not got:
            if (a != b).any():
                probs.append(f"step {n}: patches moved without rebalancing")
        elif L.sum() > 0:
            moved += int((a != b).sum() > 0)
            w = got[-1]
            if len(got) != 1 or len(w) != npt or w.sum() <= 0 or np.abs(w / w.sum() - L / L.sum()).max() > 0.01 / npt + 1e-6 * npt:
                probs.append(f"step {n}: the partition is asked for with weights {w[:8].tolist()}, the loads are {L[:8].tolist()}")
            if case["func"] == "default" and case["start"] == "permuted" and (a != b).any():
                probs.append(f"step {n}: {int((a != b).sum())} patches are moved although the loads have not changed")
            bad = fair(L, b, size)
            if bad:
                probs.append(f"step {n}: after rebalancing {bad}")
        o = new
    probs = comm.bcast(probs, root=0)
    require(not probs, lambda: f"{case['func']} loads: " + "\n".join(probs[:4]), key="balance")
    return {"nontrivial": bool(moved or any(case["prof"]) or case["func"] in ("ints", "spread", "fractions")), "moved": moved}


def groups(tier):
    w = {"cfg": {"dim": 2, "n": [24, 16], "np": [3, 2], "bc": "pppp", "ng": 3, "pml": 3, "d": [1e-7] * 2, "cfl": 0.95}, "steps": 2,
         "seed": 1, "start": "own", "prof": ["slab"], "func": "default", "thr": [None, 0.01]}
    w3 = dict(w, cfg=dict(w["cfg"], dim=3, n=[24, 8, 8], np=[3, 1, 1], bc="p" * 6, d=[1e-7] * 3))
    return [Group("local", [Sub("auto", autos(), run_auto), Sub("ranks", graphs(), run_ranks)], shards=1, threads=8),
            Group("mpi2", [Sub("balance2", runs(2), run_balance, warm=[w, w3], share=3), Sub("auto2", autos(2), run_auto)], ranks=2, shards=1),
            Group("mpi3", [Sub("balance3", runs(3), run_balance, warm=[w, w3])], ranks=3, shards=1)]
