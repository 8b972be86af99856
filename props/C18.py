"""QED events are an exact exchange: what an emitter loses is what the new particle carries, one for one."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated sets of species in generated order (electrons and positrons that radiate or not, photons that "
        "decay or not, several photon species, spectators), strong uniform fields, momenta and time steps such that a "
        "particle fires with probability 0.05-1 per step, on generated decompositions; the state right before and right "
        "after event handling is matched particle by particle (by ID, weight and place) in every step. Non-trivial = at "
        "least one photon or pair was created.")
BUDGET = {"quick": 22.0}
RATE0 = 5.66e18      # alpha m c^2 / hbar
BSCH = 4.414e9


@st.composite
def cases(draw, ranks=1):
    cfg = draw(gen.grid(max_np=(4, 2), max_patches=12, minp=(4, 4), maxp=(7, 5), equal_d=True,
                        min_patches=ranks, cfl=True))
    cfg["d"] = [1.0] * cfg["dim"]
    names = draw(st.permutations(["ele", "pos", "pho", "pho2", "ele2", "pro"]))
    keep = draw(st.lists(st.booleans(), min_size=6, max_size=6))
    ele, pos = draw(st.booleans()), draw(st.booleans())
    bw = [draw(st.booleans()), draw(st.booleans())]
    share = draw(st.sampled_from(["", "", "radiation", "pairs", "pairs"]))    # two processes feeding one species
    if share == "radiation":
        ele = pos = True
    if share == "pairs":
        bw = [True, True]
    if not (ele or pos or any(bw)):
        ele = True
    to = {"ele": draw(st.sampled_from(["pho", "pho2"])), "pos": draw(st.sampled_from(["pho", "pho2"]))}
    bw_ele = [draw(st.sampled_from(["ele", "ele2"])) for _ in range(2)]
    if share == "radiation":
        to["pos"] = to["ele"]
    if share == "pairs" and draw(st.integers(0, 3)):
        bw_ele = draw(st.permutations(["ele", "ele2"]))
    need = set()
    for on, s in ((ele, "ele"), (pos, "pos")):
        if on:
            need |= {s, to[s]}
    for i, p in enumerate(("pho", "pho2")):
        if bw[i]:
            need |= {p, bw_ele[i], "pos"}
    order = [s for s, k in zip(names, keep) if k or s in need]
    steps = draw(st.integers(1, 4))
    return {"cfg": cfg, "seed": draw(gen.seeds()), "order": order, "rad": [ele, pos], "to": to, "bw": bw, "bw_ele": bw_ele,
            "n": draw(st.sampled_from([20, 60, 200] if share else [1, 5, 20, 60])), "dead": draw(st.sampled_from([3, 6, 12] if share else [0, 0, 1, 4])),
            "few": draw(st.sampled_from({"radiation": ["ele", "pos", ""], "pairs": ["pho", "pho2", "pho2", ""], "": [""]}[share])),
            "uneven": draw(st.booleans()) or bool(share), "steps": steps,
            "gamma": draw(st.sampled_from([60.0, 300.0, 2000.0])), "chi": draw(st.sampled_from([6.0, 20.0] if share == "pairs" else [0.5, 3.0, 20.0])),
            "tau": draw(st.sampled_from([0.7, 2.0, 5.0] if share == "pairs" else [0.1, 0.3, 0.7, 5.0])), "phofac": draw(st.sampled_from([2.0, 4.0] if share == "pairs" else [1.0, 4.0])),
            "erel": draw(st.sampled_from([0.0, 0.6])),
            "off": draw(st.one_of(st.just([]), st.lists(st.lists(st.booleans(), min_size=6, max_size=6), min_size=1, max_size=3))),
            "map": draw(st.sampled_from(["metis", "cyclic", "random"])), "rebal": draw(st.lists(st.booleans(), min_size=4, max_size=4)) if ranks > 1 else []}


def species(case):
    from lambdapic import Electron, Photon, Positron, Proton
    o = {}
    for s in case["order"]:
        if s in ("ele", "pos"):
            on = case["rad"][s == "pos"]
            o[s] = (Electron if s == "ele" else Positron)(name=s, radiation="photons" if on else None)
        elif s == "ele2":
            o[s] = Electron(name=s)
        elif s in ("pho", "pho2"):
            o[s] = Photon(name=s)
        else:
            o[s] = Proton(name=s)
    for i, s in enumerate(("ele", "pos")):
        if case["rad"][i] and s in o:
            o[s].set_photon(o[case["to"][s]])
    for i, p in enumerate(("pho", "pho2")):
        if case["bw"][i]:
            o[p].set_bw_pair(electron=o[case["bw_ele"][i]], positron=o["pos"])
    return [o[s] for s in case["order"]]


def build(case, comm):
    kit.reset_registry()
    cfg = dict(case["cfg"])
    chi, g = case["chi"], case["gamma"]
    rate = RATE0 * min(1.44 * chi, 1.46 * chi ** (2 / 3)) / g
    d = case["tau"] / rate * kit.C_LIGHT * np.sqrt(cfg["dim"]) / cfg["cfl"]
    cfg["d"] = [d] * cfg["dim"]
    sim = kit.make_sim(cfg, species(case), comm=comm)
    size = comm.Get_size() if comm else 1
    with kit.forced_ranks(kit.rank_assignment(case["map"], int(np.prod(cfg["np"])), size, case["seed"])):
        kit.init(sim)
    r = kit.rng(case["seed"], 1)
    sh = kit.gshape(sim)
    B = r.normal(0, 1, 3)
    B *= chi * BSCH / g / np.linalg.norm(B)
    E = np.cross(B, r.normal(0, 1, 3)) * kit.C_LIGHT * case["erel"]
    for k, v in zip(kit.EB, list(E) + list(B)):
        kit.set_field(sim, k, np.full(sh, v))
    kit.sync_eb(sim)
    for isp, s in enumerate(sim.species):
        n = int(r.integers(0, case["n"] + 1)) if r.random() < 0.3 else case["n"]
        dead = case["dead"]
        if case.get("uneven"):
            n = int(np.ceil(n * r.choice([0.05, 0.3, 1.0])))
            dead = int(r.integers(0, dead + 1))
        if case.get("few"):       # two emitters of the same product: one fills more than the free slots, one less
            n, dead = case["n"] if case["few"] != s.name else int(np.ceil(case["n"] * 0.05)), case["dead"]
        data = kit.random_particles(r, sim, n, w0=1.0)
        u = r.normal(0, 1, (3, n))
        u *= g * r.uniform(0.3, 1.5, n) / np.linalg.norm(u, axis=0)
        if s.mass == 0:
            u *= case["phofac"]
        for i, a in enumerate(("ux", "uy", "uz")):
            data[a] = u[i]
        kit.put_particles(sim, isp, data, ids=np.arange(n) + (1 << 28), extra_dead=dead)
    return sim


ATTR = ("ux", "uy", "uz", "w", "inv_gamma")


def snapshot(sim, comm):
    at = list(kit.AX[:sim.dimension]) + list(ATTR)
    return [kit.get_particles(sim, i, comm, attrs=at) for i in range(len(sim.species))]


def run(case, comm=None):
    import lambdapic
    from lambdapic import callback
    sim = build(case, comm)
    root = comm is None or comm.Get_rank() == 0
    nsp = len(sim.species)
    import lambdapic.core.patch.metis as metis
    real = metis.compute_rank
    npt = int(np.prod(case["cfg"]["np"]))
    probs, seen = [], [set() for _ in range(nsp)]
    tot = {"photons": 0, "pairs": 0, "steps": 0}
    S = {}
    try:
        for n in range(case["steps"]):
            on = [True] * nsp
            if case["off"]:
                on = [not case["off"][n % len(case["off"])][i] for i in range(nsp)]
            for s, f in zip(sim.species, on):
                (s.enable if f else s.disable)()
            last = max([i for i, f in enumerate(on) if f], default=None)

            def pre(s):
                if s.ispec == last:
                    S["a"] = snapshot(s, comm)

            def post(s):
                S["b"] = snapshot(s, comm)
            lb = sim.load_balancer
            lb.threshold = 1e9
            if comm is not None and case["rebal"][n]:
                lb.threshold = -1.0
                m = kit.rank_assignment("random", npt, comm.Get_size(), case["seed"] + n)

                def fake(patches, nrank, *a, _m=m, **k):
                    return list(_m), [int(x) for x in np.bincount(_m, minlength=nrank)]
                metis.compute_rank = fake
            if last is None:
                S["a"] = snapshot(sim, comm)
            sim.run(1, callbacks=[callback("current_deposition")(pre), callback("qed_create_particles")(post)])
            kit.quiet()
            if root and not probs:
                judge(case, sim, n, on, S["a"], S["b"], seen, probs, tot)
                tot["steps"] += 1
            if comm is not None and comm.bcast(bool(probs), root=0):
                break
    finally:
        metis.compute_rank = real
    require(not probs, lambda: "\n".join(probs[:6]), key="exchange")
    return {"nontrivial": bool(tot["photons"] or tot["pairs"]), **tot}


def vec(P):
    return np.array([P["ux"], P["uy"], P["uz"]]).T


def judge(case, sim, n, on, A, B, seen, probs, tot):
    names = case["order"]
    dim = sim.dimension
    d, L = kit.cellsize(sim), [k * s for k, s in zip(kit.gshape(sim), kit.cellsize(sim))]
    A, B = [kit.sort_by_id(P) for P in A], [kit.sort_by_id(P) for P in B]
    new, old, gone = [], [], []

    def pos(P):
        return np.array([np.mod(P[a] + dd / 2, ll) for a, dd, ll in zip(kit.AX[:dim], d, L)]).T

    def near(x, y):
        q = np.abs(x - y)
        return np.minimum(q, np.array(L) - q).max(axis=-1) < 1e-9 * d[0] * max(kit.gshape(sim))

    for i, s in enumerate(names):
        ida, idb = A[i]["id"], B[i]["id"]
        if len(np.unique(idb)) != len(idb):
            probs.append(f"step {n}: {s}: duplicate IDs after event handling")
            return
        seen[i] |= set(ida.tolist())
        g = ~np.isin(ida, idb)
        w = ~np.isin(idb, ida)
        reused = [k for k in idb[w].tolist() if k in seen[i]]
        if reused:
            probs.append(f"step {n}: {s}: new particles carry IDs already used: {reused[:3]}")
        seen[i] |= set(idb.tolist())
        gone.append({k: v[g] for k, v in A[i].items()})
        new.append({k: v[w] for k, v in B[i].items()})
        a, b = {k: v[~g] for k, v in A[i].items()}, {k: v[~w] for k, v in B[i].items()}
        old.append((a, b))
        if not (near(pos(a), pos(b)).all() and np.array_equal(a["w"], b["w"])):
            probs.append(f"step {n}: {s}: place or weight of existing particles changed by event handling")
        u2 = (vec(B[i]) ** 2).sum(1)
        mass = 0.0 if s in ("pho", "pho2") else 1.0
        want = 1 / np.sqrt(mass + u2)
        if len(u2) and not np.all(np.abs(B[i]["inv_gamma"] / want - 1) < 1e-10):
            k = int(np.argmax(~(np.abs(B[i]["inv_gamma"] / want - 1) < 1e-10)))
            fresh = bool(w[k])
            probs.append(f"step {n}: {s}: inv_gamma={B[i]['inv_gamma'][k]} but momentum {vec(B[i])[k]} gives {want[k]} "
                         f"({'new' if fresh else 'existing'} particle)")
    # what each process must have produced
    expected = {s: [] for s in names}          # (w, pos, u) of photons
    emits = {}
    for i, s in enumerate(names):
        a, b = old[i]
        du = vec(a) - vec(b)
        ch = (vec(a) != vec(b)).any(axis=1)
        rad = s in ("ele", "pos") and case["rad"][s == "pos"]
        if ch.any() and not (rad and on[i]):
            probs.append(f"step {n}: {s} ({'radiating' if rad else 'not radiating'}, {'on' if on[i] else 'off'}): momenta "
                         f"changed by event handling")
            return
        if ch.any():
            ua, ub = vec(a)[ch], vec(b)[ch]
            f = (ub * ua).sum(1) / (ua ** 2).sum(1)
            off = np.linalg.norm(ub - f[:, None] * ua, axis=1) / np.linalg.norm(ua, axis=1)
            if not (off < 1e-12).all():
                probs.append(f"step {n}: {s}: recoil is not along the momentum (relative {off.max()})")
            if not ((f >= -1e-12) & (f < 1)).all():
                probs.append(f"step {n}: {s}: recoil leaves fraction {f} of the momentum")
            expected[case["to"][s]].append((a["w"][ch], pos(a)[ch], du[ch]))
            emits[s] = int(ch.sum())
    for i, s in enumerate(names):
        if len(gone[i]["id"]) and not (s in ("pho", "pho2") and case["bw"][s == "pho2"] and on[i]):
            probs.append(f"step {n}: {s}: {len(gone[i]['id'])} particles vanished during event handling and exchange")
            return
    # photons
    for i, s in enumerate(names):
        if s not in ("pho", "pho2"):
            continue
        P = new[i]
        W = np.concatenate([e[0] for e in expected[s]]) if expected[s] else np.zeros(0)
        if len(W) != len(P["id"]):
            probs.append(f"step {n}: {len(W)} emissions ({emits}) but {len(P['id'])} new {s}")
            return
        if not len(W):
            continue
        X, U = np.concatenate([e[1] for e in expected[s]]), np.concatenate([e[2] for e in expected[s]])
        used = np.zeros(len(W), bool)
        for k in range(len(W)):
            m = (P["w"] == W[k]) & ~used & near(pos(P), X[k])
            if not m.any():
                probs.append(f"step {n}: no new {s} with the weight and place of an emitter (w={W[k]}, at {X[k]})")
                return
            j = np.flatnonzero(m)
            sc = np.linalg.norm(U[k]) + 1e-10 * case["gamma"]
            e = np.linalg.norm(vec(P)[j] - U[k], axis=1)
            q = j[int(np.argmin(e))]
            used[q] = True
            if e.min() > 1e-9 * sc + 1e-11 * case["gamma"] * 10:
                probs.append(f"step {n}: emitter lost {U[k]} but the {s} carries {vec(P)[q]}")
                return
        tot["photons"] += len(W)
    # pairs
    made = {s: np.zeros(len(new[i]["id"]), bool) for i, s in enumerate(names)}
    for i, s in enumerate(names):
        if s not in ("pho", "pho2") or not len(gone[i]["id"]):
            continue
        G = gone[i]
        e, p = case["bw_ele"][s == "pho2"], "pos"
        E, Q = new[names.index(e)], new[names.index(p)]
        for k in range(len(G["id"])):
            got = []
            for nm, T in ((e, E), (p, Q)):
                m = (T["w"] == G["w"][k]) & near(pos(T), pos(G)[k]) & ~made[nm]
                if m.sum() < 1:
                    probs.append(f"step {n}: {s} with w={G['w'][k]} decayed, {int(m.sum())} new {nm} with its weight and place")
                    return
                got.append(np.flatnonzero(m))
            up = vec(G)[k]
            best = min(((np.linalg.norm(vec(E)[x] + vec(Q)[y] - up), x, y) for x in got[0] for y in got[1]))
            made[e][best[1]] = made[p][best[2]] = True
            if best[0] > 1e-10 * np.linalg.norm(up):
                probs.append(f"step {n}: {s} momentum {up} became {vec(E)[best[1]]} + {vec(Q)[best[2]]}")
                return
            for v in (vec(E)[best[1]], vec(Q)[best[2]]):
                f = v @ up / (up @ up)
                if not (-1e-12 <= f <= 1 + 1e-12) or np.linalg.norm(v - f * up) > 1e-10 * np.linalg.norm(up):
                    probs.append(f"step {n}: pair member {v} is not along the photon {up}")
                    return
            tot["pairs"] += 1
    for i, s in enumerate(names):
        if s in ("pho", "pho2"):
            continue
        if not made[s].all():
            probs.append(f"step {n}: {int((~made[s]).sum())} {s} appeared out of nothing")


def run_mpi(case, comm):
    return run(case, comm)


def groups(tier):
    return [Group("local", [Sub("local", cases(), lambda c, comm: run(c))], shards=4),
            Group("mpi2", [Sub("mpi2", cases(2), run_mpi)], ranks=2, shards=1, threads=1)]
