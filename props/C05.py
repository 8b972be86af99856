"""Sorting only permutes particles, keeps every attribute with its owner, and groups by cell."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are particle populations (several species incl. QED attributes, dead slots, drifting either way, any "
        "position in the patch incl. cell edges) on generated 2-D/3-D patches with column or full-cell buckets, sorted "
        "repeatedly between generated motions, deaths, growth and pruning; non-trivial = some sort moved a particle.")


@st.composite
def cases(draw):
    cfg = draw(gen.grid(bcs=draw(st.sampled_from(["periodic", "axis"])), pml=2, minp=(4, 4), maxp=(8, 6), max_np=(3, 2),
                        max_patches=6))
    cfg["pml"] = 2
    ops = draw(st.lists(st.sampled_from(["move", "jump", "kill", "extend", "prune", "sync", "revive", "none"]),
                        min_size=1, max_size=6))
    return {"cfg": cfg, "seed": draw(gen.seeds()), "n": draw(st.sampled_from([0, 1, 3, 30, 200])),
            "drift": draw(st.sampled_from([-1.0, 0.0, 1.0])), "full": draw(st.booleans()),
            "dead": draw(st.sampled_from([0, 1, 9])), "edge": draw(st.booleans()), "ops": ops,
            "qed": draw(st.booleans())}


def rows(part, slots):
    """Every particle attribute, bit for bit, one row per particle."""
    cols = [np.ascontiguousarray(getattr(part, a)[slots]).view(np.uint64) for a in part.attrs]
    return np.stack(cols, 1) if len(cols[0]) else np.zeros((0, len(cols)), np.uint64)


def lexed(R):
    return R[np.lexsort(R.T[::-1])] if len(R) else R


def check_sorted(sim, ispec, full, bad, tag):
    """Alive particles of one cell (or column) sit in that bucket's slot range."""
    s = sim.sorter[ispec]
    dim, d, n = sim.dimension, kit.cellsize(sim), kit.pshape(sim)
    los, his = getattr(s, "bucket_bound_min_list", None), getattr(s, "bucket_bound_max_list", None)
    if los is None or his is None:
        return
    for ip, p in enumerate(sim.patches):
        part = p.particles[ispec]
        lo, hi = np.asarray(los[ip]).ravel(), np.asarray(his[ip]).ravel()
        nb = len(lo)
        if lo[0] != 0 or hi[-1] != part.npart or (hi[:-1] != lo[1:]).any() or (hi < lo).any():
            bad.append(f"{tag}: patch {p.index} bucket bounds do not partition the {part.npart} slots")
            continue
        if nb != (np.prod(n) if full else n[0]):
            bad.append(f"{tag}: {nb} buckets")
            continue
        bucket = np.searchsorted(hi, np.arange(part.npart), side="right")
        al = np.flatnonzero(~part.is_dead)
        b = bucket[al]
        if full:
            idx = np.unravel_index(b, n)
        else:
            rev = bool(getattr(s, "reverse_x", False))
            idx = (n[0] - 1 - b if rev else b,)
        for a, i in enumerate(idx):
            x = getattr(part, kit.AX[a])[al]
            off = (x - getattr(p, kit.AX[a] + "0")) / d[a] + 0.5 - i
            e = 1e-6
            wrong = ~((off >= -e) & (off <= 1 + e))
            # a particle within rounding of the patch edge may sit in an edge bucket
            onedge = (np.abs((x - getattr(p, kit.AX[a] + "0")) / d[a] + 0.5 - n[a]) < e) | \
                     (np.abs((x - getattr(p, kit.AX[a] + "0")) / d[a] + 0.5) < e)
            edge_any = np.zeros(len(al), bool)
            for c in range(dim):
                q = (getattr(part, kit.AX[c])[al] - getattr(p, kit.AX[c] + "0")) / d[c] + 0.5
                edge_any |= (np.abs(q) < e) | (np.abs(q - n[c]) < e)
            wrong &= ~(onedge | edge_any)
            if wrong.any():
                k = int(np.flatnonzero(wrong)[0])
                bad.append(f"{tag}: patch {p.index}: particle at {kit.AX[a]}={x[k]!r} is in bucket {int(b[k])} of {nb}")
                break


def run(case, comm):
    from lambdapic import Electron, Photon, Proton
    kit.reset_registry()
    cfg = case["cfg"]
    ele, pho = Electron(radiation="photons" if case["qed"] else None), Photon()
    if case["qed"]:
        ele.set_photon(pho)
    sp = [ele, Proton(), pho]
    sim = kit.make_sim(cfg, sp)
    if case["full"]:
        sim.add_collision([[ele, sp[1]]])
    kit.init(sim)
    r = kit.rng(case["seed"])
    dim, d = sim.dimension, kit.cellsize(sim)
    lo, hi = kit.alive_region(sim, cfg)
    nid = 1
    for i in range(3):
        data = kit.random_particles(r, sim, case["n"], box=list(zip(lo, hi)))
        data["ux"] += 3 * case["drift"]
        if case["edge"]:
            for a in range(dim):
                x = data[kit.AX[a]]
                t = (np.round(x / d[a] - 0.5) + 0.5) * d[a]
                ok = (r.random(len(x)) < 0.4) & (t > lo[a]) & (t < hi[a])
                data[kit.AX[a]] = np.where(ok, t, x)
        kit.put_particles(sim, i, data, extra_dead=case["dead"], ids=np.arange(nid, nid + case["n"], dtype=np.uint64))
        nid += case["n"]
    for p in sim.patches:
        for part in p.particles:
            for a in part.attrs:
                if a not in ("x", "y", "z", "ux", "uy", "uz", "w", "inv_gamma", "_id"):
                    al = ~part.is_dead
                    getattr(part, a)[al] = r.normal(size=int(al.sum()))
    bad = []
    moved = 0
    for k, op in enumerate(["none"] + case["ops"]):
        for p in sim.patches:
            for i, part in enumerate(p.particles):
                al = np.flatnonzero(~part.is_dead)
                lo_p, hi_p = kit.patch_bounds(sim, p)
                if op == "move" and len(al):
                    for a in range(dim):
                        x = getattr(part, kit.AX[a])
                        y = x[al] + (case["drift"] if a == 0 else 1) * r.uniform(0, 0.9 if a == 0 else .1, len(al)) * d[a]
                        x[al] = np.where((y > lo_p[a]) & (y < hi_p[a]), y, x[al])
                elif op == "jump":
                    for a in range(dim):
                        getattr(part, kit.AX[a])[al] = r.uniform(lo_p[a], hi_p[a], len(al))
                elif op == "kill" and len(al):
                    c = r.choice(al, size=max(1, len(al) // 3), replace=False)
                    part.is_dead[c] = True
                    if r.random() < 0.5:
                        part.x[c] = np.nan
                elif op == "extend":
                    part.extend(int(r.integers(1, 6)))
                elif op == "prune":
                    part.prune(extra_buff=float(r.choice([0.0, 0.1, 0.5])))
                elif op == "revive":
                    dd = np.flatnonzero(part.is_dead)[:3]
                    for a in range(dim):
                        getattr(part, kit.AX[a])[dd] = r.uniform(lo_p[a], hi_p[a], len(dd))
                    for a in ("ux", "uy", "uz", "w"):
                        getattr(part, a)[dd] = 0.25
                    part._id[dd] = (np.arange(nid, nid + len(dd), dtype=np.uint64)).view(np.float64)
                    nid += len(dd)
                    part.is_dead[dd] = False
        if op == "sync":
            sim.patches.sync_particles()
        sim.patches.update_lists()
        sim.update_lists()
        for i in range(3):
            tag = f"sort {k} after {op}, species {i}"
            before = []
            for p in sim.patches:
                part = p.particles[i]
                al = ~part.is_dead
                before.append((rows(part, al), part.npart, rows(part, slice(None))))
            sim.sorter[i]()
            for p, (R, npart, Rall) in zip(sim.patches, before):
                part = p.particles[i]
                al = ~part.is_dead
                if part.npart != npart or len(part.is_dead) != npart or int(al.sum()) != len(R):
                    bad.append(f"{tag}: patch {p.index} had {len(R)} of {npart} alive, now {int(al.sum())} of {part.npart}")
                    continue
                R2 = rows(part, al)
                if not np.array_equal(lexed(R), lexed(R2)):
                    cols = [a for j, a in enumerate(part.attrs) if not np.array_equal(np.sort(R[:, j]), np.sort(R2[:, j]))]
                    bad.append(f"{tag}: patch {p.index} particles changed; attributes whose values differ: {cols or 'none (mixed up between particles)'}")
                elif len(R) and not np.array_equal(rows(part, slice(None)), Rall):
                    moved += 1
            check_sorted(sim, i, case["full"], bad, tag)
            # sorting a sorted population moves nothing
            again = [rows(p.particles[i], slice(None)) for p in sim.patches]
            nd = [p.particles[i].is_dead.copy() for p in sim.patches]
            if getattr(sim.sorter[i], "nbuf_last", 0) == 0:
                sim.sorter[i]()
                for p, R, dd in zip(sim.patches, again, nd):
                    if not np.array_equal(rows(p.particles[i], slice(None)), R) or not np.array_equal(p.particles[i].is_dead, dd):
                        bad.append(f"{tag}: sorting a sorted population changed patch {p.index}")
        if bad:
            break
    require(not bad, lambda: "\n".join(bad[:6]), key="sort")
    return {"nontrivial": moved > 0, "moved": moved}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=5)]
