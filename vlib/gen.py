"""Hypothesis strategies shared by the checks (all values JSON-able)."""
from hypothesis import strategies as st


def seeds():
    return st.integers(0, 2 ** 31 - 1)


@st.composite
def grid(draw, dims=(2, 3), bcs="periodic", ng=(3, 3), minp=(4, 3), maxp=(9, 6), max_np=(4, 3), pml=None,
         max_patches=18, min_patches=1, cfl=(0.3, 0.95), equal_d=False):
    """A simulation geometry. bcs: 'periodic' | 'pml' | 'axis' (each axis one kind) | 'any' (each side).
    minp/maxp: cells per patch (2-D, 3-D)."""
    dim = draw(st.sampled_from(list(dims)))
    k = dim - 2
    g = draw(st.integers(*ng)) if ng[0] != ng[1] else ng[0]
    if bcs == "periodic":
        bc = "p" * (2 * dim)
    elif bcs == "pml":
        bc = "m" * (2 * dim)
    elif bcs == "axis":
        bc = "".join(draw(st.sampled_from("pm")) * 2 for _ in range(dim))
    else:
        bc = "".join(draw(st.sampled_from("pm")) for _ in range(2 * dim))
    npp, n = [], []
    tot = 1
    any_pml = "m" in bc
    for a in range(dim):
        cap = max(1, min(max_np[k], max_patches // tot))
        lo_np = 2 if "m" in bc[2 * a:2 * a + 2] else 1     # one absorbing layer per axis and patch
        q = draw(st.integers(lo_np, max(cap, lo_np)))
        npp.append(q)
        tot *= q
    if tot < min_patches:
        npp[0] = min_patches
    th = pml if pml is not None else 6
    for a in range(dim):
        lo = max(minp[k], g)
        if any_pml:
            lo = max(lo, th + 2)        # the layer must be thinner than the patch in every direction
        per = draw(st.integers(lo, max(lo, maxp[k])))
        n.append(per * npp[a])
    if equal_d:
        dd = draw(st.sampled_from([1e-7, 2e-8]))
        d = [dd] * dim
    else:
        d = [draw(st.sampled_from([1e-7, 8e-8, 1.3e-7, 2.5e-8, 3e-7])) for _ in range(dim)]
    return {"dim": dim, "n": n, "np": npp, "d": d, "bc": bc, "ng": g, "pml": th,
            "cfl": draw(st.sampled_from([0.95, 0.5, 0.99, 0.3])) if cfl else 0.95}


def npatches(cfg):
    t = 1
    for q in cfg["np"]:
        t *= q
    return t
