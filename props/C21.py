"""Injected lasers are the requested pulses: amplitude, envelope, place, polarisation, phase, angle, focus, sums."""
import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated lasers (Simple/Gaussian, 2-D/3-D, every parameter) in generated absorbing boxes. profile: Ey and Ez "
        "recorded in a plane behind the source are compared, step by step and cell by cell, with the documented pulse written "
        "down independently. algebra: runs with A, B and A + B, and with rotated phases and polarisations, must be linearly "
        "related to rounding. layout: the same pulse for another decomposition (and 2 MPI ranks). Non-trivial = the recorded "
        "peak exceeds a tenth of the requested amplitude.")
BUDGET = {"quick": 18.0}
ASSUMPTIONS = ["profile: at least 12 cells per wavelength; 12 % of the peak (15 % at steep angles, 22 % for beams off the middle) accepted (numerical dispersion, diffraction, obliqueness), "
               "a constant delay of up to a step, the beam axis within a cell of y0/z0, the amplitude of oblique pulses up to the cosine; 2-D beams away from the focus are "
               "compared up to amplitude (the documented w(z) formulas are the 3-D ones)"]
ME, QE, C = kit.ME, kit.QE, kit.C_LIGHT


@st.composite
def lasers(draw, dim, l0, Ly, Lz, w0, single=True):
    fl = lambda a, b: draw(st.floats(a, b).map(lambda v: float(f"{v:.4g}")))
    kind = draw(st.sampled_from(["simple", "gauss"]))
    L = {"kind": kind, "a0": fl(0.05, 20.0), "w0": w0 * fl(0.9, 1.2), "l0": l0, "ctau": l0 * fl(1.2, 2.0),
         "pol_angle": draw(st.sampled_from([0.0, 0.0, np.pi / 2, 0.7, -0.4, 2.5])),
         "ellipticity": draw(st.sampled_from([0.0, 0.0, 1.0, -1.0, 0.5, -0.3])),
         "cep": draw(st.sampled_from([0.0, 0.0, 1.0, -2.0, np.pi / 2]))}
    if draw(st.booleans()):
        L["y0"] = draw(st.sampled_from([0.0, 0.4 * Ly, 0.55 * Ly, Ly / 2]))
    if dim == 3 and draw(st.booleans()):
        L["z0"] = draw(st.sampled_from([0.0, 0.4 * Lz, 0.6 * Lz]))
    if draw(st.integers(0, 3)) == 0:
        L["tstop"] = L["ctau"] * (fl(0.8, 1.6) if kind == "simple" else fl(2.0, 4.0)) / C
    if kind == "simple":
        L["angle_y"] = draw(st.sampled_from([0.0, 0.3, -0.2, 0.5, -0.5] if w0 > 1.9 * l0 else [0.0, 0.0, 0.2, -0.3]))
    else:
        zR = np.pi * L["w0"] ** 2 / l0
        L["focus_position"] = zR * draw(st.sampled_from([0.0, 0.0, 0.7, 1.5, -0.5]))
        if draw(st.integers(0, 2)) == 0:
            L["x0"] = L["ctau"] * fl(2.2, 3.2)
        L["ctau"] *= 0.6
        if "x0" in L:
            L["x0"] *= 0.6
        if "tstop" in L:
            L["tstop"] *= 0.6
        lp = draw(st.sampled_from([[0, 0], [0, 0], [1, 0], [-1, 0], [0, 1], [2, 1]] if dim == 3 else [[0, 0], [0, 0], [0, 0], [1, 0], [0, 1]]))
        L["l"], L["p"] = lp
    return {k: (float(v) if isinstance(v, (float, np.floating)) else v) for k, v in L.items()}


@st.composite
def cases(draw, two=False, ranks=1):
    dim = draw(st.sampled_from([2, 2, 3]))
    ppw = draw(st.sampled_from([14, 18] if dim == 2 else [12]))
    dx = draw(st.sampled_from([5e-8, 2e-7]))
    l0 = ppw * dx
    ratio = draw(st.sampled_from([1.0, 1.5]))
    dy = dx * ratio
    w = draw(st.sampled_from([1.3, 1.8, 2.6])) if dim == 2 else 1.2
    th = draw(st.sampled_from([4, 6]))
    npy = draw(st.sampled_from([1, 2, 3]))
    ylen = max(int(3.6 * w * ppw / ratio), 24)
    per = max((ylen + npy - 1) // npy, th + 2, 8)
    npy = max(2, npy) if draw(st.booleans()) else npy
    bcy = draw(st.sampled_from(["pp", "mm"] if npy > 1 else ["pp"]))
    per = max((ylen + 2 * th * (bcy == "mm") + npy - 1) // npy, th + 2, 8)
    n, npp, d, bc = [], [], [], "mm" + bcy
    npx = draw(st.sampled_from([2, 3]))
    xlen = th + 8 + 5 * ppw // 2 + th
    n.append(npx * max((xlen + npx - 1) // npx, th + 8))
    n.append(npy * per)
    npp += [npx, npy]
    d += [dx, dy]
    if dim == 3:
        npz = draw(st.sampled_from([1, 2]))
        n.append(npz * max((ylen + npz - 1) // npz, th + 2, 8))
        npp.append(npz)
        d.append(dy)
        bc += "pp"
    cfg = {"dim": dim, "n": n, "np": npp, "d": d, "bc": bc, "ng": 3, "pml": th, "cfl": 0.95}
    Ly, Lz = n[1] * dy, n[-1] * dy
    case = {"cfg": cfg, "L": [draw(lasers(dim, l0, Ly, Lz, w * l0))], "seed": draw(gen.seeds())}
    if two:
        case["L"].append(draw(lasers(dim, l0 * draw(st.sampled_from([1.0, 1.5])), Ly, Lz, w * l0)))
        case["mix"] = draw(st.sampled_from(["sum", "sum", "cep", "pol", "scale"]))
        case["phi"] = draw(st.sampled_from([0.3, 1.2, -2.0]))
        case["steps"] = draw(st.sampled_from([20, 50]))
        case["np2"] = [draw(st.sampled_from([2, npx])), draw(st.sampled_from([k for k in (1, 2, 3) if n[1] % k == 0 and (n[1] // k > th + 2) and (k > 1 or bcy == "pp")]))] + \
            ([1] if dim == 3 else [])
        if n[0] % case["np2"][0]:
            case["np2"][0] = npx
    return case


def build_laser(dim, L):
    import lambdapic
    kw = {k: v for k, v in L.items() if k != "kind"}
    name = {"simple": "SimpleLaser", "gauss": "GaussianLaser"}[L["kind"]] + f"{dim}D"
    return getattr(lambdapic, name)(**kw)


def make(cfg, comm=None):
    kit.reset_registry()
    return kit.init(kit.make_sim(cfg, [], comm=comm))


def duration(L):
    T = 2 * L["ctau"] if L["kind"] == "simple" else 6 * L["ctau"]
    return min(T, L["tstop"] * C) if "tstop" in L else T


def pulse(L, dim, cfg, ct, y, z):
    """The documented pulse in the plane of the source at c*t (array of shape nt,1,1), y and z relative to the axis."""
    w0, l0, ctau = L["w0"], L["l0"], L["ctau"]
    k0 = 2 * np.pi / l0
    E0 = L["a0"] * ME * C * (k0 * C) / QE
    tstop = 2 * ctau if L["kind"] == "simple" else 6 * ctau
    if "tstop" in L:
        tstop = L["tstop"] * C
    on = (ct >= 0) & (ct < tstop)
    if L["kind"] == "simple":
        th = L.get("angle_y", 0.0)
        s = ct - y * np.sin(th)
        env = np.where((s >= 0) & (s <= 2 * ctau), np.sin(np.pi * s / (2 * ctau)) ** 2, 0.0)
        amp = E0 * env * np.exp(-((y * np.cos(th)) ** 2 + z ** 2) / w0 ** 2)
        phase = k0 * s + L["cep"]
        cy = np.cos(th)
    else:
        xb = cfg["pml"] * cfg["d"][0]
        q = xb - L["focus_position"]
        zR = np.pi * w0 ** 2 / l0
        w = w0 * np.sqrt(1 + (q / zR) ** 2)
        curv = q / (q ** 2 + zR ** 2)           # 1/R
        x0 = L.get("x0", 3 * ctau)
        r2 = y ** 2 + z ** 2
        l, p = L["l"], L["p"]
        u = 2 * r2 / w ** 2
        # generalised Laguerre polynomials of degree 0 and 1, and the norm of constant power
        k = abs(l)
        lag = {0: 1.0 + 0 * u, 1: 1 + k - u, 2: u ** 2 / 2 - (k + 2) * u + (k + 1) * (k + 2) / 2}[p]
        fact = {0: 1.0, 1: 1.0, 2: 2.0, 3: 6.0, 4: 24.0, 5: 120.0}
        norm = np.sqrt(fact[p] / fact[p + abs(l)])
        amp = E0 * (w0 / w) * np.exp(-r2 / w ** 2) * norm * np.sqrt(u) ** abs(l) * lag * np.exp(-((ct - x0) / ctau) ** 2)
        phase = k0 * ct + L["cep"] - k0 * xb - k0 * r2 * curv / 2 - (2 * p + abs(l) + 1) * np.arctan(q / zR) - l * np.arctan2(z, y)
        cy = 1.0
    e, a = L["ellipticity"], L["pol_angle"]
    N = np.sqrt(1 + e * e)
    major, minor = np.sin(phase) / N, e * np.cos(phase) / N
    amp = amp * on
    return amp * (np.cos(a) * major - np.sin(a) * minor) * cy, amp * (np.sin(a) * major + np.cos(a) * minor)


def record(sim, laser, ix, steps):
    """Ey and Ez in the plane ix after every step: arrays (nt, ny[, nz])"""
    from lambdapic import callback
    out = {"ey": [], "ez": []}

    @callback("end")
    def rec(s):
        for k in out:
            G = np.zeros(kit.gshape(s)[1:])
            for p in s.patches:
                if ix // s.nx_per_patch == p.ipatch_x:
                    G[kit.pslice(s, p)[1:]] = getattr(p.fields, k)[(ix % s.nx_per_patch,) + kit.interior(s)[1:]]
            out[k].append(G)
    sim.run(steps, callbacks=[laser, rec])
    kit.quiet()
    return np.array(out["ey"]), np.array(out["ez"])


def run_profile(case, comm=None):
    cfg, L, dim = case["cfg"], case["L"][0], case["cfg"]["dim"]
    for a, k in ((1, "y0"), (2, "z0")):         # beams cut near their middle diffract; source looks at those
        if k in L and dim > a:
            e = cfg["pml"] * cfg["d"][a] if cfg["bc"][2 * a] == "m" else 0.0
            if not e + 0.7 * L["w0"] <= L[k] <= cfg["n"][a] * cfg["d"][a] - e - 0.7 * L["w0"]:
                return {"nontrivial": False}
    sim = make(cfg)
    src = cfg["pml"] + 2
    ix = src + 2
    cdt = C * sim.dt
    T = duration(L)
    # until the front of the end of the pulse arrives (what the layer behind the source held comes free then)
    steps = int(np.floor((T + 2.5 * cfg["d"][0]) / cdt)) - 1
    # what the far layer reflects must not be back yet
    far = 2 * (cfg["n"][0] - cfg["pml"] - ix) * cfg["d"][0]
    steps = min(steps, int(far / cdt))
    ey, ez = record(sim, build_laser(dim, L), ix, steps)
    dy = cfg["d"][1]
    Ly = cfg["n"][1] * dy
    y0 = L["y0"] if "y0" in L else Ly / 2
    nd = cfg["n"][1:] + ([1] if dim == 2 else [])
    ey, ez = ey.reshape([steps] + nd), ez.reshape([steps] + nd)
    iy = np.arange(nd[0], dtype=float)[None, :, None]
    iz = np.arange(nd[1], dtype=float)[None, None, :]
    th = cfg["pml"]
    # a beam cut by the edge of the box diffracts there
    m = 5 + (th if cfg["bc"][2] == "m" else 0)
    cut = (slice(None), slice(m, nd[0] - m)) + ((slice(5, nd[1] - 5),) if dim == 3 else ())
    t = (np.arange(steps) + 1)[:, None, None] * cdt
    peak, best, k0 = None, None, 0
    for off in (0.0, 0.5, 1.0, 1.5):          # the place of the axis is only defined to a cell
        for lag in np.arange(-0.25, 1.3, 0.25):
            ct = t - (ix - src + 0.5) * cfg["d"][0] - lag * cdt
            a, _ = pulse(L, dim, cfg, ct, (iy + 0.5 - off) * dy - y0, _z(iz, dim, off, cfg, L))
            _, b = pulse(L, dim, cfg, ct, (iy - off) * dy - y0, _z(iz, dim, off, cfg, L))
            if peak is None:
                peak = max(np.abs(a).max(), np.abs(b).max())
            g = h = 1.0
            ang = abs(L.get("angle_y", 0.0))
            if ang:         # the source is the one for normal incidence: oblique plane waves differ by up to the cosine
                g = float(np.clip((ey * a).sum() / max((a * a).sum(), 1e-300), np.cos(ang), 1 / np.cos(ang)))
                h = float(np.clip((ez * b).sum() / max((b * b).sum(), 1e-300), np.cos(ang), 1 / np.cos(ang)))
            if dim == 2 and L["kind"] == "gauss":
                g = float((ey * a + ez * b).sum() / max((a * a + b * b).sum(), 1e-300))
                g = h = min(max(g, 0.5), 2.0)
            if ang:         # one side of an oblique front is already past the source at the start: a sudden onset
                k0 = min(12, steps - 1)
            r = np.maximum(np.abs(ey - g * a), np.abs(ez - h * b))[k0:][cut]
            w = float(r.max())
            if best is None or w < best[0]:
                k = np.unravel_index(np.argmax(r), r.shape) + np.array([k0] + [c.start or 0 for c in cut[1:]] + [0] * (3 - len(cut)))
                best = (w, off, lag, [int(v) for v in k], g)
    E0 = L["a0"] * ME * C * 2 * np.pi * C / L["l0"] / QE
    res = best[0] / peak
    tol = 0.22 if "y0" in L or "z0" in L else 0.15 if abs(L.get("angle_y", 0.0)) > 0.4 else 0.12
    require(res <= tol, lambda: f"the field behind the source differs from the requested pulse by {res:.3f} of its peak at step, cell {best[3]} "
            f"(accepted {tol}; best delay {best[2]} steps, axis offset {best[1]} cells): {L}", key="profile")
    return {"nontrivial": peak > 0.1 * E0, "res": res, "off": best[1], "lag": best[2], "at": best[3], "gain": best[4], "steps": steps, "peak": peak / E0}


def _z(iz, dim, off, cfg, L):
    if dim == 2:
        return 0.0 * iz
    dz = cfg["d"][2]
    z0 = L["z0"] if "z0" in L else cfg["n"][2] * dz / 2
    return (iz - off) * dz - z0


def run_fields(cfg, lasers, steps, comm=None, combine=False):
    sim = make(cfg, comm)
    ls = [build_laser(cfg["dim"], L) for L in lasers]
    sim.run(steps, callbacks=[ls[0] + ls[1] if combine else ls[0]])
    kit.quiet()
    return sim, kit.get_fields(sim, kit.EB, comm)


def scales(f):
    return {k: max(max(np.abs(f[t + a]).max() for a in "xyz") for t in "e") / (C if k[0] == "b" else 1.0) for k in kit.EB}


def run_algebra(case, comm=None):
    cfg, dim = case["cfg"], case["cfg"]["dim"]
    A, B = case["L"]
    dt = None
    out, co = [], []
    sim = make(cfg)
    cdt = C * sim.dt
    mix = case["mix"]
    steps = min(case["steps"], int(min(duration(A), duration(B) if mix == "sum" else np.inf) / cdt) - 1)
    f = case["phi"]
    if mix == "sum":
        parts = [([A], 1.0), ([B], 1.0)]
        whole = [A, B]
    elif mix == "scale":
        parts, whole = [([A], 3.5)], [dict(A, a0=3.5 * A["a0"])]
    else:
        k = {"cep": "cep", "pol": "pol_angle"}[mix]
        parts = [([dict(A, **{k: 0.0})], np.cos(f)), ([dict(A, **{k: np.pi / 2})], np.sin(f))]
        whole = [dict(A, **{k: f})]
    _, W = run_fields(cfg, whole, steps, combine=len(whole) == 2)
    S = {k: 0.0 for k in kit.EB}
    mag = {k: 0.0 for k in kit.EB}
    for Ls, g in parts:
        _, F = run_fields(cfg, Ls, steps)
        sc = scales(F)
        for k in kit.EB:
            S[k] = S[k] + g * F[k]
            mag[k] = mag[k] + abs(g) * sc[k]
    for k in kit.EB:
        e = np.abs(W[k] - S[k]).max() / max(mag[k], 1e-300)
        require(e <= 1e-9, lambda: f"{mix}: after {steps} steps {k} differs by {e:.3g} from the combination of the separate runs: {whole}", key=mix)
    return {"nontrivial": mag["ez"] > 0}


def run_layout(case, comm=None):
    cfg = case["cfg"]
    dt = None
    A = case["L"][0]
    if comm is None:
        _, W = run_fields(cfg, [A], case["steps"])
        _, V = run_fields(dict(cfg, np=case["np2"]), [A], case["steps"])
    else:
        from mpi4py import MPI
        _, W = run_fields(cfg, [A], case["steps"], comm)
        if comm.Get_rank() != 0:
            return {}
        _, V = run_fields(dict(cfg, np=case["np2"]), [A], case["steps"], MPI.COMM_SELF)
    sc = scales(W)
    for k in kit.EB:
        e = np.abs(W[k] - V[k]).max() / max(sc[k], 1e-300)
        require(e <= 1e-9, lambda: f"after {case['steps']} steps {k} of the patch grids {cfg['np']} and {case['np2']} differ by {e:.3g} "
                f"at {[int(i) for i in np.unravel_index(np.argmax(np.abs(W[k] - V[k])), W[k].shape)]}: {A}", key="layout")
    return {"nontrivial": sc["ez"] > 0 and (comm is not None or list(cfg["np"]) != list(case["np2"]))}


@st.composite
def sources(draw):
    """Any laser, any moment of its pulse."""
    dim = draw(st.sampled_from([2, 3]))
    fl = lambda a, b: draw(st.floats(a, b).map(lambda v: float(f"{v:.4g}")))
    l0 = draw(st.sampled_from([8e-7, 1e-6, 1e-5]))
    d = [l0 / fl(8, 30) for _ in range(dim)]
    th = draw(st.sampled_from([3, 6]))
    npp = [2] + [draw(st.sampled_from([2, 3])) for _ in range(dim - 1)]
    n = [2 * (th + 5)] + [q * draw(st.sampled_from([8, 10, 12] if dim == 2 else [8])) for q in npp[1:]]
    bc = "mm" + "".join(draw(st.sampled_from(["pp", "pp", "mm"])) for _ in range(dim - 1))
    size = [n[a] * d[a] for a in range(1, dim)]
    Ls = []
    for _ in range(draw(st.sampled_from([1, 1, 2]))):
        kind = draw(st.sampled_from(["simple", "gauss"]))
        L = {"kind": kind, "a0": fl(0.01, 50.0), "w0": size[0] * fl(0.1, 2.0), "l0": l0 * draw(st.sampled_from([1.0, 1.0, 0.5])), "ctau": l0 * fl(0.5, 8.0),
             "pol_angle": fl(-3.2, 3.2), "ellipticity": fl(-1, 1), "cep": fl(-7, 7)}
        if draw(st.booleans()):
            L["y0"] = draw(st.sampled_from([0.0, fl(0, 1) * size[0], size[0] / 2]))
        if dim == 3 and draw(st.booleans()):
            L["z0"] = draw(st.sampled_from([0.0, fl(0, 1) * size[1], size[1] / 2]))
        if draw(st.booleans()):
            L["tstop"] = L["ctau"] * fl(0.2, 8.0) / C
        if kind == "simple":
            L["angle_y"] = draw(st.sampled_from([0.0, fl(-1.2, 1.2)]))
        else:
            L["focus_position"] = draw(st.sampled_from([0.0, fl(-3, 3) * np.pi * L["w0"] ** 2 / L["l0"], th * d[0]]))
            if draw(st.booleans()):
                L["x0"] = L["ctau"] * fl(-1, 5)
            L["l"], L["p"] = draw(st.sampled_from([0, 0, 1, -1, 2, -3])), draw(st.sampled_from([0, 0, 1, 2]))
        Ls.append({k: (float(v) if isinstance(v, (float, np.floating)) else v) for k, v in L.items()})
    return {"cfg": {"dim": dim, "n": n, "np": npp, "d": d, "bc": bc, "ng": 3, "pml": th, "cfl": 0.95}, "L": Ls,
            "at": sorted(draw(st.lists(st.one_of(st.floats(0, 1.1), st.floats(0.001, 0.1)), min_size=2, max_size=5)))}


def run_source(case, comm=None):
    """One step from vacuum at chosen moments, against a laser of the harness with the documented pulse as its source."""
    from lambdapic.callback.laser import Laser, Laser2D, Laser3D
    if not hasattr(Laser, "_calculate_bound_fields"):       # no extension point to hang the documented pulse on
        return {"nontrivial": False}
    cfg, dim = case["cfg"], case["cfg"]["dim"]
    d, n = cfg["d"], cfg["n"]
    off = [0.5]

    class Documented(Laser2D if dim == 2 else Laser3D):
        def __init__(self):
            super().__init__()
            self.tstop = np.inf

        def _calculate_bound_fields(self, sim, p):
            f = p.fields
            at = []
            for a, m in zip("yz", p_shape(p)):
                j = np.arange(m + 2 * cfg["ng"])
                at.append(getattr(p, a + "0") + np.where(j < m + cfg["ng"], j, j - (m + 2 * cfg["ng"])) * getattr(sim, "d" + a))
            ey = ez = 0.0
            for L in case["L"]:
                y = at[0] - off[0] * d[1] - (L["y0"] if "y0" in L else n[1] * d[1] / 2)
                z = np.zeros(1)
                if dim == 3:
                    z = at[1] - off[0] * d[2] - (L["z0"] if "z0" in L else n[2] * d[2] / 2)
                a, b = pulse(L, dim, cfg, np.full((1, 1, 1), C * sim.time), y[None, :, None], z[None, None, :])
                ey, ez = ey + a[0], ez + b[0]
            return (ey, ez) if dim == 3 else (ey[:, 0].copy(), ez[:, 0].copy())

    def p_shape(p):
        return [p.fields.ny] + ([p.fields.nz] if dim == 3 else [])
    T = max(duration(L) for L in case["L"])
    # within rounding of the start, the end or the edge of an envelope either side is right
    times = [u * T / C for u in case["at"]]
    times = [t for t in times if not any(abs(C * t - x) < 1e-9 * T for L in case["L"] for x in (0.0, duration(L), 2 * L["ctau"]))]
    if not times:
        return {"nontrivial": False}

    def moments(make_laser):
        sim = make(cfg)
        laser = make_laser()
        out = []
        for t in times:
            for p in sim.patches:
                for k in kit.EB:
                    getattr(p.fields, k).fill(0.0)
                for layer in p.pml_boundary:
                    for k, v in vars(layer).items():
                        if k.startswith("psi"):
                            v.fill(0.0)
            sim.time = t
            sim.run(1, callbacks=[laser])
            kit.quiet()
            out.append(kit.get_fields(sim, kit.EB))
        return out

    def ours():
        ls = [build_laser(dim, L) for L in case["L"]]
        return ls[0] if len(ls) == 1 else ls[0] + ls[1]
    W = moments(ours)
    E0 = sum(L["a0"] * ME * C * 2 * np.pi * C / L["l0"] / QE for L in case["L"])
    best = None
    for off[0] in (0.5, 0.0, 1.0, -0.5):
        V = moments(Documented)
        bad = (0.0, "")
        for t, w, v in zip(times, W, V):
            for k in kit.EB:
                sc = max(np.abs(v[q]).max() * (C if q[0] == "b" else 1.0) for q in kit.EB) + 1e-6 * E0
                e = np.abs(w[k] - v[k]).max() * (C if k[0] == "b" else 1.0) / sc
                if not e <= bad[0]:
                    i = [int(z) for z in np.unravel_index(np.argmax(np.abs(w[k] - v[k])), w[k].shape)]
                    bad = (e, f"at c*t = {C * t / case['L'][0]['ctau']:.4g} ctau {k} differs from what the documented pulse gives by {e:.3g} of its peak at {i}")
        if best is None or bad[0] < best[0]:
            best = bad
        if best[0] <= 1e-6:
            break
    require(best[0] <= 1e-6, lambda: f"{best[1]}: {case['L']}", key="source")
    peak = max(np.abs(w[k]).max() for w in W for k in ("ey", "ez"))
    return {"nontrivial": bool(peak > 1e-4 * E0), "moments": len(times)}


@st.composite
def swaps(draw):
    L = draw(lasers(3, 1e-6, 2e-6, 2e-6, 1.2e-6).filter(lambda q: q.get("angle_y", 0.0) == 0.0))
    d = [draw(st.sampled_from([5e-8, 7e-8])), draw(st.sampled_from([6e-8, 1e-7])), draw(st.sampled_from([6e-8, 1.5e-7]))]
    th = draw(st.sampled_from([3, 4]))
    bc = ["mm"] + [draw(st.sampled_from(["pp", "mm"])) for _ in range(2)]
    npp = [2] + [2 if b == "mm" else draw(st.sampled_from([1, 2])) for b in bc[1:]]
    n = [2 * (th + 6)] + [q * draw(st.sampled_from([8, 11])) for q in npp[1:]]
    return {"cfg": {"dim": 3, "n": n, "np": npp, "d": d, "bc": "".join(bc), "ng": 3, "pml": th, "cfl": 0.95}, "L": [L],
            "steps": draw(st.sampled_from([8, 25])), "from": draw(st.sampled_from([0.0, 0.3, 0.6]))}


def run_swap(case, comm=None):
    """Exchanging y and z mirrors the set-up: E as a vector, B as a pseudo-vector."""
    A = case["L"][0]
    cfg = case["cfg"]
    ex = lambda v: [v[0], v[2], v[1]]
    cfg2 = dict(cfg, n=ex(cfg["n"]), np=ex(cfg["np"]), d=ex(cfg["d"]), bc=cfg["bc"][:2] + cfg["bc"][4:] + cfg["bc"][2:4])
    l = A.get("l", 0)
    B = dict(A, pol_angle=np.pi / 2 - A["pol_angle"], ellipticity=-A["ellipticity"], cep=A["cep"] - l * np.pi / 2)
    if "l" in A:
        B["l"] = -l
    for a, b in (("y0", "z0"), ("z0", "y0")):
        B.pop(a, None)
        if b in A:
            B[a] = A[b]

    def fields(c, L):
        sim = make(c)
        sim.time = case["from"] * duration(L) / C
        sim.run(case["steps"], callbacks=[build_laser(3, L)])
        kit.quiet()
        return kit.get_fields(sim, kit.EB)
    W, V = fields(cfg, A), fields(cfg2, B)
    sc = scales(W)
    to = {"x": "x", "y": "z", "z": "y"}
    for k in kit.EB:
        v = np.swapaxes(V[k[0] + to[k[1]]], 1, 2) * (1 if k[0] == "e" else -1)
        e = np.abs(W[k] - v).max() / max(sc[k], 1e-300)
        require(e <= 1e-9, lambda: f"after {case['steps']} steps {k} differs by {e:.3g} from that of the set-up with y and z exchanged at "
                f"{[int(i) for i in np.unravel_index(np.argmax(np.abs(W[k] - v)), v.shape)]} of {cfg['n']}: {A}", key="swap")
    return {"nontrivial": sc["ez"] > 0}


def groups(tier):
    return [Group("local", [Sub("profile", cases(), run_profile, share=2.0), Sub("source", sources(), run_source, share=1.5),
                            Sub("swap", swaps(), run_swap, share=0.7), Sub("algebra", cases(two=True), run_algebra, share=1.0),
                            Sub("layout", cases(two=True), run_layout, share=1.0)], shards=4),
            Group("mpi2", [Sub("layout", cases(two=True), run_layout)], ranks=2, shards=1)]
