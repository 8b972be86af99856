"""An independent, single-domain, periodic reference PIC step in plain numpy (2-D and 3-D).

Yee leapfrog split in half steps, quadratic-spline gather at the staggered points, Boris push,
quadratic-spline Esirkepov deposition.  Grids are global arrays wrapped with modulo indexing."""
import numpy as np

from .kit import AX, C_LIGHT as C, EPS0, STAG


def spline(delta):
    """weights of nodes -1,0,1 around the nearest node; delta = xi - node in [-.5,.5]"""
    return np.stack([0.5 * (0.5 - delta) ** 2, 0.75 - delta ** 2, 0.5 * (0.5 + delta) ** 2], axis=-1)


def dminus(F, a, d):
    return (F - np.roll(F, 1, axis=a)) / d


def dplus(F, a, d):
    return (np.roll(F, -1, axis=a) - F) / d


def deriv(op, F, a, d):
    return op(F, a, d[a]) if a < F.ndim else np.zeros_like(F)


def update_e(F, d, dt, J=True):
    bf, jf = dt * C ** 2, dt / EPS0
    D = lambda n, a: deriv(dminus, F[n], a, d)  # noqa
    ex = F["ex"] + bf * (D("bz", 1) - D("by", 2))
    ey = F["ey"] + bf * (D("bx", 2) - D("bz", 0))
    ez = F["ez"] + bf * (D("by", 0) - D("bx", 1))
    if J:
        ex, ey, ez = ex - jf * F["jx"], ey - jf * F["jy"], ez - jf * F["jz"]
    F["ex"], F["ey"], F["ez"] = ex, ey, ez


def update_b(F, d, dt):
    D = lambda n, a: deriv(dplus, F[n], a, d)  # noqa
    bx = F["bx"] - dt * (D("ez", 1) - D("ey", 2))
    by = F["by"] - dt * (D("ex", 2) - D("ez", 0))
    bz = F["bz"] - dt * (D("ey", 0) - D("ex", 1))
    F["bx"], F["by"], F["bz"] = bx, by, bz


def div_e(F, d):
    return sum(dminus(F["e" + AX[a]], a, d[a]) for a in range(F["ex"].ndim))


def div_b(F, d):
    return sum(dplus(F["b" + AX[a]], a, d[a]) for a in range(F["bx"].ndim))


def gather(G, name, pos, d):
    """Field component at particle positions (quadratic splines around staggered nodes)."""
    dim = G.ndim
    idx, wt = [], []
    for a in range(dim):
        xi = np.asarray(pos[a]) / d[a] - 0.5 * STAG[name][a]
        i0 = np.floor(xi + 0.5).astype(int)
        idx.append([(i0 + k) % G.shape[a] for k in (-1, 0, 1)])
        wt.append(spline(xi - i0))
    out = np.zeros(len(pos[0]))
    if dim == 2:
        for i in range(3):
            for j in range(3):
                out += wt[0][:, i] * wt[1][:, j] * G[idx[0][i], idx[1][j]]
    else:
        for i in range(3):
            for j in range(3):
                for k in range(3):
                    out += wt[0][:, i] * wt[1][:, j] * wt[2][:, k] * G[idx[0][i], idx[1][j], idx[2][k]]
    return out


def boris(u, E, B, q, m, dt):
    """u, E, B: lists of three arrays."""
    u = np.stack(u)
    E = np.stack(E)
    B = np.stack(B)
    ef = q * dt / (2 * m * C)
    um = u + ef * E
    g = np.sqrt(1 + (um ** 2).sum(0))
    t = q * dt / (2 * m) * B / g
    up = um + np.cross(um, t, axis=0)
    s = 2 * t / (1 + (t ** 2).sum(0))
    u2 = um + np.cross(up, s, axis=0) + ef * E
    return list(u2)


def push_x(pos, u, dt, dim):
    g = np.sqrt(1 + u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
    return [pos[a] + C * dt * u[a] / g for a in range(dim)] + list(pos[dim:])


def deposit(shape, d, pos, u, w, q, dt):
    """Currents of particles now at `pos` (time t+dt/2 of the motion is centred on pos-v dt/2 .. the
    library calls this with pos at the end of the step; the motion spans pos-v dt/2 -> pos+v dt/2)."""
    dim = len(shape)
    n = len(w)
    g = np.sqrt(1 + u[0] ** 2 + u[1] ** 2 + u[2] ** 2)
    v = [C * u[a] / g for a in range(3)]
    S0, S1, I0 = [], [], []
    ar = np.arange(n)
    for a in range(dim):
        xo = (pos[a] - 0.5 * dt * v[a]) / d[a]
        xn = (pos[a] + 0.5 * dt * v[a]) / d[a]
        i0 = np.floor(xo + 0.5).astype(int)
        i1 = np.floor(xn + 0.5).astype(int)
        s0, s1 = np.zeros((n, 7)), np.zeros((n, 7))
        w0, w1 = spline(xo - i0), spline(xn - i1)
        for k in range(3):
            s0[:, 2 + k] = w0[:, k]
            s1[ar, 2 + k + (i1 - i0)] = w1[:, k]
        S0.append(s0)
        S1.append(s1)
        I0.append(i0)
    out = {k: np.zeros(shape) for k in ("jx", "jy", "jz", "rho")}
    vol = np.prod(d[:dim])
    cd = q * w / vol
    DS = [b - a for a, b in zip(S0, S1)]
    idx = [[(I0[a] + k - 3) % shape[a] for k in range(7)] for a in range(dim)]
    if dim == 2:
        M = [S0[0] + 0.5 * DS[0], S0[1] + 0.5 * DS[1]]
        jx = np.cumsum(-DS[0], axis=1)[:, :, None] * M[1][:, None, :] * (cd * d[0] / dt)[:, None, None]
        jy = np.cumsum(-DS[1], axis=1)[:, None, :] * M[0][:, :, None] * (cd * d[1] / dt)[:, None, None]
        jz = (M[0][:, :, None] * M[1][:, None, :] + DS[0][:, :, None] * DS[1][:, None, :] / 12) * (cd * v[2])[:, None, None]
        rho = S1[0][:, :, None] * S1[1][:, None, :] * cd[:, None, None]
        for i in range(7):
            for j in range(7):
                at = (idx[0][i], idx[1][j])
                for nm, arr in (("jx", jx), ("jy", jy), ("jz", jz), ("rho", rho)):
                    np.add.at(out[nm], at, arr[:, i, j])
    else:
        def W(b, c_):   # transverse weights averaged along a straight path
            return (S0[b][:, :, None] * S0[c_][:, None, :] + 0.5 * DS[b][:, :, None] * S0[c_][:, None, :]
                    + 0.5 * S0[b][:, :, None] * DS[c_][:, None, :] + DS[b][:, :, None] * DS[c_][:, None, :] / 3)
        fx, fy, fz = [cd * d[a] / dt for a in range(3)]
        jx = np.cumsum(-DS[0], 1)[:, :, None, None] * W(1, 2)[:, None, :, :] * fx[:, None, None, None]
        jy = np.cumsum(-DS[1], 1)[:, None, :, None] * W(0, 2)[:, :, None, :] * fy[:, None, None, None]
        jz = np.cumsum(-DS[2], 1)[:, None, None, :] * W(0, 1)[:, :, :, None] * fz[:, None, None, None]
        rho = S1[0][:, :, None, None] * S1[1][:, None, :, None] * S1[2][:, None, None, :] * cd[:, None, None, None]
        for i in range(7):
            for j in range(7):
                for k in range(7):
                    at = (idx[0][i], idx[1][j], idx[2][k])
                    for nm, arr in (("jx", jx), ("jy", jy), ("jz", jz), ("rho", rho)):
                        np.add.at(out[nm], at, arr[:, i, j, k])
    return out


class RefPIC:
    """Global periodic PIC. species: list of dicts(q, m, pos, u, w, photon)."""

    def __init__(self, F, d, dt, species):
        self.F = {k: v.copy() for k, v in F.items()}
        self.d, self.dt, self.sp = d, dt, species
        self.shape = F["ex"].shape
        self.dim = len(self.shape)
        for k in ("jx", "jy", "jz", "rho"):
            self.F.setdefault(k, np.zeros(self.shape))

    def step(self):
        F, d, dt = self.F, self.d, self.dt
        update_e(F, d, dt / 2)
        update_b(F, d, dt / 2)
        tot = {k: np.zeros(self.shape) for k in ("jx", "jy", "jz", "rho")}
        for s in self.sp:
            s["pos"] = push_x(s["pos"], s["u"], dt / 2, self.dim)
            E = [gather(F[n], n, s["pos"], d) for n in ("ex", "ey", "ez")]
            B = [gather(F[n], n, s["pos"], d) for n in ("bx", "by", "bz")]
            s["E"], s["B"] = E, B
            s["u"] = boris(s["u"], E, B, s["q"], s["m"], dt)
            s["pos"] = push_x(s["pos"], s["u"], dt / 2, self.dim)
            D = deposit(self.shape, d, s["pos"], s["u"], s["w"], s["q"], dt)
            for k in tot:
                tot[k] += D[k]
            for a in range(self.dim):      # wrap into [-d/2, L-d/2)
                L = self.shape[a] * d[a]
                s["pos"][a] = (s["pos"][a] + d[a] / 2) % L - d[a] / 2
        F.update(tot)
        update_b(F, d, dt / 2)
        update_e(F, d, dt / 2)
