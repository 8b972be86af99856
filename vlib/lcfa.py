"""Independent LCFA rates (Ritus / Baier-Katkov, modified Bessel functions), in units of alpha m c^2 / hbar / gamma.

dN/dtau d(delta) for photon emission (delta = share of the emitter's energy taken by the photon) and for
pair production (delta = share of the photon's energy taken by the electron)."""
import numpy as np

ALPHA = 7.2973525693e-3
HBAR = 1.054571817e-34
ME = 9.1093837015e-31
C = 299792458.0
QE = 1.602176634e-19
RATE = ALPHA * ME * C ** 2 / HBAR
ES = ME ** 2 * C ** 3 / QE / HBAR          # Schwinger field
_S = np.arange(0, 40, 0.02)
_H = 0.02
V = np.arange(-80.0, 40.0, _H)             # logit of delta


def int_k13(y):
    """Integral of K_{1/3} from y to infinity."""
    a, b = np.cosh(_S), np.cosh(_S / 3) / np.cosh(_S)
    out = np.zeros_like(y)
    for i in range(0, len(y), 400):
        z = y[i:i + 400, None] * a[None, :]
        f = np.where(z < 700, np.exp(-np.minimum(z, 700)), 0) * b
        out[i:i + 400] = (f.sum(1) - 0.5 * f[:, 0]) * _H
    return out


def density(kind, chi, d, e):
    """dN/d(delta) at delta=d, 1-delta=e."""
    from scipy.special import kv
    if kind == "photon":
        y, s, g = 2 * d / (3 * chi * e), -1, e + 1 / e
    else:
        y, s, g = 2 / (3 * chi * d * e), 1, d / e + e / d
    ok = y < 600
    f = np.zeros_like(d)
    f[ok] = (g[ok] * kv(2 / 3, y[ok]) + s * int_k13(y[ok])) / (np.sqrt(3) * np.pi)
    return f


_cdf = {}


def cdf(kind, chi):
    """delta grid, cumulative number up to delta, total, mean delta."""
    k = (kind, round(float(np.log(chi)), 9))
    if k not in _cdf:
        d, e = 1 / (1 + np.exp(-V)), 1 / (1 + np.exp(V))
        f = density(kind, chi, d, e) * d * e
        c = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2)]) * _H
        _cdf[k] = (d, c, c[-1], np.sum(f * d) * _H / c[-1])
    return _cdf[k]


_spl = {}


def rate(kind, chi):
    """Total rate (units of RATE/gamma), by a spline of ln W over ln chi."""
    if kind not in _spl:
        from scipy.interpolate import CubicSpline
        x = np.linspace(np.log(1e-3 if kind == "photon" else 0.05), np.log(110.0), 90)
        _spl[kind] = CubicSpline(x, np.log([cdf(kind, np.exp(v))[2] for v in x]))
    return np.exp(_spl[kind](np.log(chi)))


def riemann(kind, chi, grid):
    """The same distribution accumulated by right sums on a given delta grid: what a table of that resolution can hold.
    Returns (largest CDF difference at the grid points, mean delta difference)."""
    d, c, tot, mean = cdf(kind, chi)
    e = 1 - grid
    ok = e > 0
    p = np.zeros_like(grid)
    p[ok] = density(kind, chi, grid[ok], e[ok])
    true = np.interp(grid, d, c)
    t = true[0] + np.concatenate([[0], np.cumsum(p[1:] * np.diff(grid))])
    dF = t / t[-1] - true / tot
    mid = (grid[1:] + grid[:-1]) / 2
    m = (np.sum(np.diff(t) * mid) + t[0] * grid[0] / 4) / t[-1]
    return float(np.abs(dF).max()), abs(m - mean)
