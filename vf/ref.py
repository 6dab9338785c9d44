"""Independent reference models (share no code with bdld)"""
import math

import numpy as np


# --- potentials ----------------------------------------------------------------------


def poly_energy(coeffs, pos):
    """(energy, scale): exact sum of monomials, scale = sum of absolute terms"""
    terms = []
    for idx, c in np.ndenumerate(np.asarray(coeffs, dtype=float)):
        t = float(c)
        for x, k in zip(pos, idx):
            t *= float(x) ** k
        terms.append(t)
    return math.fsum(terms), math.fsum(abs(t) for t in terms)


def poly_force(coeffs, pos):
    """(forces, scales)"""
    coeffs = np.asarray(coeffs, dtype=float)
    forces, scales = [], []
    for d in range(coeffs.ndim):
        terms = []
        for idx, c in np.ndenumerate(coeffs):
            if idx[d] == 0:
                continue
            t = -float(c) * idx[d]
            for e, (x, k) in enumerate(zip(pos, idx)):
                t *= float(x) ** (k - 1 if e == d else k)
            terms.append(t)
        forces.append(math.fsum(terms))
        scales.append(math.fsum(abs(t) for t in terms))
    return forces, scales


MB_TERMS = [  # amplitude, a, b, c, x0, y0
    (-200.0, -1.0, 0.0, -10.0, 1.0, 0.0),
    (-100.0, -1.0, 0.0, -10.0, 0.0, 0.5),
    (-170.0, -6.5, 11.0, -6.5, -0.5, 1.5),
    (15.0, 0.7, 0.6, 0.7, -1.0, 1.0),
]


def mb_terms(third=-170.0):
    t = [list(x) for x in MB_TERMS]
    t[2][0] = third
    return t


def mb_energy(pos, third=-170.0, scale=1.0):
    """Mueller-Brown energy without constant and the sum of absolute terms"""
    x, y = float(pos[0]), float(pos[1])
    terms = []
    for amp, a, b, c, x0, y0 in mb_terms(third):
        terms.append(
            scale
            * amp
            * math.exp(a * (x - x0) ** 2 + b * (x - x0) * (y - y0) + c * (y - y0) ** 2)
        )
    return math.fsum(terms), math.fsum(abs(t) for t in terms)


def mb_force(pos, third=-170.0, scale=1.0):
    x, y = float(pos[0]), float(pos[1])
    fx, fy = [], []
    for amp, a, b, c, x0, y0 in mb_terms(third):
        e = (
            scale
            * amp
            * math.exp(a * (x - x0) ** 2 + b * (x - x0) * (y - y0) + c * (y - y0) ** 2)
        )
        fx.append(-e * (2 * a * (x - x0) + b * (y - y0)))
        fy.append(-e * (b * (x - x0) + 2 * c * (y - y0)))
    return (
        [math.fsum(fx), math.fsum(fy)],
        [math.fsum(map(abs, fx)), math.fsum(map(abs, fy))],
    )


# --- densities -----------------------------------------------------------------------


def kde(pos, bw):
    """Gaussian kernel density at every walker, direct double sum"""
    pos = np.asarray(pos, dtype=float)
    bw = np.asarray(bw, dtype=float)
    norm = 1.0
    for b in bw:
        norm /= math.sqrt(2 * math.pi) * b
    res = []
    for i in range(len(pos)):
        z = np.zeros(len(pos))
        for d in range(len(bw)):
            z += ((pos[:, d] - pos[i, d]) / bw[d]) ** 2
        res.append(norm * math.fsum(np.exp(-0.5 * z)) / len(pos))
    return np.array(res)


def gauss(dist, bw):
    """Normalised Gaussian of one distance vector"""
    g = 1.0
    for x, b in zip(dist, bw):
        g *= math.exp(-0.5 * (x / b) ** 2) / (math.sqrt(2 * math.pi) * b)
    return g


def half_width(b, step, cut="floor"):
    """Number of steps within five bandwidths"""
    q = 5 * b / step
    if abs(q - round(q)) < 1e-6:
        return int(round(q))
    return int(math.floor(q)) if cut == "floor" else int(math.ceil(q))


def separable_kernel(bw, steps, cut="floor"):
    """Per-dimension kernel values on the points k*step around zero, cut at 5 bw"""
    res = []
    for b, s in zip(bw, steps):
        m = half_width(b, s, cut)
        k = np.arange(-m, m + 1) * s
        res.append(np.exp(-0.5 * (k / b) ** 2) / (math.sqrt(2 * math.pi) * b))
    return res


def convolve_axis(data, kern, axis, step):
    """Direct discrete convolution ('same') with a centred kernel along one axis"""
    m = (len(kern) - 1) // 2
    data = np.moveaxis(np.asarray(data, dtype=float), axis, 0)
    n = data.shape[0]
    out = np.zeros_like(data)
    for j in range(-m, m + 1):  # out[i] += data[i-j] * kern[j]
        lo, hi = max(0, j), min(n, n + j)
        if lo < hi:
            out[lo:hi] += data[lo - j : hi - j] * kern[m + j]
    return np.moveaxis(out * step, 0, axis)


def smooth_same(dens, steps, bw, cut="floor"):
    for d, kern in enumerate(separable_kernel(bw, steps, cut)):
        dens = convolve_axis(dens, kern, d, steps[d])
    return dens


def additive(dens, steps, bw, cut="floor", inner=None):
    """-log(K*pi/pi) + <log(K*pi/pi)>_pi on the points of the density"""
    conv = smooth_same(dens, steps, bw, cut)
    if inner is not None:
        sl = tuple(slice(m, n - m) for m, n in zip(inner, dens.shape))
        conv, dens = conv[sl], dens[sl]
    with np.errstate(divide="ignore", invalid="ignore"):
        log = np.log(conv / dens)
        return -log + trapz_nd(log * dens, steps)


def thin_axis(data, axis, n_new):
    """Linear interpolation to n_new evenly spaced points along one axis"""
    data = np.moveaxis(np.asarray(data, float), axis, 0)
    n = data.shape[0]
    res = []
    for i in range(n_new):
        t = i * (n - 1) / (n_new - 1)
        k = min(int(math.floor(t + 1e-9)), n - 2)
        w = t - k
        res.append(data[k] if w < 1e-9 else (1 - w) * data[k] + w * data[k + 1])
    return np.moveaxis(np.array(res), 0, axis)


def thin(data, limit=101):
    for d in range(np.ndim(data)):
        if np.shape(data)[d] > limit:
            data = thin_axis(data, d, limit)
    return data


def interpolation(axes, data, x):
    """(low, high): bounds of every piecewise linear interpolation at x; 0 outside

    exact in one dimension, the two possible triangulations in two dimensions"""
    out = False
    border = False
    for ax, v in zip(axes, x):
        eps = 1e-12 * max(1.0, abs(ax[0]), abs(ax[-1]))
        if v < ax[0] - eps or v > ax[-1] + eps:
            out = True
        elif min(abs(v - ax[0]), abs(v - ax[-1])) <= eps:
            border = True
    if out:
        return 0.0, 0.0
    if len(axes) == 1:
        v = linear_1d(axes[0], data, x[0])
        return v, v
    if len(axes) == 2:
        k, w = [], []
        for ax, v in zip(axes, x):
            i = int(np.searchsorted(ax, v, side="right")) - 1
            i = min(max(i, 0), len(ax) - 2)
            k.append(i)
            w.append(min(max((v - ax[i]) / (ax[i + 1] - ax[i]), 0.0), 1.0))
        a, b = data[k[0], k[1]], data[k[0] + 1, k[1]]
        c, d = data[k[0], k[1] + 1], data[k[0] + 1, k[1] + 1]
        u, v = w
        t1 = a + u * (b - a) + v * (c - a) if u + v <= 1 else d + (1 - u) * (c - d) + (1 - v) * (b - d)
        t2 = a + u * (b - a) + v * (d - b) if u >= v else a + v * (c - a) + u * (d - c)
        lo, hi = min(t1, t2), max(t1, t2)
    else:
        lo, hi = multilinear_bounds(axes, data, x)
    if border:
        lo, hi = min(lo, 0.0), max(hi, 0.0)
    return lo, hi


def trapz_nd(data, steps):
    data = np.asarray(data, dtype=float)
    for s in reversed(list(steps)):
        data = s * (data.sum(axis=-1) - 0.5 * (data[..., 0] + data[..., -1]))
    return float(data)


def axis_points(lo, hi, n):
    if n == 1:
        return np.array([lo])
    pts = np.array([lo + (hi - lo) * i / (n - 1) for i in range(n)])
    pts[-1] = hi  # not exceeded by rounding
    return pts


def multilinear_bounds(axes, data, x):
    """(min, max) of the data at the corners of the cell(s) containing x

    Any piecewise linear interpolation on the cell lies inside"""
    idx = []
    for ax, v in zip(axes, x):
        i = int(np.searchsorted(ax, v, side="right")) - 1
        i = min(max(i, 0), len(ax) - 2) if len(ax) > 1 else 0
        lo, hi = i, min(i + 1, len(ax) - 1)
        eps = 1e-9 * max(1.0, abs(ax[-1] - ax[0]))
        if v - ax[lo] < eps and lo > 0:
            lo -= 1
        if ax[hi] - v < eps and hi < len(ax) - 1:
            hi += 1
        idx.append(slice(lo, hi + 1))
    cell = data[tuple(idx)]
    return float(cell.min()), float(cell.max())


def linear_1d(axis, data, x):
    i = int(np.searchsorted(axis, x, side="right")) - 1
    i = min(max(i, 0), len(axis) - 2)
    w = (x - axis[i]) / (axis[i + 1] - axis[i])
    return (1 - w) * data[i] + w * data[i + 1]


# --- histogram -----------------------------------------------------------------------


class HistModel:
    """Counts per bin; a value on an inner bin edge may be counted on either side"""

    def __init__(self, bins, ranges):
        self.bins = list(bins)
        self.ranges = [tuple(map(float, r)) for r in ranges]
        self.clear()

    def clear(self):
        self.definite = np.zeros(self.bins)
        self.possible = np.zeros(self.bins)
        self.total_min = 0
        self.total_max = 0

    def add(self, pos, weight=1):
        for p in np.asarray(pos, dtype=float).reshape(-1, len(self.bins)):
            choices = []
            sure = True
            for v, n, (lo, hi) in zip(p, self.bins, self.ranges):
                w = (hi - lo) / n
                eps = 1e-9 * max(hi - lo, abs(lo), abs(hi))
                if not lo <= v <= hi:  # nan is nowhere
                    choices = None
                    break
                t = (v - lo) / w
                i = min(int(math.floor(t)), n - 1)
                cand = {i}
                k = int(round(t))
                if 0 < k < n and abs(v - (lo + k * w)) <= eps:
                    cand = {k - 1, k}
                choices.append(sorted(cand))
            if choices is None:
                continue
            combos = [()]
            for c in choices:
                combos = [x + (i,) for x in combos for i in c]
            if len(combos) == 1:
                self.definite[combos[0]] += weight
            for c in combos:
                self.possible[c] += weight
            self.total_min += weight
            self.total_max += weight

    def copy(self):
        h = HistModel(self.bins, self.ranges)
        h.definite = self.definite.copy()
        h.possible = self.possible.copy()
        h.total_min, h.total_max = self.total_min, self.total_max
        return h

    @property
    def exact(self):
        return bool(np.array_equal(self.definite, self.possible))

    def mismatch(self, counts):
        """None or a description"""
        counts = np.asarray(counts, dtype=float)
        if counts.shape != tuple(self.bins):
            return f"shape of the counts is {counts.shape}, expected {tuple(self.bins)}"
        bad = (counts < self.definite - 1e-6) | (counts > self.possible + 1e-6)
        if bad.any():
            i = tuple(int(x) for x in np.argwhere(bad)[0])
            return (
                f"bin {i} holds {counts[i]}, expected {self.definite[i]}"
                + ("" if self.exact else f"..{self.possible[i]}")
            )
        total = counts.sum()
        if not self.total_min - 1e-6 <= total <= self.total_max + 1e-6:
            return f"total count {total}, expected {self.total_min}"
        return None

    def midpoints(self):
        """Row-major list of bin midpoints"""
        axes = [
            np.array([lo + (hi - lo) * (i + 0.5) / n for i in range(n)])
            for n, (lo, hi) in zip(self.bins, self.ranges)
        ]
        return axes


def row_major(axes):
    pts = [()]
    for ax in axes:
        pts = [p + (float(x),) for p in pts for x in ax]
    return np.array(pts)


# --- statistics ----------------------------------------------------------------------


def normal_pvalue(z):
    return math.erfc(abs(z) / math.sqrt(2))


def binom_tail(k, n, p):
    """Two-sided-ish tail probability of k successes out of n"""
    from scipy.stats import binom

    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return float(min(1.0, 2 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p))))


def chi2_pvalue(stat, dof):
    from scipy.stats import chi2

    return float(chi2.sf(stat, dof))
