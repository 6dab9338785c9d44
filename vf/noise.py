"""Recover the random numbers of the integrators from their observable steps and judge them"""
import math

import numpy as np

import ref
from core import Violation, require

P_MIN = 1e-9


def forces(j, pot, x):
    """Forces at the positions x (n, dim), vectorised reference for polynomials"""
    x = np.atleast_2d(np.asarray(x, dtype=float))
    if j["type"] != "polynomial":
        return np.array([np.asarray(pot.force(p), dtype=float) for p in x])
    c = np.asarray(j["coeffs"], dtype=float)
    res = np.zeros_like(x)
    for idx, v in np.ndenumerate(c):
        if v == 0.0:
            continue
        for d in range(c.ndim):
            if idx[d] == 0:
                continue
            t = np.full(len(x), -v * idx[d])
            for e in range(c.ndim):
                t = t * x[:, e] ** (idx[e] - (1 if e == d else 0))
            res[:, d] += t
    return res


def bussi(j, pot, old, new, mass, friction, kt, dt):
    """Random numbers of the two thermostat half-steps; old/new: (pos, mom) arrays"""
    (x0, p0), (x1, p1) = old, new
    mass = np.asarray(mass, dtype=float).reshape(-1, 1)
    c1 = math.exp(-0.5 * friction * dt)
    c2 = np.sqrt(-math.expm1(-friction * dt) * mass * kt)
    mid = (x1 - x0) * mass / dt
    r1 = (mid - 0.5 * dt * forces(j, pot, x0) - c1 * p0) / c2
    full = mid + 0.5 * dt * forces(j, pot, x1)
    r2 = (p1 - c1 * full) / c2
    return r1, r2, p0 / np.sqrt(mass * kt), full / np.sqrt(mass * kt)


def exact(j, pot, old, new, mass, friction, kt, dt):
    """False where forces or momenta are too large to recover the noise of a Bussi step"""
    (x0, p0), (x1, p1) = old, new
    mass = np.asarray(mass, dtype=float).reshape(-1, 1)
    c2 = np.sqrt(-math.expm1(-friction * dt) * mass * kt)
    with np.errstate(all="ignore"):
        size = np.abs(p0) + np.abs(p1) + (np.abs(x0) + np.abs(x1)) * mass / dt
        size = size.max(1) + dt * (
            np.abs(forces(j, pot, x0)).max(1) + np.abs(forces(j, pot, x1)).max(1)
        )
        return bool(np.all(1e-14 * size[:, None] < 1e-6 * c2))


def overdamped(j, pot, old, new, dt):
    return (new - old - dt * forces(j, pot, old)) / math.sqrt(2 * dt)


FAR = 20.0


HOW = ["append", "append", "insert", "overwrite", "reverse"]


def fill(ld, starts, masses, how="append"):
    """Add particles so that they end up in the given order, in different ways"""
    todo = list(zip(starts, masses))
    if how == "insert":  # last one first, the others before it
        for k, (p, m) in enumerate(reversed(todo)):
            ld.add_particle(p, m, 0) if k else ld.add_particle(p, m)
    elif how == "overwrite":
        for p, _ in todo:
            ld.add_particle(p, 2.7)
        for k, (p, m) in enumerate(todo):
            ld.add_particle(p, m, k, True)
    elif how == "reverse":  # an additional one that is removed, the last one by overwriting
        ld.add_particle(todo[0][0], 0.3)
        for p, m in todo[:-1]:
            ld.add_particle(p, m)
        ld.add_particle(todo[-1][0], 5.1)
        ld.add_particle(*todo[-1], -1, True)
        ld.remove_particle(0)
    else:
        for p, m in todo:
            ld.add_particle(p, m)


def usable(xs):
    """Number of steps before the (explicit) scheme carries a particle far away

    xs: positions over steps; the step that leaves the region is still usable"""
    for t, x in enumerate(xs):
        if not np.all(np.isfinite(x)) or np.max(np.abs(x)) > FAR:
            return t
    return len(xs) - 1


def _p(p, what):
    require(p >= P_MIN, f"{what} (p = {p:.3g})")


def standard_normal(r, what):
    """r: any array of numbers that have to be independent standard normal"""
    if np.size(r) == 0:
        return
    from scipy.stats import binom, chi2, kstest, norm

    r = np.asarray(r, dtype=float).ravel()
    require(bool(np.all(np.isfinite(r))), f"{what}: not finite")
    n = len(r)
    _p(ref.normal_pvalue(r.mean() * math.sqrt(n)), f"{what}: mean is {r.mean():.4g}, n = {n}")
    s = float((r**2).sum())
    _p(
        2 * min(chi2.cdf(s, n), chi2.sf(s, n)),
        f"{what}: variance is {s / n:.4g} times the documented one, n = {n}",
    )
    _p(float(kstest(r, "norm").pvalue), f"{what}: not Gaussian, n = {n}")
    for lim in (2.0, 2.5, 3.0, 3.5):
        k, q = int(np.sum(np.abs(r) > lim)), 2 * float(norm.sf(lim))
        _p(
            2 * min(binom.cdf(k, n, q), binom.sf(k - 1, n, q)),
            f"{what}: {k} of {n} numbers beyond {lim} standard deviations, expected {n * q:.4g}",
        )


def uncorrelated(a, b, what):
    a, b = np.ravel(a), np.ravel(b)
    sa, sb = float(np.sqrt(np.mean(a**2))), float(np.sqrt(np.mean(b**2)))
    if len(a) < 50 or sa == 0 or sb == 0:
        return
    c = float(np.mean(a * b)) / (sa * sb)
    _p(ref.normal_pvalue(c * math.sqrt(len(a))), f"{what}: correlation {c:.4g}, n = {len(a)}")


def independent(series, what):
    """series: dict name -> array (steps, particles, dims)"""
    names = sorted(series)
    for i, k in enumerate(names):
        r = series[k]
        standard_normal(r, f"{what}, {k}")
        _, n_part, n_dim = r.shape
        for d in range(1, n_dim):
            uncorrelated(r[:, :, 0], r[:, :, d], f"{what}, {k}: dimensions 0 and {d}")
        if n_part > 1:
            uncorrelated(r[:, :-1], r[:, 1:], f"{what}, {k}: neighbouring particles")
            uncorrelated(r[:, :1] + 0 * r[:, 1:], r[:, 1:], f"{what}, {k}: particle 0 and others")
        uncorrelated(r[:-1], r[1:], f"{what}, {k}: subsequent steps")
        for l in names[i + 1 :]:
            uncorrelated(r, series[l], f"{what}: {k} and {l}")
            uncorrelated(r[1:], series[l][:-1], f"{what}: {k} and previous {l}")
            uncorrelated(r[:-1], series[l][1:], f"{what}: {k} and next {l}")
    no_repeats([series[k] for k in names], what)


REPEAT = 10.0  # in standard deviations; sums of 500 or more products
REPEAT_MIN = 500


def no_repeats(series, what):
    """series: list of arrays (steps, particles, dims); no part of the sequence comes again

    Sum of products at every distance in the sequence ordered by step, particle, series and
    dimension, and in the one ordered by particle and step"""
    full = np.stack([np.asarray(r, dtype=float) for r in series], axis=2)
    for r, order in ((full, "step"), (full.swapaxes(0, 1), "particle")):
        r = np.clip(r.ravel(), -6, 6)
        n = len(r)
        if n <= 2 * REPEAT_MIN:
            return
        f = np.fft.rfft(r, 2 * n)
        c = np.fft.irfft(f * np.conj(f), 2 * n)[1 : n - REPEAT_MIN]
        t = c / np.sqrt(n - np.arange(1, n - REPEAT_MIN))
        k = int(np.argmax(np.abs(t)))
        require(
            abs(t[k]) < REPEAT,
            f"{what}: random numbers repeat at distance {k + 1} in the sequence by {order} "
            f"(correlation {t[k] / math.sqrt(n - k - 1):.3g} of {n - k - 1} numbers)",
        )


def same_up_to_scale(a, b):
    """Ratio if a = ratio * b for all numbers, else None"""
    a, b = np.ravel(a), np.ravel(b)
    big = np.abs(b) > 0.3
    if big.sum() < 10:
        return None
    q = a[big] / b[big]
    m = float(np.median(q))
    if not np.isfinite(m) or np.max(np.abs(q - m)) > 1e-4 * max(1e-3, abs(m)):
        return None
    return m
