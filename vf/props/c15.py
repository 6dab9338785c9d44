"""C15: smoothed equilibrium density and additive correction"""
import numpy as np
from hypothesis import strategies as st

import bdgen
import gen
import ref
from core import Property, require

PROP = Property(
    "C15",
    assumptions=[
        "the kernel may be cut at the last grid point within or the first one beyond five "
        "bandwidths",
        "points where the density is zero are not generated (the correction is infinite there)",
        "bandwidths are at least a fifth of the grid spacing",
    ],
)


@st.composite
def cases(draw, big=False):
    d = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    sizes = {1: st.one_of(st.integers(4, 60), st.sampled_from([101, 102, 103, 150, 201, 301])),
             2: st.integers(3, 14), 3: st.integers(3, 7)}[d]
    n = [draw(sizes) for _ in range(d)]
    if d == 2 and draw(st.integers(0, 5)) == 0:
        n = [draw(st.sampled_from([105, 121])), 4]
        if draw(st.booleans()):
            n.reverse()
    ranges = draw(gen.rng_ranges(d, -3, 3, 0.5, 4))
    bw = []
    for r, k in zip(ranges, n):
        s = (r[1] - r[0]) / (k - 1)
        if draw(st.booleans()):
            bw.append(s * draw(st.integers(1, 12)) / 5)  # five bandwidths = whole steps
        else:
            bw.append(s * draw(gen.dec(0.21, 3, 2)))
    return {"n_dim": d, "ranges": ranges, "dens": {"n": n, "coef": draw(gen.vec(gen.dec(-2, 2, 1), 3))},
            "bw": bw, "mode": draw(st.sampled_from(["same", "same", "valid"])),
            "variant": "additive", "raw": draw(st.booleans()), "seed": draw(st.integers(0, 9999))}


def setup(case):
    from bdld import grid

    n = case["dens"]["n"]
    g = grid.from_npoints([tuple(r) for r in case["ranges"]], list(n))
    vals = bdgen.density_values(case, n)
    if case["raw"]:  # not smooth at all
        rng = np.random.default_rng(case["seed"])
        vals = vals * rng.uniform(0.1, 2.0, size=n)
    g.data = vals.copy()
    steps = [(r[1] - r[0]) / (k - 1) for r, k in zip(case["ranges"], n)]
    return g, vals, steps


def on_points(g, ranges, n, what):
    require(
        [int(x) for x in g.n_points] == list(n), f"{what}: points {g.n_points}, expected {n}"
    )
    for a, b in zip(g.ranges, ranges):
        eps = 1e-9 * (1 + abs(b[0]) + abs(b[1]))
        require(
            abs(a[0] - b[0]) <= eps and abs(a[1] - b[1]) <= eps,
            f"{what}: ranges {g.ranges}, expected {ranges}",
        )
    require(np.shape(g.data) == tuple(n), f"{what}: shape of data {np.shape(g.data)}")


def halves(case, steps):
    lo = [ref.half_width(b, s, "floor") for b, s in zip(case["bw"], steps)]
    hi = [ref.half_width(b, s, "ceil") for b, s in zip(case["bw"], steps)]
    return lo, hi


def inner_of(case, steps, n_points, what):
    """Half widths used in 'valid' mode, from the size of the returned grid"""
    lo, hi = halves(case, steps)
    n = case["dens"]["n"]
    res = []
    for k, m, a, b in zip(n, n_points, lo, hi):
        options = [h for h in (a, b) if k - 2 * h == m]
        require(bool(options), f"{what}: {m} points of {k}, five bandwidths are {a}..{b} steps")
        res.append(options[0])
    return res


def bounds(f):
    a, b = f("floor"), f("ceil")
    return np.minimum(a, b), np.maximum(a, b)


def within(got, lo, hi, tol, what):
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    if np.any(bad):
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        require(False, f"{what}: value at {i} is {got[i]}, expected {lo[i]}..{hi[i]}")


@PROP.sub(
    "smoothing", cases(), 900, 25000, shards=4,
    rule="dens_kernel_convolution on generated densities against a direct convolution, both "
    "modes; non-trivial: the kernel has more than one point in every dimension",
)
def smoothing(case, rec):
    from bdld.actions.birth_death import dens_kernel_convolution

    g, dens, steps = setup(case)
    lo, hi = halves(case, steps)
    if case["mode"] == "valid" and any(k - 2 * h < 2 for k, h in zip(case["dens"]["n"], hi)):
        return False
    bw = np.array(case["bw"], float)
    conv = dens_kernel_convolution(g, bw, case["mode"])
    require(np.array_equal(g.data, dens) and np.array_equal(bw, case["bw"]), "input changed")
    a, b = bounds(lambda cut: ref.smooth_same(dens, steps, case["bw"], cut))
    if case["mode"] == "same":
        on_points(conv, case["ranges"], case["dens"]["n"], "same")
    else:
        m = inner_of(case, steps, conv.n_points, "valid")
        n = [k - 2 * h for k, h in zip(case["dens"]["n"], m)]
        rng = [(r[0] + h * s, r[1] - h * s) for r, h, s in zip(case["ranges"], m, steps)]
        on_points(conv, rng, n, "valid")
        sl = tuple(slice(h, k - h) for h, k in zip(m, case["dens"]["n"]))
        a, b = a[sl], b[sl]
    within(np.asarray(conv.data), a, b, 1e-9 * b.max(), case["mode"])
    rec.label(case["mode"], f"{case['n_dim']}d")
    return all(h > 0 for h in lo)


@PROP.sub(
    "additive", cases(), 900, 25000, shards=4,
    rule="calc_additive_correction against its definition from direct sums, thinned to 101 "
    "points per dimension; non-trivial: the kernel has more than one point in every dimension",
)
def additive(case, rec):
    from bdld.actions.birth_death import calc_additive_correction

    g, dens, steps = setup(case)
    lo, hi = halves(case, steps)
    if case["mode"] == "valid" and any(k - 2 * h < 2 for k, h in zip(case["dens"]["n"], hi)):
        return False
    corr = calc_additive_correction(g, np.array(case["bw"], float), case["mode"])
    require(np.array_equal(g.data, dens), "the density was changed")
    n = list(case["dens"]["n"])
    rng = [tuple(r) for r in case["ranges"]]
    inner = None
    if case["mode"] == "valid":
        from bdld.actions.birth_death import dens_kernel_convolution

        conv = dens_kernel_convolution(g, np.array(case["bw"], float), "valid")
        inner = inner_of(case, steps, conv.n_points, "valid")
        n = [k - 2 * h for k, h in zip(n, inner)]
        rng = [(r[0] + h * s, r[1] - h * s) for r, h, s in zip(rng, inner, steps)]
    a, b = bounds(lambda cut: ref.thin(ref.additive(dens, steps, case["bw"], cut, inner)))
    on_points(corr, rng, [min(101, k) for k in n], "correction")
    # the two cuts bound the log term only together with the integral
    slack = np.abs(a - b).max()
    within(np.asarray(corr.data), a - slack, b + slack, 1e-8 * (1 + np.abs(a).max()),
           f"correction ({case['mode']})")
    rec.label(case["mode"], f"{case['n_dim']}d", "thinned" if max(n) > 101 else "kept")
    return all(h > 0 for h in lo)
