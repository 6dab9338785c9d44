"""C17: grid construction, interpolation, thinning, convolution"""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Property, require

PROP = Property(
    "C17",
    assumptions=[
        "a step size fits if the range is a whole number of steps to 1e-10 (relative), it does "
        "not fit if it misses by more than 1e-5; nothing in between is generated",
        "grids have at least two points per dimension",
    ],
)


def evenly(ax, lo, step, n, what):
    ax = np.asarray(ax, float)
    require(ax.shape == (n,), f"{what}: {ax.shape} points, expected {n}")
    want = np.array([lo + i * step for i in range(n)])
    require(
        bool(np.all(np.abs(ax - want) <= 1e-9 * (1 + abs(lo) + n * abs(step)))),
        f"{what}: points {ax.tolist()[:20]}, expected {want.tolist()[:20]}",
    )


@st.composite
def construct_cases(draw):
    d = draw(gen.dims)
    fits, spec = [], []
    for _ in range(d):
        lo = draw(gen.dec(-5, 5, 2))
        step = draw(st.one_of(gen.dec(0.01, 2, 2), st.sampled_from([0.1, 0.3, 1 / 3, 0.7, 1e-3])))
        k = draw(st.integers(1, 40))
        frac = draw(st.one_of(st.just(0.0), st.sampled_from([1e-4, 0.2, 0.5, 0.999])))
        if draw(st.integers(0, 3)) == 0:  # decimal bounds
            hi = round(lo + k * step, 6)
            t = (hi - lo) / step
            frac = t - math.floor(t)
            if frac < 1e-9 or frac > 1 - 1e-9:
                k, frac = int(round(t)), 0.0
            elif frac < 1e-5 or frac > 1 - 1e-5 or t < 1:
                hi, frac = lo + k * step, 0.0
            else:
                k = int(math.floor(t))
        else:
            hi = lo + (k + frac) * step
        spec.append({"lo": lo, "hi": hi, "step": step, "k": k, "fit": frac == 0.0})
    return {
        "spec": spec,
        "shrink": draw(st.booleans()),
        "single": draw(st.booleans()),
        "n": [draw(st.integers(2, 30)) for _ in range(d)],
    }


@PROP.sub(
    "construction", construct_cases(), 2500, 60000, shards=3,
    rule="from_npoints and from_stepsizes (fitting and not fitting, extending and shrinking, "
    "single values and lists); non-trivial: a step size that does not fit",
)
def construction(case, rec):
    from bdld import grid

    d = len(case["spec"])
    ranges = [(s["lo"], s["hi"]) for s in case["spec"]]
    n = [case["n"][0]] * d if case["single"] else case["n"]
    arg = case["n"][0] if case["single"] else list(case["n"])
    g = grid.from_npoints(list(ranges), arg)
    require(g.n_dim == d and [int(x) for x in g.n_points] == n, f"points {g.n_points} for {arg}")
    for i, (lo, hi) in enumerate(ranges):
        st_ = (hi - lo) / (n[i] - 1)
        require(
            tuple(map(float, g.ranges[i])) == (lo, hi), f"range {g.ranges[i]}, given {(lo, hi)}"
        )
        require(abs(g.stepsizes[i] - st_) <= 1e-12 * abs(st_), f"step {g.stepsizes[i]}, is {st_}")
        evenly(g.axes()[i], lo, st_, n[i], "from_npoints")
    try:
        grid.from_npoints(list(ranges), [4] * (d + 1))
    except Exception:
        pass
    else:
        require(False, "wrong number of dimensions accepted")

    steps = [s["step"] for s in case["spec"]]
    spec = case["spec"]
    if case["single"]:
        # one step size for all dimensions
        s0 = steps[0]
        ranges = [(s["lo"], s["lo"] + (q["k"] + (0 if q["fit"] else 0.37)) * s0)
                  for s, q in zip(spec, spec)]
        steps = [s0] * d
    sarg = steps[0] if case["single"] else list(steps)
    if case["shrink"]:
        g = grid.from_stepsizes(list(ranges), sarg, shrink=True)
    else:  # extending is the default
        g = grid.from_stepsizes(list(ranges), sarg)
    require(g.n_dim == d, "dimension")
    miss = False
    for i, (lo, hi) in enumerate(ranges):
        s, fit, k = steps[i], spec[i]["fit"], spec[i]["k"]
        want_n = k + 1 if fit or case["shrink"] else k + 2
        what = f"range {(lo, hi)}, step {s}, {'shrink' if case['shrink'] else 'extend'}"
        require(int(g.n_points[i]) == want_n, f"{what}: {g.n_points[i]} points, expected {want_n}")
        up = float(g.ranges[i][1])
        eps = 1e-8 * (1 + abs(lo) + abs(hi))
        require(abs(float(g.ranges[i][0]) - lo) <= 1e-12 * (1 + abs(lo)), f"{what}: {g.ranges[i]}")
        require(abs(up - (lo + (want_n - 1) * s)) <= eps, f"{what}: {g.ranges[i]}")
        if fit:
            require(abs(up - hi) <= eps, f"{what}: upper end moved to {up}")
        require(abs(float(g.stepsizes[i]) - s) <= 1e-12 * s, f"{what}: step {g.stepsizes[i]}")
        evenly(g.axes()[i], lo, s, want_n, what)
        miss = miss or not fit
    rec.label(f"{d}d", "shrink" if case["shrink"] else "extend", "misfit" if miss else "fit")
    return miss


@st.composite
def interp_cases(draw):
    d = draw(gen.dims)
    n = [draw(st.integers(2, {1: 25, 2: 7, 3: 4}[d])) for _ in range(d)]
    ranges = draw(gen.rng_ranges(d, -3, 3, 0.5, 4))
    pts = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 3))
        if k == 0:
            pts.append([float(ref.axis_points(r[0], r[1], m)[draw(st.integers(0, m - 1))])
                        for r, m in zip(ranges, n)])
        elif k == 1:
            p = [r[0] + (r[1] - r[0]) * draw(gen.dec(0, 1, 2)) for r in ranges]
            i = draw(st.integers(0, d - 1))
            r = ranges[i]
            p[i] = draw(st.sampled_from([r[0] - 0.1, r[1] + 0.1, r[1] + 50.0]))
            pts.append(p)
        else:
            pts.append([r[0] + (r[1] - r[0]) * draw(gen.dec(0.01, 0.99, 2)) for r in ranges])
    return {"ranges": ranges, "n": n, "pts": pts, "seed": draw(st.integers(0, 10**6)),
            "lin": draw(gen.vec(gen.dec(-2, 2, 1), d + 1)),
            "fill": draw(st.sampled_from([None, 0.0, -7.5])),
            "max": [draw(st.integers(2, 30)) for _ in range(d)]}


def build(ranges, n, data):
    from bdld import grid

    g = grid.from_npoints([tuple(r) for r in ranges], list(n))
    g.data = np.array(data, float)
    return g


@PROP.sub(
    "interpolation", interp_cases(), 1200, 30000, shards=4,
    rule="interpolation at nodes, between and outside (fill value) for arbitrary data and for "
    "linear functions; thinning keeps ranges, values of nodes and linear functions; "
    "non-trivial: a query point strictly between nodes",
)
def interpolation(case, rec):
    from bdld import grid

    d = len(case["n"])
    axes = [ref.axis_points(r[0], r[1], m) for r, m in zip(case["ranges"], case["n"])]
    rng = np.random.default_rng(case["seed"])
    data = rng.uniform(-5, 5, size=case["n"])
    g = build(case["ranges"], case["n"], data)
    lin = lambda p: case["lin"][0] + sum(c * x for c, x in zip(case["lin"][1:], p))
    gl = build(case["ranges"], case["n"],
               np.array([lin(p) for p in ref.row_major(axes)]).reshape(case["n"]))
    pts = np.array(case["pts"], float)
    # grid values at grid points
    nodes = ref.row_major(axes)
    inner = [p for p in range(len(nodes))]
    got = np.asarray(g.interpolate(nodes)).reshape(-1)
    require(
        bool(np.all(np.abs(got[inner] - data.reshape(-1)[inner]) <= 1e-7)),
        f"interpolation at the grid points gives {got.tolist()[:10]}, data is "
        f"{data.reshape(-1).tolist()[:10]}",
    )
    args = {} if case["fill"] is None else {"fill_value": case["fill"]}
    fill = np.nan if case["fill"] is None else case["fill"]
    a = np.asarray(g.interpolate(pts, "linear", **args)).reshape(-1)
    b = np.asarray(gl.interpolate(pts, **args)).reshape(-1)
    require(len(a) == len(pts), f"{len(a)} values for {len(pts)} points")
    between = False
    for p, va, vb in zip(pts, a, b):
        out = any(x < r[0] - 1e-9 or x > r[1] + 1e-9 for x, r in zip(p, case["ranges"]))
        edge = any(min(abs(x - r[0]), abs(x - r[1])) < 1e-9 for x, r in zip(p, case["ranges"]))
        if out:
            ok = (np.isnan(va) and np.isnan(vb)) if np.isnan(fill) else (va == fill and vb == fill)
            require(ok, f"outside at {p.tolist()}: {va}, {vb} instead of the fill value {fill}")
            continue
        if edge and d > 1 and not np.isfinite(fill) and np.isnan(va):
            continue
        lo, hi = ref.interpolation(axes, data, p) if not (edge and d > 1) else \
            ref.multilinear_bounds(axes, data, p)
        if d == 3 or edge:
            lo, hi = ref.multilinear_bounds(axes, data, p)
        require(
            lo - 1e-7 <= va <= hi + 1e-7,
            f"value at {p.tolist()} is {va}, expected {lo}..{hi}",
        )
        require(
            abs(vb - lin(p)) <= 1e-7 * (1 + abs(lin(p))),
            f"linear function at {p.tolist()}: {vb} instead of {lin(p)}",
        )
        between = True
    require(np.array_equal(np.asarray(g.data), data), "interpolation changed the data")
    # thinning
    s = grid.sparsify(g, list(case["max"]))
    sl = grid.sparsify(gl, list(case["max"]), "linear")
    want_n = [min(x, m) for x, m in zip(case["n"], case["max"])]
    for q in (s, sl):
        require([int(x) for x in q.n_points] == want_n, f"thinned to {q.n_points}, not {want_n}")
        require(
            np.allclose(np.array(q.ranges, float), case["ranges"], rtol=1e-12, atol=1e-12),
            f"thinning changed ranges to {q.ranges}",
        )
    new_axes = [ref.axis_points(r[0], r[1], m) for r, m in zip(case["ranges"], want_n)]
    w = np.array([lin(p) for p in ref.row_major(new_axes)]).reshape(want_n)
    require(
        np.shape(sl.data) == tuple(want_n) and bool(np.all(np.abs(sl.data - w) <= 1e-7)),
        f"thinned linear function {np.asarray(sl.data).tolist()}, expected {w.tolist()}",
    )
    if d == 1:
        w = [ref.linear_1d(axes[0], data, x) for x in new_axes[0]]
        require(bool(np.all(np.abs(s.data - w) <= 1e-7)), f"thinned data {s.data}, expected {w}")
    else:
        for p, v in zip(ref.row_major(new_axes), np.asarray(s.data).reshape(-1)):
            lo, hi = ref.multilinear_bounds(axes, data, p)
            require(lo - 1e-7 <= v <= hi + 1e-7, f"thinned value at {p} is {v}, not {lo}..{hi}")
    require(np.array_equal(np.asarray(g.data), data), "thinning changed the data")
    rec.label(f"{d}d")
    return between


@st.composite
def conv_cases(draw):
    d = draw(gen.dims)
    top = {1: 14, 2: 6, 3: 4}[d]
    small = [draw(st.integers(2, top)) for _ in range(d)]
    mode = draw(st.sampled_from(["same", "valid"]))
    if mode == "valid":
        large = [s + draw(st.integers(1, 5)) for s in small]
    else:
        large = [draw(st.integers(2, top)) for _ in range(d)]
    swap = draw(st.booleans())
    return {
        "steps": [draw(gen.dec(0.05, 1, 2)) for _ in range(d)],
        "lo1": draw(gen.vec(gen.dec(-3, 3, 1), d)),
        "lo2": draw(gen.vec(gen.dec(-3, 3, 1), d)),
        "n1": small if swap else large,
        "n2": large if swap else small,
        "mode": mode,
        "method": draw(st.sampled_from(["direct", "auto", "fft", None])),
        "seed": draw(st.integers(0, 10**6)),
    }


def full_convolution(a, b):
    out = np.zeros([x + y - 1 for x, y in zip(a.shape, b.shape)])
    for idx, v in np.ndenumerate(b):
        out[tuple(slice(i, i + n) for i, n in zip(idx, a.shape))] += v * a
    return out


@PROP.sub(
    "convolution", conv_cases(), 1200, 30000, shards=3,
    rule="convolution of two grids in both orders of size, both modes, all methods, against a "
    "direct sum, with its points; different spacing refused; always non-trivial",
)
def convolution(case, rec):
    from bdld import grid

    d = len(case["steps"])
    rng = np.random.default_rng(case["seed"])
    gs = []
    for lo, n in ((case["lo1"], case["n1"]), (case["lo2"], case["n2"])):
        r = [(a, a + (k - 1) * s) for a, k, s in zip(lo, n, case["steps"])]
        g = grid.from_stepsizes(r, list(case["steps"]))
        require([int(x) for x in g.n_points] == list(n), f"points {g.n_points} instead of {n}")
        g.data = rng.uniform(-1, 2, size=n)
        gs.append(g)
    g1, g2 = gs
    keep = [np.array(g.data) for g in gs]
    args = {} if case["method"] is None else {"method": case["method"]}
    c = grid.convolve(g1, g2, mode=case["mode"], **args)
    for g, k in zip(gs, keep):
        require(np.array_equal(np.asarray(g.data), k), "convolution changed an operand")
    full = full_convolution(*keep) * np.prod(case["steps"])
    n1, n2 = case["n1"], case["n2"]
    if case["mode"] == "same":
        want = full[tuple(slice((b - 1) // 2, (b - 1) // 2 + a) for a, b in zip(n1, n2))]
        ranges = [(a, a + (k - 1) * s) for a, k, s in zip(case["lo1"], n1, case["steps"])]
        n = n1
    else:
        big_first = all(a >= b for a, b in zip(n1, n2))
        nl, ns, lol = (n1, n2, case["lo1"]) if big_first else (n2, n1, case["lo2"])
        want = full[tuple(slice(s - 1, l) for s, l in zip(ns, nl))]
        n = [l - s + 1 for s, l in zip(ns, nl)]
        off = [(s - 1) / 2 * h for s, h in zip(ns, case["steps"])]
        ranges = [(a + o, a + (l - 1) * h - o)
                  for a, o, l, h in zip(lol, off, nl, case["steps"])]
    require([int(x) for x in c.n_points] == list(n), f"{c.n_points} points, expected {n}")
    require(
        np.allclose(np.array(c.ranges, float), ranges, rtol=1e-9, atol=1e-9),
        f"ranges {c.ranges}, expected {ranges}",
    )
    require(
        np.allclose(c.stepsizes, case["steps"], rtol=1e-7), f"steps became {c.stepsizes}"
    )
    require(
        np.shape(c.data) == want.shape
        and bool(np.all(np.abs(c.data - want) <= 1e-9 * np.prod(case["n1"]) + 1e-9)),
        f"{case['mode']}: {np.asarray(c.data).tolist()}, expected {want.tolist()}",
    )
    # different spacing
    i = case["seed"] % d
    steps = list(case["steps"])
    steps[i] = steps[i] * 1.5
    r = [(a, a + (k - 1) * s) for a, k, s in zip(case["lo2"], case["n2"], steps)]
    g3 = grid.from_stepsizes(r, steps)
    g3.data = np.ones([int(x) for x in g3.n_points])
    try:
        grid.convolve(g1, g3, mode="same")
    except Exception:
        pass
    else:
        require(False, f"spacings {case['steps']} and {steps} were accepted")
    rec.label(case["mode"], f"{d}d", str(case["method"]))
    return True
