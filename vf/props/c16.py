"""C16: grid values belong to the right points; element-wise arithmetic"""
import json
import operator

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Property, require

PROP = Property(
    "C16", assumptions=["grids have at least two points per dimension",
                        "coordinates are compared to 1e-9 of the range"],
)


@st.composite
def shapes(draw):
    d = draw(gen.dims)
    n = [draw(st.integers(2, {1: 12, 2: 6, 3: 5}[d])) for _ in range(d)]
    return {"ranges": draw(gen.rng_ranges(d)), "n": n}


def make(c):
    from bdld import grid

    return grid.from_npoints([tuple(r) for r in c["ranges"]], list(c["n"]))


def axes_of(c):
    return [ref.axis_points(r[0], r[1], n) for r, n in zip(c["ranges"], c["n"])]


def func(p):
    """Different at every point and in every dimension"""
    return sum((k + 1.3) * float(x) + 0.37 * (k + 1) * float(x) ** 2 for k, x in enumerate(p))


@st.composite
def point_cases(draw):
    c = draw(shapes())
    c["hist"] = draw(st.integers(0, 3)) == 0
    c["writes"] = [
        [[draw(st.integers(0, n - 1)) for n in c["n"]], draw(gen.dec(-9, 9, 1))]
        for _ in range(draw(st.integers(0, 3)))
    ]
    return c


@PROP.sub(
    "points", point_cases(), 900, 25000, shards=3,
    rule="order of points() against axes and data, set_from_func, item access, for grids and "
    "histograms; non-trivial: 2 or more dimensions with different numbers of points",
)
def points(case, rec):
    from bdld.histogram import Histogram

    if case["hist"]:
        g = Histogram(list(case["n"]), [tuple(r) for r in case["ranges"]])
        axes = ref.HistModel(case["n"], case["ranges"]).midpoints()
    else:
        g = make(case)
        axes = axes_of(case)
    width = max(r[1] - r[0] for r in case["ranges"])
    got_axes = g.axes()
    require(len(got_axes) == len(axes), "number of axes")
    for a, b in zip(got_axes, axes):
        require(
            np.shape(a) == np.shape(b) and bool(np.all(np.abs(a - b) <= 1e-9 * width)),
            f"axis {a}, expected {b}",
        )
    for r, n, s in zip(case["ranges"], case["n"], g.stepsizes):
        want = (r[1] - r[0]) / (n if case["hist"] else n - 1)
        require(abs(s - want) <= 1e-9 * want, f"step size {s}, expected {want}")
    pts = np.asarray(g.points(), float)
    want = ref.row_major(axes)
    require(pts.shape == want.shape, f"points() has shape {pts.shape}, expected {want.shape}")
    require(
        bool(np.all(np.abs(pts - want) <= 1e-9 * width)),
        f"points() are not in row-major order: {pts[:6].tolist()}",
    )
    g.set_from_func(func)
    require(np.shape(g.data) == tuple(case["n"]), f"data has shape {np.shape(g.data)}")
    for idx in np.ndindex(*case["n"]):
        x = [a[i] for a, i in zip(axes, idx)]
        require(
            abs(g[idx] - func(x)) <= 1e-6 * (1 + abs(func(x))),
            f"value at {idx} is {g[idx]}, the function at {x} is {func(x)}",
        )
    model = np.array(g.data, float).copy()
    for idx, v in case["writes"]:
        g[tuple(idx)] = v
        model[tuple(idx)] = v
        require(np.array_equal(np.asarray(g.data), model), f"setting {idx} to {v}")
        require(g[tuple(idx)] == v, f"reading {idx}")
    # flat data is put into the grid in row-major order
    flat = np.arange(float(np.prod(case["n"])))
    g.data = flat
    require(np.array_equal(np.asarray(g.data).reshape(-1), flat), "flat data was reordered")
    for wrong in (flat[:-1], np.append(flat, 1.0)):
        try:
            g.data = wrong
        except Exception:
            pass
        else:
            require(False, f"{len(wrong)} values were accepted for {len(flat)} points")
        require(
            np.shape(g.data) == tuple(case["n"])
            and np.array_equal(np.asarray(g.data).reshape(-1), flat),
            "data of the wrong size changed the grid",
        )
    rec.label(f"{len(case['n'])}d", "histogram" if case["hist"] else "grid")
    return len(set(case["n"])) > 1


BINARY = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
    "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow,
    "radd": lambda a, b: b + a, "rmul": lambda a, b: b * a,
}
UNARY = {"neg": operator.neg, "pos": operator.pos, "exp": np.exp, "log": np.log}


@st.composite
def arith_cases(draw):
    c = draw(shapes())
    c["seed"] = draw(st.integers(0, 10**6))
    c["ints"] = draw(st.booleans())
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 3)) == 0:
            ops.append([draw(st.sampled_from(sorted(UNARY))), None, None])
            continue
        name = draw(st.sampled_from(sorted(BINARY)))
        kind = draw(st.sampled_from(["int", "float", "array", "row", "grid", "grid", "self"]))
        if name.startswith("r"):
            kind = draw(st.sampled_from(["int", "float", "grid"]))
        val = draw(st.integers(-3, 4)) if kind == "int" else draw(gen.dec(-3, 3, 1))
        if kind in ("array", "row", "grid"):
            val = draw(st.integers(0, 10**6))
        ops.append([name, kind, val])
    c["ops"] = ops
    c["bad"] = draw(st.sampled_from(["n", "range", "dim", "str", "list", "none", "range1", "shift", "swap", "tiny"]))
    return c


def snapshot(g):
    return (
        np.array(g.data, float).copy(), [tuple(map(float, r)) for r in g.ranges],
        [int(n) for n in g.n_points], [float(s) for s in g.stepsizes],
    )


def unchanged(g, snap, what):
    new = snapshot(g)
    require(
        np.array_equal(new[0], snap[0], equal_nan=True) and new[1:] == snap[1:],
        f"{what} changed an operand",
    )


def check_copy(g, case):
    """An empty copy has the same points and nothing in common with the original"""
    snap = snapshot(g)
    c = g.copy_empty()
    require(
        [int(n) for n in c.n_points] == case["n"]
        and [tuple(map(float, r)) for r in c.ranges] == snap[1],
        f"empty copy has {c.n_points} points in {c.ranges}",
    )
    c.data = np.full(case["n"], 7.0)
    unchanged(g, snap, "data of the empty copy")
    for name, new in (("ranges", (-55.0, 55.0)), ("n_points", 3), ("stepsizes", 0.125)):
        attr = getattr(c, name)
        if isinstance(attr, (list, np.ndarray)):
            attr[0] = new
            unchanged(g, snap, f"changing {name} of the empty copy")


@PROP.sub(
    "arithmetic", arith_cases(), 1500, 40000, shards=4,
    rule="chains of operations against numpy on the data; operands unchanged, results "
    "independent; grids over other points and unsupported operands refused; equality; always non-trivial",
)
def arithmetic(case, rec):
    from bdld import grid

    rng = np.random.default_rng(case["seed"])
    g = make(case)
    model = rng.uniform(0.2, 3, size=case["n"])
    if case["ints"]:
        model = np.round(model * 2) + 1
    g.data = model.copy()
    steps = [(r[1] - r[0]) / (n - 1) for r, n in zip(case["ranges"], case["n"])]
    for name, kind, val in case["ops"]:
        snap = snapshot(g)
        if kind is None:
            new = UNARY[name](g)
            model = UNARY[name](model)
            other, osnap = None, None
        else:
            osnap = None
            if kind in ("int", "float"):
                other = mo = val
            elif kind == "array":
                other = mo = np.random.default_rng(val).uniform(-2, 2, size=case["n"])
            elif kind == "row":
                other = mo = np.random.default_rng(val).uniform(-2, 2, size=case["n"][-1:])
            elif kind == "grid":
                other = make(case)
                mo = np.random.default_rng(val).uniform(-2, 2, size=case["n"])
                other.data = mo.copy()
                osnap = snapshot(other)
            else:
                other, mo = g, model
            keep = np.array(other, copy=True) if isinstance(other, np.ndarray) else None
            new = BINARY[name](g, other)
            model = BINARY[name](model, mo)
            if osnap:
                unchanged(other, osnap, name)
                require(not np.shares_memory(new.data, other.data), f"{name} shares data")
            if keep is not None:
                require(np.array_equal(other, keep), f"{name} changed the array")
        what = f"{name} with {kind} {val}"
        require(isinstance(new, grid.Grid), f"{what}: result is {type(new)}")
        require(new is not g, f"{what} returned the operand itself")
        unchanged(g, snap, what)
        require(not np.shares_memory(new.data, g.data), f"{what}: result shares its data")
        got = np.asarray(new.data, float)
        require(
            got.shape == model.shape
            and bool(np.all((got == model) | (np.isnan(got) & np.isnan(model))
                            | (np.abs(got - model) <= 1e-12 * np.abs(model)))),
            f"{what}: {got.tolist()}, expected {model.tolist()}",
        )
        require(
            [int(n) for n in new.n_points] == case["n"]
            and np.allclose(np.array(new.ranges, float), case["ranges"], rtol=1e-12, atol=0)
            and np.allclose(new.stepsizes, steps, rtol=1e-9),
            f"{what}: points changed to {new.n_points} {new.ranges} {new.stepsizes}",
        )
        g = new
    check_copy(g, case)
    # independence of the result from the operands' description
    bad = case["bad"]
    c2 = {"ranges": [list(r) for r in case["ranges"]], "n": list(case["n"])}
    if bad == "n":
        c2["n"][-1] += 1
        other = make(c2)
    elif bad == "range":
        c2["ranges"][-1][1] += 0.5
        other = make(c2)
    elif bad == "tiny":  # much less than a spacing, but other points
        c2["ranges"][-1][1] = c2["ranges"][-1][1] + 1e-9 * (1 + abs(c2["ranges"][-1][1]))
        other = make(c2)
    elif bad == "range1":
        c2["ranges"][0][0] -= 0.25
        other = make(c2)
    elif bad == "shift":  # same number of points and spacing
        k = case["seed"] % len(c2["n"])
        c2["ranges"][k] = [float(np.ceil(c2["ranges"][k][0])) + s for s in (0, 1)]
        c2["n"][k] = 5
        case = dict(case, n=list(c2["n"]), ranges=[list(r) for r in c2["ranges"]])
        g = make(case)
        g.data = model = np.ones(case["n"])
        c2["ranges"][k] = [x + 2.0 for x in c2["ranges"][k]]
        other = make(c2)
    elif bad == "swap" and len(c2["n"]) > 1:  # same points in another order of dimensions
        lo, hi = c2["ranges"][0]
        c2 = {"ranges": [[lo, hi], [lo - 1, hi]] + c2["ranges"][2:], "n": [3, 3] + c2["n"][2:]}
        g = make(c2)
        g.data = model = np.ones(c2["n"])
        case = dict(case, **json.loads(json.dumps(c2)))
        c2["ranges"][:2] = [c2["ranges"][1], c2["ranges"][0]]
        other = make(c2)
    elif bad in ("dim", "swap"):
        if len(c2["n"]) == 1:
            c2 = {"ranges": c2["ranges"] * 2, "n": c2["n"] * 2}
        else:
            c2 = {"ranges": c2["ranges"][:-1], "n": c2["n"][:-1]}
        other = make(c2)
    else:
        other = {"str": "1", "list": [1.0], "none": None}[bad]
    if isinstance(other, grid.Grid):
        other.data = np.ones(c2["n"])
        # data that numpy could combine anyway
    snap = snapshot(g)
    for name in ("add", "sub", "mul", "div", "pow"):
        try:
            BINARY[name](g, other)
        except Exception:
            pass
        else:
            require(False, f"{name} of a grid and {bad} ({other}) was not refused")
    unchanged(g, snap, "refused operation")
    # equality: same points and same data
    same = make(case)
    same.data = np.array(g.data, copy=True)
    if not np.any(np.isnan(model)):
        require((g == same) is True or bool(g == same), "a grid differs from its copy")
        require(not g != same, "a grid is unequal to its copy")
    if isinstance(other, grid.Grid):
        if c2["n"] == case["n"]:
            other.data = np.array(g.data, copy=True)
    require(not g == other, f"a grid equals {bad} ({other})")
    require(g != other, f"a grid is not unequal to {bad} ({other})")
    k = case["seed"] % same.data.size
    flat = np.array(g.data, float).reshape(-1)
    flat[k] = -17.25 if flat[k] != -17.25 else 3.5
    same.data = flat
    require(not g == same, "grids with different data are equal")
    flat = np.array(g.data, float).reshape(-1)
    flat[k] = np.nextafter(flat[k], 1e300)  # data is the same only if it is exactly the same
    if np.isfinite(flat[k]):
        same.data = flat
        require(not g == same, "grids with (slightly) different data are equal")
    rec.label(f"{len(case['n'])}d", bad)
    return True
