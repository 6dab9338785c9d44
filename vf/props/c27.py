"""C27: grid files round-trip"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import whole
from core import Property, ScratchDir, require

PROP = Property(
    "C27",
    assumptions=["grids have at least two points, histograms at least one bin per dimension"],
)

FMTS = ["%.18e", "%14.9f", "%.17g", "%12.6f", "%.8e", "%.3f", "%20.12E", "%+.9f", "%g"]
HEADERS = ["#! FIELDS x fes", "#! FIELDS a b\n#! SET k 1\n#! SET l two words", "# x", "", None]

values = st.one_of(
    gen.dec(-100, 100, 3),
    st.floats(allow_nan=False, allow_infinity=True, width=64).filter(
        lambda v: v == 0 or not 0 < abs(v) < 1e-300),
    st.sampled_from([0.0, -0.0, float("inf"), float("-inf"), 1e-12, 1e300, 123456789.123456789]),
)


@st.composite
def cases(draw):
    d = draw(gen.dims)
    hist = draw(st.booleans())
    lo = 1 if hist else 2
    n = [draw(st.integers(lo, {1: 20, 2: 6, 3: 4}[d])) for _ in range(d)]
    size = int(np.prod(n))
    case = {
        "hist": hist,
        "n": n,
        "ranges": draw(gen.rng_ranges(d, -4, 4, 0.3, 5)),
        "fmt": draw(st.sampled_from(FMTS)),
        "header": draw(st.sampled_from(HEADERS)),
        "how": draw(st.sampled_from(["data", "func", "add", "fes"])) if hist else
        draw(st.sampled_from(["data", "data", "func", "op"])),
        "old": draw(st.booleans()),
    }
    case["data"] = draw(st.lists(values, min_size=size, max_size=size)) \
        if case["how"] in ("data", "op") else []
    case["seed"] = draw(st.integers(0, 10**6))
    return case


def mk(case):
    """(grid, expected axes, expected data)"""
    from bdld import grid
    from bdld.histogram import Histogram

    n, ranges = case["n"], case["ranges"]
    rng = np.random.default_rng(case["seed"])
    if case["hist"]:
        g = Histogram(list(n), [tuple(r) for r in ranges])
        axes = ref.HistModel(n, ranges).midpoints()
    else:
        g = grid.from_npoints([tuple(r) for r in ranges], list(n))
        axes = [ref.axis_points(r[0], r[1], m) for r, m in zip(ranges, n)]
    pts = ref.row_major(axes)
    if case["how"] in ("data", "op"):
        want = np.array(case["data"], float).reshape(n)
        g.data = want.copy("F") if case["seed"] % 3 == 0 else want.copy()
        if case["how"] == "op":
            g = g + 1.0
            want = want + 1.0
    elif case["how"] == "func":
        c = rng.uniform(-2, 2, size=len(n) + 1)
        f = lambda x: float(c[0] + sum(a * b for a, b in zip(c[1:], np.atleast_1d(x))))
        g.set_from_func(f)
        want = np.array([f(p) for p in pts]).reshape(n)
        require(
            bool(np.all(np.abs(np.asarray(g.data).reshape(n) - want) <= 1e-9)),
            "values are not the function at the points",
        )
        want = np.array(g.data, float).reshape(n)
    else:
        lo, hi = np.array(ranges).T
        g.add(rng.uniform(lo, hi, size=(rng.integers(0, 30), len(n))))
        want = np.array(g.data, float)
        if case["how"] == "fes":
            from bdld.actions.fes_action import calculate_fes

            g = calculate_fes(g, 1.5)
            want = whole.fes_of(want, 1.5)
            require(
                bool(np.all((np.asarray(g.data) == want) | (np.abs(g.data - want) < 1e-9))),
                "free energy",
            )
            want = np.array(g.data, float)
    return g, axes, want


@PROP.sub(
    "roundtrip", cases(), 2200, 60000, shards=7,
    rule="grids and histograms (data set directly, from functions, arithmetic, counts, surfaces; "
    "infinite, huge and tiny values) written in several formats and read back; non-trivial: more "
    "than one dimension",
)
def roundtrip(case, rec):
    g, axes, want = mk(case)
    d = len(case["n"])
    fmt = case["fmt"]
    before = np.array(g.data, float).copy()
    with ScratchDir() as path:
        name = os.path.join(path, "grid file.dat")
        if case["old"]:
            with open(name, "w") as f:
                f.write("old content\n" * 500)
        if case["header"] is None:
            g.write_to_file(name, fmt)
        else:
            g.write_to_file(name, fmt, case["header"])
        require(os.listdir(path) == ["grid file.dat"], f"files {os.listdir(path)}")
        with open(name) as f:
            text = f.read()
    require(
        np.array_equal(before, np.array(g.data, float), equal_nan=True), "writing changed the grid"
    )
    lines = text.split("\n")
    require(lines[-1] == "", "last line is not terminated")
    lines.pop()
    head = (case["header"] or "").split("\n") if case["header"] else []
    require(lines[: len(head)] == head, f"file starts with {lines[:3]}, the header is {head}")
    body = lines[len(head):]
    if not head and body and body[0] == "":
        body = body[1:]  # empty header
    while body and body[-1] == "":
        body.pop()
    blocks, cur = [], []
    for x in body:
        if x.strip() == "":
            blocks.append(cur)
            cur = []
        else:
            cur.append(x.split())
    blocks.append(cur)
    n = case["n"]
    if d == 2:
        require(
            [len(b) for b in blocks] == [n[1]] * n[0],
            f"blocks of {[len(b) for b in blocks]} rows for {n} points",
        )
    elif d == 1:
        require(len(blocks) == 1, "empty lines in a one-dimensional file")
    else:
        blocks = [b for b in blocks if b]
    rows = [r for b in blocks for r in b]
    size = int(np.prod(n))
    require(len(rows) == size, f"{len(rows)} rows for {size} points")
    got = whole.numbers(rows, d + 1, "file")
    pts = ref.row_major(axes)
    r, a = whole.tolerance(fmt.replace("E", "e"))
    ok = np.abs(got[:, :d] - pts) <= (r + 1e-11) * np.abs(pts) + a + 1e-11
    if not np.all(ok):
        i = int(np.argwhere(~ok)[0][0])
        require(False, f"row {i} has the coordinates {got[i, :d].tolist()}, expected "
                       f"{pts[i].tolist()}")
    flat = want.reshape(-1)
    for i, row in enumerate(rows):
        require(
            row[d] == (fmt % flat[i]).strip(),
            f"row {i} at {pts[i].tolist()} has the value {row[d]}, stored is {flat[i]} "
            f"({(fmt % flat[i]).strip()})",
        )
    rec.label(f"{d}d", "histogram" if case["hist"] else "grid", case["how"])
    return d > 1
