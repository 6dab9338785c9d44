"""C03: polynomial potentials, exact energy and force = minus its gradient"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import sim
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C03", assumptions=["comparison to 1e-10 of the sum of the absolute monomials"]
)

TOL = 1e-10


def near(got, want, scale):
    return abs(got - want) <= TOL * scale + 1e-290


def check_energy(pot, coeffs, pos, how="energy"):
    want, scale = ref.poly_energy(coeffs, pos)
    got = pot.energy(pos)
    require(np.ndim(got) == 0, f"energy has shape {np.shape(got)}")
    require(near(float(got), want, scale), f"energy({pos}) = {got}, expected {want}")


def check_force(pot, coeffs, pos):
    want, scale = ref.poly_force(coeffs, pos)
    got = np.asarray(pot.force(pos), dtype=float)
    require(got.shape == (len(want),), f"force has shape {got.shape}")
    for d, (g, w, s) in enumerate(zip(got, want, scale)):
        require(near(g, w, s), f"force({pos})[{d}] = {g}, expected {w}")


position = st.one_of(
    gen.dec(-3, 3, 2), st.sampled_from([0.0, 1.0, -1.0]), st.floats(-40, 40), gen.dec(-3, 3, 2)
)
coeff = st.one_of(st.just(0.0), gen.dec(-3, 3, 2), gen.dec(-3, 3, 2), st.floats(-1e6, 1e6))


@st.composite
def eval_cases(draw):
    d = draw(gen.dims)
    if draw(st.integers(0, 4)) == 0:  # high orders, most coefficients zero
        shape = [draw(st.integers(1, {1: 16, 2: 9, 3: 6}[d])) for _ in range(d)]
        a = np.zeros(shape)
        for _ in range(draw(st.integers(1, 4))):
            a[tuple(draw(st.integers(0, n - 1)) for n in shape)] = draw(coeff)
        coeffs = a.tolist()
    else:
        coeffs = draw(gen.coeff_arrays(d, 6 if d == 1 else 4, coeff))
    return {
        "coeffs": coeffs,
        "ranges": draw(st.one_of(st.none(), gen.rng_ranges(d))),
        "points": [draw(gen.vec(position, d)) for _ in range(draw(st.integers(1, 3)))],
        "as_array": draw(st.booleans()),
        "int_coeffs": draw(st.integers(0, 5)) == 0,
    }


@PROP.sub(
    "evaluate", eval_cases(), 2500, 60000, shards=3,
    rule="random coefficient arrays (order 0..6, sparse ones up to 15, 1-3 dims) and positions; non-trivial: "
    "a non-zero force",
)
def evaluate(case, rec):
    from bdld.potential.polynomial import PolynomialPotential

    coeffs = np.array(case["coeffs"], dtype=float)
    if case["int_coeffs"]:
        coeffs = np.round(coeffs).astype(int)
    given = coeffs.tolist() if not case["as_array"] else coeffs.copy()
    ranges = [tuple(r) for r in case["ranges"]] if case["ranges"] else None
    pot = PolynomialPotential(given, ranges)
    require(pot.n_dim == coeffs.ndim, f"n_dim {pot.n_dim} instead of {coeffs.ndim}")
    ref_c = coeffs.astype(float)
    nonzero = False
    for p in case["points"]:
        pos = np.array(p, dtype=float) if case["as_array"] else list(p)
        before = list(map(float, p))
        for _ in range(2):  # repeated evaluation must not change anything
            check_energy(pot, ref_c, pos)
            check_force(pot, ref_c, pos)
            e, f = pot.evaluate(pos)
            require(
                np.allclose(float(e), float(pot.energy(pos)), rtol=1e-12, atol=1e-290)
                and np.allclose(
                    np.asarray(f, float), np.asarray(pot.force(pos), float), rtol=1e-12,
                    atol=1e-290,
                ),
                "evaluate() differs from energy() and force()",
            )
            require([float(x) for x in pos] == before, "the position was changed")
        nonzero = nonzero or any(ref.poly_force(ref_c, p)[0])
    if isinstance(given, np.ndarray):
        require(np.array_equal(given, coeffs), "the coefficients were changed")
        given += 3  # the caller may reuse its array for the next potential
        for p in case["points"]:
            check_energy(pot, ref_c, p)
            check_force(pot, ref_c, p)
    rec.label(f"{coeffs.ndim}d", f"shape {coeffs.shape}" if coeffs.size < 3 else "larger")
    return nonzero


@st.composite
def file_cases(draw):
    d = draw(gen.dims)
    top = draw(st.sampled_from([{1: 6, 2: 4, 3: 3}, {1: 14, 2: 9, 3: 6}]))[d]
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, {1: 6, 2: 20, 3: 40}[d])))
    idx = draw(
        st.lists(st.tuples(*[st.integers(0, top)] * d), min_size=n, max_size=n, unique=True)
    )
    if draw(st.integers(0, 7)) == 0:  # all coefficients of a box, in any order
        box = [draw(st.integers(2, {1: 15, 2: 12, 3: 6}[d])) for _ in range(d)]
        order = np.random.default_rng(draw(st.integers(0, 999)))
        idx = [tuple(int(k) for k in i) for i in order.permutation(list(np.ndindex(*box)))]
        rows = [
            {"idx": list(i), "c": round(float(order.normal()), 2), "fmt": "%r"} for i in idx
        ]
        n = len(rows)
    else:
        rows = None
    rows = rows or [
        {
            "idx": list(i),
            "c": draw(st.one_of(gen.dec(-3, 3, 2), st.just(0.0), st.floats(-1e3, 1e3))),
            "fmt": draw(st.sampled_from(["%r", "%.16e", "%+.17g"])),
        }
        for i in idx
    ]
    return {
        "n_dim": d,
        "rows": rows,
        "extra": draw(st.sampled_from([0, 1, 2])),  # extra columns in all rows
        "comments": (draw(gen.vec(st.booleans(), min(n, 40) + 1)) * n)[: n + 1],
        "sep": draw(st.sampled_from([" ", "    ", "\t"])),
        "lead": draw(st.sampled_from(["", "   "])),
        "points": [draw(gen.vec(gen.dec(-2, 2, 2), d)) for _ in range(2)],
    }


def file_text(case):
    lines = []
    if case["comments"][0]:
        lines.append("#! FIELDS idx_dim1 pot.coeffs index description")
        lines.append("#! SET type LinearBasisSet")
    for k, row in enumerate(case["rows"]):
        cols = [str(i) for i in row["idx"]] + [row["fmt"] % row["c"]]
        cols += [str(k), "1*s^2"][: case["extra"]]
        lines.append(case["lead"] + case["sep"].join(cols))
        if case["comments"][k + 1]:
            lines.append("#!-------------------")
    return "\n".join(lines) + "\n"


def file_coeffs(case):
    shape = [max(r["idx"][d] for r in case["rows"]) + 1 for d in range(case["n_dim"])]
    a = np.zeros(shape)
    for r in case["rows"]:
        a[tuple(r["idx"])] = r["c"]
    return a


@PROP.sub(
    "file", file_cases(), 1200, 25000, shards=2,
    rule="coefficient files with random row order, comments and extra columns; "
    "non-trivial: more than one coefficient",
)
def from_file(case, rec):
    from bdld.potential.polynomial import PolynomialPotential, coefficients_from_file

    with ScratchDir() as path:
        name = os.path.join(path, "c.dat")
        with open(name, "w") as f:
            f.write(file_text(case))
        got = coefficients_from_file(name, case["n_dim"])
    coeffs = file_coeffs(case)
    pot = PolynomialPotential(got)
    require(pot.n_dim == case["n_dim"], f"potential has {pot.n_dim} dimensions")
    for p in case["points"]:
        check_energy(pot, coeffs, p)
        check_force(pot, coeffs, p)
    rec.label("one row" if len(case["rows"]) == 1 else "several rows")
    return len(case["rows"]) > 1


@st.composite
def input_cases(draw):
    fc = draw(file_cases())
    d = fc["n_dim"]
    direct = d == 1 and draw(st.booleans())
    if direct:
        fc["coeffs"] = draw(gen.vec(gen.dec(-3, 3, 2), draw(st.integers(1, 13))))
    fc["direct"] = direct
    fc["ranges"] = draw(gen.rng_ranges(d, -2, 2, 0.5, 3))
    fc["overdamped"] = draw(st.booleans())
    fc["pos"] = [draw(gen.vec(gen.dec(-2, 2, 2), d)) for _ in range(2)]
    return fc


@PROP.sub(
    "program", input_cases(), 250, 5000, shards=3,
    rule="potentials specified in the input file (directly or by file); energies and "
    "forces of the particles after set-up and one step; always non-trivial",
)
def program(case, rec):
    d = case["n_dim"]
    lst = (lambda v: v[0]) if d == 1 else list
    secs = {
        "ld": {"type": "overdamped", "timestep": 1e-4, "n_steps": 1, "seed": 3},
        "potential": {"type": "polynomial", "n_dim": d,
                      "min": lst([r[0] for r in case["ranges"]]),
                      "max": lst([r[1] for r in case["ranges"]])},
        "particles": {"number": 2, "initial-distribution": "fractions-pos",
                      "pos1": case["pos"][0], "pos2": case["pos"][1], "fractions": [1, 1]},
    }
    if not case["overdamped"]:
        secs["ld"].update({"type": "bussi-parinello", "kt": 1.0, "friction": 1.0})
    with ScratchDir() as path:
        if case["direct"]:
            secs["potential"]["coeffs"] = case["coeffs"]
            coeffs = np.array(case["coeffs"], dtype=float)
        else:
            secs["potential"]["coeffs-file"] = "c.dat"
            coeffs = file_coeffs(case)
            with open(os.path.join(path, "c.dat"), "w") as f:
                f.write(file_text(case))
        res = whole.run({"sections": secs, "coeffs": None}, path)
        for s in res.states:
            for p, e, f in zip(s["pos"], s["energy"], s["forces"]):
                want, scale = ref.poly_energy(coeffs, p)
                require(near(e, want, scale), f"energy at {p} is {e}, expected {want}")
                wf, sf = ref.poly_force(coeffs, p)
                require(len(f) == d, "wrong number of forces")
                require(
                    all(near(a, b, c) for a, b, c in zip(f, wf, sf)),
                    f"forces at {p} are {f}, expected {wf}",
                )
    rec.label("direct" if case["direct"] else "file", f"{d}d")
    return True
