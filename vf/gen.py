"""Strategies shared by the property modules; all produce plain JSON values"""
from hypothesis import strategies as st

import numpy as np


def dec(lo, hi, digits=2):
    """Decimal numbers with few digits; shrinks to small integers"""
    f = 10**digits
    return st.integers(round(lo * f), round(hi * f)).map(lambda k: k / f)


def vec(elem, n):
    return st.lists(elem, min_size=n, max_size=n)


dims = st.sampled_from([1, 1, 2, 2, 3])


@st.composite
def rng_ranges(draw, n_dim, lo=-5.0, hi=5.0, min_len=0.2, max_len=6.0):
    res = []
    for _ in range(n_dim):
        a = draw(dec(lo, hi, 1))
        length = draw(dec(min_len, max_len, 1))
        res.append([a, round(a + length, 6)])
    return res


@st.composite
def nested(draw, shape, elem):
    if len(shape) == 1:
        return draw(vec(elem, shape[0]))
    return [draw(nested(shape[1:], elem)) for _ in range(shape[0])]


@st.composite
def coeff_arrays(draw, n_dim=None, max_order=4, elem=None):
    n_dim = n_dim or draw(dims)
    top = {1: max_order, 2: min(max_order, 4), 3: min(max_order, 2)}[n_dim]
    shape = [draw(st.integers(1, top + 1)) for _ in range(n_dim)]
    elem = elem or st.one_of(st.just(0.0), dec(-3, 3, 2), dec(-3, 3, 2))
    return draw(nested(shape, elem))


# --- confining potentials for dynamics -----------------------------------------------


@st.composite
def confining(draw, n_dim=None, bc=True, wide=True, mueller=True):
    """Potential that keeps particles in reasonable regions, as potential JSON"""
    kind = draw(st.integers(0, 7)) if (mueller and n_dim in (None, 2)) else 0
    bcv = draw(st.sampled_from([None, None, "reflective", "periodic"])) if bc else None
    if kind == 7:
        return {
            "type": "mueller-brown",
            "n_dim": 2,
            "scaling": draw(st.sampled_from([None, 0.05, 0.1, 0.02])),
            "bc": bcv if bc else None,
            "ranges": [[-1.5, 1.5], [-0.5, 2.5]],
        }
    n_dim = n_dim or draw(dims)
    small = st.one_of(st.just(0.0), dec(-1, 1, 1))
    if n_dim == 1:
        c = [draw(small), draw(small), draw(dec(-2, 2, 1)), draw(dec(-0.3, 0.3, 1)),
             draw(dec(0.2, 1.0, 1))]
        coeffs = c
    elif n_dim == 2:
        a = np.zeros((5, 5))
        a[4, 0] = draw(dec(0.2, 1.0, 1))
        a[0, 4] = draw(dec(0.2, 1.0, 1))
        for i, j in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)]:
            a[i, j] = draw(small)
        coeffs = a.tolist()
    else:
        a = np.zeros((3, 3, 3))
        a[2, 0, 0] = draw(dec(0.5, 2, 1))
        a[0, 2, 0] = draw(dec(0.5, 2, 1))
        a[0, 0, 2] = draw(dec(0.5, 2, 1))
        for idx in [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1)]:
            a[idx] = draw(dec(-0.3, 0.3, 1))
        coeffs = a.tolist()
    ranges = []
    for _ in range(n_dim):
        lo = draw(dec(-2.5, -0.5, 1))
        hi = draw(dec(0.5, 2.5, 1))
        ranges.append([lo, hi])
    return {"type": "polynomial", "n_dim": n_dim, "coeffs": coeffs, "ranges": ranges,
            "bc": bcv}


def mk_pot(j):
    """Potential object of the code under test from potential JSON"""
    from bdld.potential import mueller_brown, polynomial
    from bdld.potential.potential import BoundaryCondition

    if j["type"] == "mueller-brown":
        pot = mueller_brown.MuellerBrownPotential(j["scaling"])
    else:
        pot = polynomial.PolynomialPotential(
            np.array(j["coeffs"], dtype=float), [tuple(r) for r in j["ranges"]]
        )
    if j.get("bc") == "reflective":
        pot.boundary_condition = BoundaryCondition.reflective
    elif j.get("bc") == "periodic":
        pot.boundary_condition = BoundaryCondition.periodic
    return pot


@st.composite
def inside(draw, ranges, digits=3):
    """Point inside the ranges, sometimes on the bounds"""
    res = []
    for lo, hi in ranges:
        k = draw(st.integers(0, 9))
        if k == 0:
            res.append(lo)
        elif k == 1:
            res.append(hi)
        else:
            f = 10**digits
            res.append(round(lo + (hi - lo) * draw(st.integers(0, f)) / f, 9))
    return res
