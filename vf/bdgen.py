"""Generated birth-death situations"""
import numpy as np
from hypothesis import strategies as st

import gen


@st.composite
def situations(draw, n_dim=None, min_n=1, max_n=12, variants=("original", "additive",
               "multiplicative"), rates=(1.0, 5.0, 50.0), recalc=None, far=True,
               energies=True, dens_points=None, aligned=False):
    d = n_dim or draw(st.sampled_from([1, 1, 2, 2, 3]))
    n = draw(st.integers(min_n, max_n))
    lo, hi = draw(st.sampled_from([(-1.0, 1.0), (0.0, 2.0), (-2.0, 1.0)]))
    ranges = [[lo, hi]] + draw(gen.rng_ranges(d - 1, -2, 1, 1.0, 3.0)) if d > 1 else [[lo, hi]]
    pos = []
    for i in range(n):
        k = draw(st.integers(0, 9))
        if k == 0 and pos:
            pos.append(list(pos[draw(st.integers(0, len(pos) - 1))]))  # coinciding
        elif k == 1 and far:
            pos.append([round(r[0] + (r[1] - r[0]) * draw(st.sampled_from([-30, 2, 8, 1.3])), 3)
                        for r in ranges])
        else:
            pos.append(draw(gen.inside(ranges, 2)))
    variant = draw(st.sampled_from(list(variants)))
    dens_n = dens_points or {1: 41, 2: 13, 3: 6}[d]
    ene = gen.dec(-3, 3, 2)
    if energies == "large" and draw(st.integers(0, 3)) == 0:
        ene = st.one_of(ene, gen.dec(-900, 900, 1))
    case = {
        "n_dim": d,
        "ranges": ranges,
        "pos": pos,
        "mom": [draw(gen.vec(gen.dec(-1, 1, 1), d)) for _ in range(n)],
        "mass": [draw(st.sampled_from([1.0, 1.0, 0.5, 2.5])) for _ in range(n)],
        "energy": [draw(ene) for _ in range(n)] if energies else [0.0] * n,
        "bw": [draw(gen.dec(0.1, 0.8, 2)) for _ in range(d)],
        "kt": draw(st.sampled_from([1.0, 0.5, 2.0, 0.3])),
        "dt": draw(st.sampled_from([0.01, 0.005, 0.1])),
        "stride": draw(st.one_of(st.integers(1, 20), st.integers(1, 20), st.sampled_from([150, 4000]))),
        "rate": draw(st.sampled_from(list(rates))),
        "recalc": draw(st.booleans()) if recalc is None else recalc,
        "variant": variant,
        "dens": {"n": dens_n, "coef": draw(gen.vec(gen.dec(-1, 1, 1), 3))},
        "overdamped": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
    }
    return case


def expand(case):
    """Situation with case["number"] particles spread around the range of the given ones"""
    n, d = case["number"], case["n_dim"]
    rng = np.random.default_rng(case["seed"] + 99)
    lo, hi = np.array(case["ranges"], dtype=float).T
    pos = lo - 0.1 * (hi - lo) + 1.2 * (hi - lo) * rng.random((n, d))
    if case["variant"] != "original":
        pos = np.clip(pos, lo, hi)
    k = len(case["pos"])
    pos[rng.choice(n, min(k, n), replace=False)] = np.array(case["pos"], float)[: min(k, n)]
    return dict(
        case,
        pos=pos.round(3).tolist(),
        mom=rng.normal(size=(n, d)).round(3).tolist(),
        mass=[1.0 + i / 64 for i in range(n)],
        energy=rng.normal(size=n).round(3).tolist(),
    )


def zero_pot(case):
    from bdld.potential.polynomial import PolynomialPotential

    return PolynomialPotential(
        np.zeros([2] * case["n_dim"]), [tuple(r) for r in case["ranges"]]
    )


def density(case):
    """Positive normalised grid (object of the code under test) or None"""
    from bdld import grid

    if case["variant"] == "original":
        return None
    d = case["n_dim"]
    n = case["dens"]["n"]
    n = list(n) if isinstance(n, list) else [n] * d
    g = grid.from_npoints([tuple(r) for r in case["ranges"]], n)
    g.data = density_values(case, n)
    return g


def density_values(case, n):
    axes = [np.linspace(r[0], r[1], k) for r, k in zip(case["ranges"], n)]
    a, b, c = case["dens"]["coef"]
    e = np.zeros(n)
    for i, ax in enumerate(axes):
        shape = [1] * len(n)
        shape[i] = len(ax)
        u = (ax - ax[0]) / (ax[-1] - ax[0])
        e = e + (a * np.sin(3 * u + i) + b * u + c * np.cos(7 * u)).reshape(shape)
    p = np.exp(e)
    vol = np.prod([(r[1] - r[0]) / (k - 1) for r, k in zip(case["ranges"], n)])
    return p / (p.sum() * vol)


def variant_of(name):
    from bdld.actions.birth_death import ApproxVariant

    return ApproxVariant.from_str(name)


def build(case, seed=None, particles_only=False, **kwargs):
    """(ld, bd) with the particles of the case"""
    from bdld.actions.birth_death import BirthDeath
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD

    pot = zero_pot(case)
    if case["overdamped"]:
        ld = OverdampedLD(pot, case["dt"], 0)
    else:
        ld = BussiParinelloLD(pot, case["dt"], 1.0, case["kt"], 0)
    fill(ld, case)
    if particles_only:
        return ld, None
    rate, variant = case["rate"], variant_of(case["variant"])
    if case["variant"] == "original" and case["seed"] % 2:
        variant = None  # the default
    if rate == 1.0 and case["seed"] % 3 == 0:
        rate = None
    bd = BirthDeath(
        ld.particles, case["dt"], case["stride"], list(case["bw"]), case["kt"],
        rate, case["recalc"], variant, density(case),
        case["seed"] if seed is None else seed, **kwargs,
    )
    return ld, bd


def fill(ld, case):
    for i, p in enumerate(case["pos"]):
        ld.add_particle(list(p), case["mass"][i])
        q = ld.particles[-1]
        q.mom = np.array(case["mom"][i], dtype=float)
        q.energy = case["energy"][i]
        q.forces = np.array([0.1 * i + k for k in range(case["n_dim"])])


def reset(ld, case):
    """Put the original particles back into the same list object"""
    ps = ld.particles
    for i, p in enumerate(case["pos"]):
        q = ps[i]
        q.pos = np.array(p, dtype=float)
        q.mom = np.array(case["mom"][i], dtype=float)
        q.mass = case["mass"][i]
        q.energy = case["energy"][i]


def particle(p):
    return {
        "pos": np.array(p.pos, float),
        "mom": np.array(p.mom, float),
        "mass": float(p.mass),
        "energy": float(p.energy),
        "forces": np.array(p.forces, float),
    }


def equal(a, b):
    return all(
        np.array_equal(np.asarray(a[k]), np.asarray(b[k]), equal_nan=True) for k in a
    )
