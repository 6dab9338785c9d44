"""C11: birth-death rates"""
import numpy as np
from hypothesis import strategies as st

import bdgen
import gen
import ref
import whole
from core import Property, ScratchDir, require
from props.c07 import cfg_pot

PROP = Property(
    "C11",
    assumptions=[
        "in two (three) dimensions the interpolated correction may be that of either "
        "triangulation of the grid cell (anything between the cell's corner values)",
        "whole program: correction compared up to the discretisation error of a grid twice as "
        "fine",
    ],
)


def correction(dens, ranges, bw, variant, cut):
    """(axes, values) of the correction that is interpolated"""
    steps = [(r[1] - r[0]) / (n - 1) for r, n in zip(ranges, dens.shape)]
    if variant == "additive":
        g = ref.thin(ref.additive(dens, steps, bw, cut))
    else:
        with np.errstate(divide="ignore"):
            g = -np.log(ref.thin(ref.smooth_same(dens, steps, bw, cut)))
    return [ref.axis_points(r[0], r[1], n) for r, n in zip(ranges, g.shape)], g


def rates(pos, energy, bw, kt, variant, dens, ranges):
    """(low, high) bounds of the documented rates"""
    log = np.log(ref.kde(pos, bw))
    n = len(pos)
    if variant in ("original", "additive"):
        base = log + np.asarray(energy) / kt
        base = base - base.mean()
        if variant == "original":
            return base, base
    lo, hi = np.zeros(n), np.zeros(n)
    first = True
    for cut in ("floor", "ceil"):
        axes, g = correction(dens, ranges, bw, variant, cut)
        c = np.array([ref.interpolation(axes, g, p) for p in pos])
        if first:
            lo, hi = c[:, 0].copy(), c[:, 1].copy()
            first = False
        lo, hi = np.minimum(lo, c[:, 0]), np.maximum(hi, c[:, 1])
    if variant == "additive":
        return base + lo, base + hi
    m_lo, m_hi = np.mean(log + lo), np.mean(log + hi)
    return log + lo - m_hi, log + hi - m_lo


def compare(got, bounds, tol, what):
    lo, hi = bounds
    got = np.asarray(got, dtype=float)
    require(got.shape == lo.shape, f"{what}: {got.shape} rates for {lo.shape} particles")
    scale = tol * (1 + np.abs(lo) + np.abs(hi))
    bad = ~((got >= lo - scale) & (got <= hi + scale))
    if bad.any():
        i = int(np.argmax(bad))
        want = lo[i] if lo[i] == hi[i] else (lo[i], hi[i])
        require(False, f"{what}: rate of particle {i} is {got[i]}, expected {want}")


@st.composite
def rate_cases(draw):
    d = draw(st.sampled_from([1, 1, 1, 2, 2, 3]))
    n = {1: st.sampled_from([11, 41, 51, 101, 102, 121, 201]), 2: st.sampled_from([5, 9, 13]),
         3: st.sampled_from([4, 5])}[d]
    pts = [draw(n) for _ in range(d)]
    if d == 2 and draw(st.integers(0, 4)) == 0:
        pts = [draw(st.sampled_from([111, 103])), 5]
    c = draw(bdgen.situations(n_dim=d, dens_points=pts, energies="large"))
    if draw(st.booleans()):  # bandwidths that match the grid spacing
        c["bw"] = [
            round((r[1] - r[0]) / (k - 1) * draw(st.integers(1, 8)) / 5, 12)
            for r, k in zip(c["ranges"], pts)
        ]
    # some particles on the nodes of the grid
    for i, p in enumerate(c["pos"]):
        if draw(st.integers(0, 3)) == 0:
            c["pos"][i] = [
                r[0] + (r[1] - r[0]) * draw(st.integers(0, k - 1)) / (k - 1)
                for r, k in zip(c["ranges"], pts)
            ]
    return c


@PROP.sub(
    "rates", rate_cases(), 900, 25000, shards=8,
    rule="rates of generated particle sets (inside, outside, on the bounds and on grid nodes), "
    "three variants, 1-3 dimensions, against direct sums; non-trivial: at least 2 particles",
)
def formula(case, rec):
    ld, bd = bdgen.build(case)
    before = [bdgen.particle(p) for p in ld.particles]
    got = bd.calc_betas()
    after = [bdgen.particle(p) for p in ld.particles]
    require(all(bdgen.equal(a, b) for a, b in zip(before, after)), "particles were changed")
    dens = None
    if case["variant"] != "original":
        dens = bdgen.density_values(case, case["dens"]["n"])
    b = rates(np.array(case["pos"], float), case["energy"], case["bw"], case["kt"],
              case["variant"], dens, case["ranges"])
    if not (np.all(np.isfinite(b[0])) and np.all(np.isfinite(b[1]))):
        rec.label("infinite")  # K*pi = 0: the grid is too coarse for the bandwidth
        return False
    compare(got, b, 1e-7, f"{case['variant']} {case['n_dim']}d")
    rec.label(case["variant"], f"{case['n_dim']}d")
    return len(case["pos"]) > 1


@st.composite
def crowd_cases(draw):
    c = draw(bdgen.situations(max_n=4))
    c["number"] = draw(st.integers(30, 300))
    return c


@PROP.sub(
    "crowd", crowd_cases(), 40, 1200, shards=4,
    rule="the same with 30 to 300 particles; always non-trivial",
)
def crowd(case, rec):
    case = bdgen.expand(case)
    case["dens"] = dict(case["dens"], n=[case["dens"]["n"]] * case["n_dim"])
    formula(case, rec)
    return True


@st.composite
def rel_cases(draw):
    c = draw(bdgen.situations(min_n=2, far=False, energies="large"))
    c["shift"] = draw(gen.dec(-5, 5, 1))
    c["other"] = draw(gen.vec(gen.dec(-3, 3, 2), len(c["pos"])))
    c["perm"] = draw(st.permutations(range(len(c["pos"]))))
    return c


@PROP.sub(
    "relations", rel_cases(), 500, 12000, shards=4,
    rule="the rates do not depend on a common energy shift (and not at all on the energies in "
    "the multiplicative variant), follow a permutation of the particles, are the same on "
    "repeated evaluation and average to zero (original, multiplicative); always non-trivial",
)
def relations(case, rec):
    _, bd = bdgen.build(case)
    a = np.array(bd.calc_betas(), float)
    again = np.array(bd.calc_betas(), float)
    require(np.array_equal(a, again), "repeated evaluation changes the rates")
    tol = 1e-9 * (1 + np.abs(a).max())
    if case["variant"] != "additive":
        require(abs(a.mean()) <= tol, f"average rate {a.mean()} is not zero")
    shifted = dict(case, energy=[e + case["shift"] for e in case["energy"]])
    _, bd = bdgen.build(shifted)
    b = np.array(bd.calc_betas(), float)
    require(bool(np.all(np.abs(a - b) <= tol)), f"energy shift {case['shift']}: {a} {b}")
    if case["variant"] == "multiplicative":
        _, bd = bdgen.build(dict(case, energy=case["other"]))
        b = np.array(bd.calc_betas(), float)
        require(bool(np.all(np.abs(a - b) <= tol)), f"the energies have influence: {a} {b}")
    perm = case["perm"]
    other = dict(case, **{k: [case[k][i] for i in perm] for k in ("pos", "mom", "mass", "energy")})
    _, bd = bdgen.build(other)
    b = np.array(bd.calc_betas(), float)
    require(bool(np.all(np.abs(a[list(perm)] - b) <= tol)), f"permutation {perm}: {a} {b}")
    rec.label(case["variant"])
    return True


@st.composite
def history_cases(draw):
    c = draw(bdgen.situations(min_n=2, max_n=6, far=False))
    n, d = len(c["pos"]), c["n_dim"]
    one = st.integers(0, n - 1)
    c["ops"] = [
        draw(st.one_of(
            st.tuples(st.just("swap"), one, one),
            st.tuples(st.just("apart"), one, one, st.integers(0, d - 1),
                      st.sampled_from([0.125, 0.25, -0.5])),
            st.tuples(st.just("copy"), one, one),
            st.tuples(st.just("energy"), one, gen.dec(-3, 3, 2)),
            st.tuples(st.just("energies"), one, one, st.sampled_from([0.5, -1.25])),
            st.tuples(st.just("new"), one, gen.inside(c["ranges"], 2)),
            st.tuples(st.just("events"), st.integers(1, 2)),
        )) for _ in range(draw(st.integers(1, 8)))
    ]
    return c


@PROP.sub(
    "history", history_cases(), 500, 15000, shards=4,
    rule="one birth-death object whose particles are exchanged, moved (also with the same sum of "
    "positions or energies), replaced and subject to birth-death steps: the rates always follow "
    "the formula for the particles as they are now; non-trivial: the rates changed",
)
def history(case, rec):
    import copy

    ld, bd = bdgen.build(case)
    ps = ld.particles
    dens = None
    if case["variant"] != "original":
        dens = bdgen.density_values(case, [case["dens"]["n"]] * case["n_dim"])
    first, changed = None, False
    for k, op in enumerate([["none"]] + list(case["ops"])):
        if op[0] == "swap":
            ps[op[1]], ps[op[2]] = ps[op[2]], ps[op[1]]
        elif op[0] == "apart":
            _, i, j, dim, by = op
            ps[i].pos[dim] += by
            ps[j].pos[dim] -= by
        elif op[0] == "copy":
            ps[op[2]] = copy.deepcopy(ps[op[1]])
        elif op[0] == "energy":
            ps[op[1]].energy = op[2]
        elif op[0] == "energies":
            ps[op[1]].energy += op[3]
            ps[op[2]].energy -= op[3]
        elif op[0] == "new":
            q = copy.deepcopy(ps[op[1]])
            q.pos = np.array(op[2], float)
            ps[op[1]] = q
        elif op[0] == "events":
            for _ in range(op[1]):
                bd.do_birth_death()
        pos = np.array([p.pos for p in ps], float)
        b = rates(pos, [float(p.energy) for p in ps], case["bw"], case["kt"], case["variant"],
                  dens, case["ranges"])
        if not (np.all(np.isfinite(b[0])) and np.all(np.isfinite(b[1]))):
            continue
        got = np.array(bd.calc_betas(), float)
        compare(got, b, 1e-7, f"{case['variant']}, after {k} operations ({op[0]})")
        if first is not None:
            changed = changed or not np.allclose(first, got)
        first = got
        rec.label(op[0])
    rec.label(case["variant"])
    return changed


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(bd=True, traj=False, hist=False, fes=False, delta_f=False,
                             pdist=False, max_particles=6, max_steps=8))
    return cfg


def _collect(captured):
    bd = captured["BirthDeath"][-1]
    return {
        "betas": np.array(bd.calc_betas(), float),
        "pos": np.array([np.array(p.pos, float) for p in bd.particles]),
        "energy": [float(p.energy) for p in bd.particles],
    }


def boltzmann(j, pot, kt, n):
    axes = [ref.axis_points(r[0], r[1], k) for r, k in zip(j["ranges"], n)]
    pts = ref.row_major(axes)
    e = np.array([ref.poly_energy(j["coeffs"], p)[0] if j["type"] == "polynomial"
                  else float(pot.energy(p)) for p in pts])
    p = np.exp(-(e - e.min()) / kt).reshape(n)
    steps = [(r[1] - r[0]) / (k - 1) for r, k in zip(j["ranges"], n)]
    return p / (p.sum() * np.prod(steps))


@PROP.sub(
    "program", prog_cases(), 130, 2500, shards=6,
    rule="whole simulations: rates of the final particles follow the formula with the "
    "bandwidth, kT (1 for overdamped), variant and equilibrium density of the input; "
    "non-trivial: 2 or more particles",
)
def program(case, rec):
    b = case["sections"]["birth-death"]
    ld = case["sections"]["ld"]
    with ScratchDir() as path:
        res = whole.run(case, path, collect=_collect)
    c = res.rec["collected"]
    if not np.all(np.isfinite(c["pos"])) or np.abs(c["pos"]).max() > 50:
        return False
    if case["sections"]["particles"]["number"] < 2:
        return False
    name = b.get("approximation-variant", b.get("correction-variant", "original"))
    variant = {"orig": "original", "add": "additive", "mult": "multiplicative"}.get(name, name)
    kt = ld.get("kt", 1.0)
    bw = whole.as_list(b["kernel-bandwidth"])
    j = cfg_pot(case)
    pot = gen.mk_pot(j)
    tol = 1e-7
    if variant == "original":
        bounds = rates(c["pos"], c["energy"], bw, kt, variant, None, j["ranges"])
    else:
        import math

        n = max(501, int(math.ceil((j["ranges"][0][1] - j["ranges"][0][0]) / (0.5 * bw[0]))))
        n += 1 - n % 2
        bounds = rates(c["pos"], c["energy"], bw, kt, variant, boltzmann(j, pot, kt, [n]),
                       j["ranges"])
        fine = rates(c["pos"], c["energy"], bw, kt, variant,
                     boltzmann(j, pot, kt, [2 * n - 1]), j["ranges"])
        if not all(np.all(np.isfinite(x)) for x in bounds + fine):
            return False
        slack = 2 * np.maximum(np.abs(bounds[0] - fine[0]), np.abs(bounds[1] - fine[1]))
        bounds = (bounds[0] - slack, bounds[1] + slack)
    compare(c["betas"], bounds, tol, f"{variant}, kt {kt}, bandwidth {bw}")
    rec.label(variant, f"{case['n_dim']}d", ld["type"])
    return True
