"""C04: Mueller-Brown potential"""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
import whole
from core import Known, Property, ScratchDir, Violation, require

PROP = Property(
    "C04",
    assumptions=[
        "the energy is compared up to a constant (the code shifts the minimum to zero)",
        "comparison to 1e-9 of the sum of the absolute terms",
    ],
)

KEY = "third-amplitude"
TOL = 1e-9

coord_x = st.one_of(gen.dec(-1.5, 1.5, 2), st.sampled_from([1.0, 0.0, -0.5, -1.0]), gen.dec(-3, 3, 1))
coord_y = st.one_of(gen.dec(-0.5, 2.5, 2), st.sampled_from([0.0, 0.5, 1.5, 1.0]), gen.dec(-2, 4, 1))
point = st.tuples(coord_x, coord_y).map(list)
factor = st.one_of(st.none(), st.sampled_from([1.0, 0.0, 0.1, 2.0, -1.0]), gen.dec(-3, 3, 2))


def compare(pots, third):
    """First mismatch of all (potential, factor, points) with this third amplitude"""
    for pot, fac, pts in pots:
        f = 1.0 if fac is None else fac
        zero = None
        for p in pts:
            we, se = ref.mb_energy(p, third, f)
            ge = float(pot.energy(p))
            ee, ef = pot.evaluate(p)
            gf = np.asarray(pot.force(p), dtype=float)
            wf, sf = ref.mb_force(p, third, f)
            if gf.shape != (2,):
                return f"force has shape {gf.shape}"
            big = 1e3 * abs(f) + se + 1e3  # a constant shift may be of this size
            if abs(float(ee) - ge) > TOL * big:
                return f"evaluate({p}) gives the energy {ee}, energy() {ge}"
            if not np.allclose(np.asarray(ef, float), gf, rtol=1e-9, atol=1e-9 * (max(sf) + 1e-12)):
                return f"evaluate({p}) gives the force {ef}, force() {gf}"
            for d in range(2):
                if abs(gf[d] - wf[d]) > TOL * sf[d] + 1e-12 * (1 + abs(f)) :
                    return f"factor {fac}: force({p})[{d}] = {gf[d]}, expected {wf[d]}"
            if zero is None:
                zero = (ge, we, se, p)
            else:
                dg, dw = ge - zero[0], we - zero[1]
                if abs(dg - dw) > TOL * (se + zero[2] + 100):
                    return (
                        f"factor {fac}: energy difference {zero[3]} -> {p} is {dg}, "
                        f"expected {dw}"
                    )
    return None


def decide(pots):
    bad = compare(pots, -170.0)
    if bad is None:
        return
    if compare(pots, -175.0) is None:
        raise Known(KEY, "third amplitude is -175 instead of the documented -170")
    raise Violation(bad)


@st.composite
def histories(draw):
    ops = []
    n = 0
    for _ in range(draw(st.integers(1, 6))):
        if n == 0 or draw(st.booleans()):
            ops.append({"op": "create", "factor": draw(factor)})
            n += 1
        else:
            ops.append(
                {"op": "eval", "which": draw(st.integers(0, n - 1)), "points": [draw(point), draw(point)]}
            )
    ops.append({"op": "all", "points": [draw(point), draw(point), [1.0, 0.0]]})
    return ops


@PROP.sub(
    "histories", histories(), 1500, 40000, shards=3,
    rule="sequences of creating (scaled) potentials and evaluating any of them; "
    "non-trivial: two or more potentials with different factors",
)
def run_history(case, rec):
    from bdld.potential.mueller_brown import MuellerBrownPotential

    pots = []
    seen = []
    for op in case:
        if op["op"] == "create":
            pots.append((MuellerBrownPotential(op["factor"]), op["factor"]))
            continue
        which = pots if op["op"] == "all" else [pots[op["which"]]]
        seen += [(p, f, op["points"]) for p, f in which]
        for p, f in which:
            pos = np.array(op["points"][0])
            keep = pos.copy()
            p.evaluate(pos)
            require(np.array_equal(pos, keep), "evaluate changed the position")
            require(p.n_dim == 2, f"n_dim is {p.n_dim}")
            require(
                [tuple(map(float, r)) for r in p.ranges] == [(-1.5, 1.5), (-0.5, 2.5)],
                f"ranges are {p.ranges}",
            )
        bad170 = compare(seen, -170.0)
        if bad170 is not None and compare(seen, -175.0) is not None:
            raise Violation(f"after {len(pots)} potentials: {bad170}")
    n_diff = len({1.0 if f is None else f for _, f in pots})
    rec.label(f"{min(n_diff, 3)} factors")
    decide(seen)
    return n_diff > 1


@PROP.sub(
    "gradient", st.tuples(point, factor).map(lambda t: {"p": t[0], "f": t[1]}), 1500, 30000,
    rule="force against central differences of the energy; non-trivial: factor not zero",
)
def gradient(case, rec):
    from bdld.potential.mueller_brown import MuellerBrownPotential

    pot = MuellerBrownPotential(case["f"])
    p = np.array(case["p"], dtype=float)
    f = np.asarray(pot.force(p), dtype=float)
    fac = 1.0 if case["f"] is None else case["f"]
    h = 1e-4
    scale = ref.mb_energy(p, -175.0, fac)[1] + 1
    for d in range(2):
        vals = []
        for k in (-2, -1, 1, 2):
            q = p.copy()
            q[d] += k * h
            vals.append(float(pot.energy(q)))
        num = -(vals[0] - 8 * vals[1] + 8 * vals[2] - vals[3]) / (12 * h)
        require(
            abs(num - f[d]) <= 1e-5 * (scale + abs(f[d])),
            f"force({case['p']})[{d}] = {f[d]}, central differences give {num}",
        )
    return fac != 0


@st.composite
def input_cases(draw):
    return {
        "factor": draw(st.one_of(st.none(), gen.dec(0.01, 2, 2), st.just(0.0), gen.dec(-1, 0, 1))),
        "pos": draw(gen.vec(point, 3)),
        "bc": draw(st.sampled_from([None, "reflective", "periodic"])),
        "bd": draw(st.booleans()),
    }


@PROP.sub(
    "program", input_cases(), 150, 3000, shards=2,
    rule="Mueller-Brown with scaling factor from the input file; always non-trivial",
)
def program(case, rec):
    secs = {
        "ld": {"type": "overdamped", "timestep": 1e-7, "n_steps": 2, "seed": 3},
        "potential": {"type": "mueller-brown"},
        "particles": {"number": 3, "initial-distribution": "fractions-pos", "fractions": [1, 1, 1]},
    }
    for i, p in enumerate(case["pos"]):
        secs["particles"][f"pos{i+1}"] = p
    if case["factor"] is not None:
        secs["potential"]["scaling-factor"] = case["factor"]
    if case["bc"]:
        secs["potential"]["boundary-condition"] = case["bc"]
    if case["bd"]:
        secs["birth-death"] = {"stride": 1, "kernel-bandwidth": [0.2, 0.3], "seed": 1}
    fac = 1.0 if case["factor"] is None else case["factor"]
    with ScratchDir() as path:
        res = whole.run({"sections": secs, "coeffs": None}, path)

    def bad(third):
        zero = None
        for s in res.states:
            for p, e, f in zip(s["pos"], s["energy"], s["forces"]):
                if not np.all(np.abs(p) <= 6):
                    continue  # thrown out by the steep walls, exponents overflow
                wf, sf = ref.mb_force(p, third, fac)
                we, se = ref.mb_energy(p, third, fac)
                for d in range(2):
                    if abs(f[d] - wf[d]) > TOL * sf[d] + 1e-12:
                        return f"factor {fac}: force at {p} is {f}, expected {wf}"
                if zero is None:
                    zero = (e, we, se)
                elif abs((e - zero[0]) - (we - zero[1])) > TOL * (se + zero[2] + 100):
                    return f"factor {fac}: energy difference at {p} is {e - zero[0]}, expected {we - zero[1]}"
        return None

    b = bad(-170.0)
    if b is not None:
        if bad(-175.0) is None:
            raise Known(KEY, "third amplitude is -175 instead of the documented -170")
        raise Violation(b)
    return True
