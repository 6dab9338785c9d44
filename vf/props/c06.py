"""C06: boundary conditions keep every particle inside"""
import numpy as np
from hypothesis import strategies as st

import gen
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C06",
    assumptions=["periodic images are compared to 1e-9 of the position's magnitude"],
)


def _pot(j):
    return gen.mk_pot(j)


@st.composite
def call_cases(draw):
    d = draw(gen.dims)
    if d == 2 and draw(st.integers(0, 3)) == 0:
        j = {"type": "mueller-brown", "scaling": None, "n_dim": 2,
             "ranges": [[-1.5, 1.5], [-0.5, 2.5]]}
    else:
        j = {"type": "polynomial", "n_dim": d, "coeffs": np.zeros([2] * d).tolist(),
             "ranges": draw(gen.rng_ranges(d))}
    j["bc"] = draw(st.sampled_from(["reflective", "periodic", "reflective", "periodic", None]))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        pos, mom = [], []
        for lo, hi in j["ranges"]:
            w = hi - lo
            k = draw(st.integers(0, 8))
            if k == 0:
                x = lo
            elif k == 1:
                x = hi
            elif k == 2:
                x = float(np.nextafter(lo, -1e9))
            elif k == 3:
                x = float(np.nextafter(hi, 1e9))
            elif k <= 5:
                x = lo + w * draw(st.integers(0, 1000)) / 1000
            elif k == 6:
                x = lo + w * draw(st.integers(-3000, 3000)) / 1000
            elif k == 7:
                x = lo + w * draw(st.integers(-5, 5))  # whole periods
            else:
                x = lo + w * draw(st.integers(-10**6, 10**6)) / 7
            pos.append(x)
            mom.append(draw(st.one_of(st.just(0.0), gen.dec(-5, 5, 2), gen.dec(-5, 5, 2))))
        calls.append({"pos": pos, "mom": mom})
    return {"pot": j, "calls": calls, "switch": draw(st.booleans())}


def check_call(bc, ranges, pos, mom, new_pos, new_mom):
    for d, (lo, hi) in enumerate(ranges):
        x, p, nx, np_ = pos[d], mom[d], float(new_pos[d]), float(new_mom[d])
        inside = lo <= x <= hi
        what = f"{bc}: coordinate {d} at {x} (range {lo}..{hi}), momentum {p}"
        if inside or bc is None:
            require(nx == x and np_ == p, f"{what}: changed to {nx}, {np_}")
        elif bc == "reflective":
            bound = lo if x < lo else hi
            require(nx == bound, f"{what}: put at {nx}, not on the bound {bound}")
            require(np_ == -p, f"{what}: momentum is {np_}")
        else:
            require(np_ == p, f"{what}: momentum changed to {np_}")
            require(lo <= nx <= hi, f"{what}: moved to {nx}, which is outside")
            n = (nx - x) / (hi - lo)
            err = abs(n - round(n)) * (hi - lo)
            require(
                err <= 1e-9 * (1 + abs(x)) and round(n) != 0 or err <= 1e-12 * (1 + abs(x)),
                f"{what}: moved to {nx}, not a whole number of lengths",
            )


@PROP.sub(
    "calls", call_cases(), 2500, 60000, shards=2,
    rule="single applications inside, on, just beyond and far beyond the bounds; "
    "non-trivial: a coordinate outside",
)
def calls(case, rec):
    from bdld.potential.potential import BoundaryCondition

    j = case["pot"]
    pot = _pot(j)
    if case["switch"]:  # setting another condition first has no lasting effect
        pot.boundary_condition = BoundaryCondition.periodic
        pot.boundary_condition = BoundaryCondition.reflective
        pot.boundary_condition = {
            None: None, "reflective": BoundaryCondition.reflective,
            "periodic": BoundaryCondition.periodic,
        }[j["bc"]]
    out = False
    for c in case["calls"]:
        pos, mom = np.array(c["pos"], float), np.array(c["mom"], float)
        pot.apply_boundary_condition(pos, mom)
        require(pos.shape == (j["n_dim"],) and mom.shape == (j["n_dim"],), "shape changed")
        check_call(j["bc"], j["ranges"], c["pos"], c["mom"], pos, mom)
        out = out or any(not lo <= x <= hi for x, (lo, hi) in zip(c["pos"], j["ranges"]))
    require([list(map(float, r)) for r in pot.ranges] == [list(map(float, r)) for r in j["ranges"]],
            "the ranges were changed")
    rec.label(str(j["bc"]), f"{j['n_dim']}d")
    return out


@st.composite
def dyn_cases(draw):
    d = draw(gen.dims)
    j = {"type": "polynomial", "n_dim": d, "ranges": draw(gen.rng_ranges(d, -2, 1, 0.2, 2)),
         "bc": draw(st.sampled_from(["reflective", "periodic"]))}
    shape = [3] * d
    j["coeffs"] = draw(gen.nested(shape, gen.dec(-1, 1, 1)))
    return {
        "pot": j,
        "overdamped": draw(st.booleans()),
        "dt": draw(st.sampled_from([0.001, 0.05, 0.5, 3.0, 20.0])),
        "friction": draw(st.sampled_from([0.0, 0.5, 10.0])),
        "kt": draw(st.sampled_from([0.1, 1.0, 10.0])),
        "mass": draw(st.sampled_from([1.0, 0.3, 5.0])),
        "seed": draw(st.integers(0, 10**6)),
        "start": [draw(gen.inside(j["ranges"])) for _ in range(draw(st.integers(1, 3)))],
        "outside": draw(st.integers(0, 3)) == 0,
        "steps": draw(st.integers(1, 25)),
        "bd": draw(st.integers(0, 3)) == 0,
    }


@PROP.sub(
    "dynamics", dyn_cases(), 700, 15000, shards=3,
    rule="both integrators with any time step (huge ones included), with or without "
    "birth-death: every particle inside after every step; non-trivial: a step that would "
    "leave the range",
)
def dynamics(case, rec):
    from bdld.actions.birth_death import BirthDeath
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD

    j = case["pot"]
    pot = _pot(j)
    if case["overdamped"]:
        ld = OverdampedLD(pot, case["dt"], case["seed"])
    else:
        ld = BussiParinelloLD(pot, case["dt"], case["friction"], case["kt"], case["seed"])
    for k, p in enumerate(case["start"]):
        if case["outside"] and k == 0:
            p = [hi + 1.7 * (hi - lo) for lo, hi in j["ranges"]]
        ld.add_particle(p, case["mass"])
    bd = None
    if case["bd"] and len(case["start"]) > 1:
        bd = BirthDeath(ld.particles, case["dt"], 1, [0.3] * j["n_dim"], case["kt"], seed=2)
    hits = 0
    calls = []
    orig = pot.apply_boundary_condition

    for s in range(1, case["steps"] + 1):
        ld.run(s)
        if bd:
            bd.run(s)
        for i, p in enumerate(ld.particles):
            for x, (lo, hi) in zip(p.pos, j["ranges"]):
                require(
                    lo <= float(x) <= hi,
                    f"particle {i} at {p.pos.tolist()} after step {s}, ranges {j['ranges']}",
                )
                hits += float(x) in (lo, hi)
    rec.label(j["bc"], "overdamped" if case["overdamped"] else "bussi", f"dt {case['dt']}")
    return hits > 0 or j["bc"] == "periodic"


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(traj=False, hist=False, fes=False, delta_f=False, pdist=False,
                             max_steps=30, bd_variants=("original",)))
    bc = draw(st.sampled_from(["reflective", "periodic"]))
    cfg["sections"]["potential"]["boundary-condition"] = bc
    cfg["sections"]["ld"]["timestep"] = draw(st.sampled_from([0.01, 0.3, 2.0]))
    return cfg


@PROP.sub(
    "program", prog_cases(), 250, 5000, shards=3,
    rule="whole simulations with a boundary condition and large time steps; always non-trivial",
)
def program(case, rec):
    with ScratchDir() as path:
        res = whole.run(case, path)
    for s, state in enumerate(res.states):
        for p in state["pos"]:
            for x, (lo, hi) in zip(p, case["ranges"]):
                require(
                    lo <= x <= hi,
                    f"particle at {p.tolist()} after step {s}, ranges {case['ranges']}",
                )
    rec.label(case["sections"]["potential"]["boundary-condition"])
    return True
