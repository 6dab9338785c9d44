"""C10: birth-death steps conserve the particle number and only copy whole particles"""
import numpy as np
from hypothesis import strategies as st

import bdgen
import whole
from core import Property, ScratchDir, require

PROP = Property("C10", assumptions=["particles are compared exactly, attribute by attribute"])


def replay(before, after, events, what):
    n = len(before)
    require(len(after) == n, f"{what}: {len(after)} particles instead of {n}")
    want = list(before)
    for dup, kill in events:
        require(
            0 <= dup < n and 0 <= kill < n and dup == int(dup) and kill == int(kill),
            f"{what}: event ({dup}, {kill}) is no pair of particles",
        )
        require(dup != kill, f"{what}: particle {dup} is replaced by itself")
        want[int(kill)] = want[int(dup)]
    for i in range(n):
        require(
            bdgen.equal(after[i], want[i]),
            f"{what}: particle {i} is {after[i]}, expected {want[i]} from events "
            f"{[(int(a), int(b)) for a, b in events]}",
        )


@st.composite
def step_cases(draw):
    c = draw(bdgen.situations(max_n=15, rates=(1.0, 20.0, 300.0, 3000.0)))
    c["steps"] = draw(st.integers(1, 5))
    c["distinct"] = draw(st.booleans())
    return c


def run_steps(case):
    ld, bd = bdgen.build(case)
    lst = ld.particles
    n_ev = 0
    for s in range(case["steps"]):
        before = [bdgen.particle(p) for p in lst]
        events = bd.do_birth_death()
        require(events is not None, "no event list was returned")
        require(bd.particles is lst and ld.particles is lst, "the particle list was replaced")
        replay(before, [bdgen.particle(p) for p in lst], events, f"step {s}")
        n_ev += len(events)
        ps = list(lst)
        for i in range(len(ps)):
            for k in range(i):
                require(ps[i] is not ps[k], f"particles {i} and {k} are the same object")
                for a in ("pos", "mom", "forces"):
                    require(
                        not np.shares_memory(getattr(ps[i], a), getattr(ps[k], a)),
                        f"{a} of particles {i} and {k} share memory after a step",
                    )
        # independence: move every particle on its own
        for i, p in enumerate(ps):
            p.pos += 0.01 * (i + 1)
            p.mom += 0.02 * (i + 1)
    return n_ev


@PROP.sub(
    "steps", step_cases(), 900, 25000, shards=8,
    rule="subsequent birth-death steps on generated particle sets (coinciding, far away, single "
    "particles), all variants and modes; non-trivial: at least one event",
)
def steps(case, rec):
    if case["distinct"]:  # every particle identifiable by every attribute
        n = len(case["pos"])
        case = dict(case, energy=[e + 1e-6 * i for i, e in enumerate(case["energy"])],
                    mass=[1.0 + i / 64 for i in range(n)],
                    mom=[[i + k / 8 for k in range(case["n_dim"])] for i in range(n)])
    n_ev = run_steps(case)
    rec.label(case["variant"], "recalc" if case["recalc"] else "bulk", f"{case['n_dim']}d",
              "events" if n_ev else "no events")
    return n_ev > 0


@st.composite
def crowd_cases(draw):
    c = draw(bdgen.situations(max_n=4, rates=(20.0, 300.0, 3000.0)))
    c["number"] = draw(st.integers(30, 180))
    c["steps"] = draw(st.integers(1, 2))
    return c


@PROP.sub(
    "crowd", crowd_cases(), 25, 800, shards=4,
    rule="the same with 30 to 180 particles; non-trivial: more than 20 events",
)
def crowd(case, rec):
    n_ev = run_steps(bdgen.expand(case))
    rec.label(case["variant"], "recalc" if case["recalc"] else "bulk",
              "> 100 events" if n_ev > 100 else "fewer events")
    return n_ev > 20


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(bd=True, traj=False, hist=False, fes=False, delta_f=False,
                             pdist=False, max_particles=10))
    cfg["sections"]["birth-death"]["exponential-factor"] = draw(
        st.sampled_from([1.0, 50.0, 1000.0])
    )
    return cfg


@PROP.sub(
    "program", prog_cases(), 150, 4000, shards=4,
    rule="whole simulations: state before and after each birth-death step and its event list; "
    "non-trivial: at least one event",
)
def program(case, rec):
    with ScratchDir() as path:
        res = whole.run(case, path)
    n = case["sections"]["particles"]["number"]
    n_ev = 0

    def split(s):
        return [
            {k: s[k][i] for k in ("pos", "mom", "mass", "energy", "forces")}
            for i in range(len(s["mass"]))
        ]

    for (step, events), (a, b) in zip(res.rec["events"], res.rec["bd_states"]):
        replay(split(a), split(b), events, f"step {step}")
        n_ev += len(events)
    for t, s in enumerate(res.states):
        require(len(s["mass"]) == n, f"{len(s['mass'])} particles after step {t}, not {n}")
    # the particles after birth-death are those the dynamics goes on with
    for (step, _), (_, b) in zip(res.rec["events"], res.rec["bd_states"]):
        require(
            np.array_equal(b["pos"], res.states[step]["pos"], equal_nan=True),
            f"birth-death of step {step} does not act on the simulated particles",
        )
    rec.label("events" if n_ev else "no events", f"{case['n_dim']}d")
    return n_ev > 0
