"""C22: the particle distribution counts exactly the particles inside each state"""
import numpy as np

from hypothesis import strategies as st

import whole
from core import Property, ScratchDir, require

PROP = Property("C22")

OUT = dict(traj=False, hist=False, fes=False, delta_f=False, pdist=True)


def _labels(rec, o, n):
    s = o.get("stride")
    rec.label("stride" if s else "final only")
    if s:
        w = o.get("write-stride", 100 * s)
        rec.label("one row" if w == s else "block")
        rec.label("n%ws=0" if n % w == 0 else "n%stride=0" if n % s == 0 else "remainder")


def _nontrivial(o, pos, n):
    counts = [
        c for s in whole.sampled_steps(o.get("stride"), n) for c in whole.count_inside(pos[s], whole.states_of(o))
    ]
    return any(counts) if counts else False


@PROP.sub(
    "scripted", whole.scripts(**OUT), 1800, 40000, shards=3,
    rule="scripted positions (exactly on the bounds included); non-trivial: a particle "
    "inside a state",
)
def scripted(case, rec):
    with ScratchDir() as path:
        _, pos, _ = whole.scripted(case, path)
        o = case["sections"]["particle-distribution"]
        whole.check_pdist_file(o, case["n_steps"], pos, path)
        _labels(rec, o, case["n_steps"])
        return _nontrivial(o, pos, case["n_steps"])


@PROP.sub(
    "long", whole.long_scripts(**OUT), 150, 2000, shards=3,
    rule="as scripted, with hundreds to thousands of steps and large strides; non-trivial: as "
    "scripted",
)
def long(case, rec):
    return scripted(case, rec)


@st.composite
def large_cases(draw):
    d = draw(st.integers(1, 2))
    many = draw(st.booleans())
    states = []
    for _ in range(draw(st.integers(1, 3))):
        low = [draw(st.integers(-9, 4)) for _ in range(d)]
        states.append([[lo, lo + draw(st.integers(4, 9))] for lo in low])
    if many:
        stride = draw(st.integers(1, 3))
        n_steps = draw(st.integers(1, 4))
        n_part = draw(st.sampled_from([70000, 33000, 300]))
    else:
        stride = draw(st.integers(3000000, 9000000))
        n_steps = draw(st.integers(16777217, 19000000))
        n_part = draw(st.integers(1, 3))
    return {
        "n_dim": d, "states": states, "stride": stride, "n_steps": n_steps, "n_part": n_part,
        "write": stride * draw(st.integers(1, 4)), "seed": draw(st.integers(0, 2**31)),
        "fmt": draw(st.sampled_from([None, "%d", "%.1f"])),
    }


@PROP.sub(
    "large", large_cases(), 5, 60, shards=3,
    rule="tens of thousands of particles, or tens of millions of time steps; non-trivial: a "
    "particle inside a state",
)
def large(case, rec):
    from bdld.actions.particle_distribution import ParticleDistributionAction

    n, d, stride = case["n_part"], case["n_dim"], case["stride"]
    rng = np.random.default_rng(case["seed"])
    # midpoints between the integer bounds, seldom outside of all states
    pos = {s: rng.integers(-9, 9, (n, d)) + 0.5 for s in range(stride, case["n_steps"] + 1, stride)}
    states = [[tuple(map(float, r)) for r in s] for s in case["states"]]
    particles = [whole.FakeParticle(np.zeros(d), np.zeros(d)) for _ in range(n)]
    inside = 0
    with ScratchDir() as path:
        name = path + "/out"
        act = ParticleDistributionAction(
            particles, states, stride, name, case["write"], case["fmt"])
        run = act.run
        for s in range(1, case["n_steps"] + 1):
            if s in pos:
                for p, x in zip(particles, pos[s]):
                    p.pos[:] = x
            run(s)
        act.final_run(case["n_steps"])
        _, rows, _ = whole.read_data(name)
        data = whole.numbers(rows, len(states) + 1, "out")
    require(data[:, 0].tolist() == list(pos), f"rows of the steps {data[:, 0].tolist()}, "
            f"expected {list(pos)}")
    for row, s in zip(data, pos):
        want = [
            int(np.sum(np.all([(x >= lo) & (x <= hi) for x, (lo, hi) in zip(pos[s].T, state)],
                              axis=0)))
            for state in states
        ]
        require(row[1:].tolist() == want, f"step {s} holds {row[1:].tolist()}, expected {want}")
        inside += sum(want)
    rec.label("many particles" if n > 3 else "many steps")
    return inside > 0


@PROP.sub(
    "program", whole.configs(pdist=True), 400, 8000, shards=4,
    rule="whole simulations; non-trivial: a particle inside a state",
)
def program(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        o = secs["particle-distribution"]
        pos = whole.positions(res)
        whole.check_pdist_file(o, secs["ld"]["n_steps"], pos, path)
        _labels(rec, o, secs["ld"]["n_steps"])
        return _nontrivial(o, pos, secs["ld"]["n_steps"])


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=50, max_particles=3, pdist=True, traj=False, hist=False, fes=False, delta_f=False))
    o = cfg["sections"]["particle-distribution"]
    o["filename"] = "out"
    o.setdefault("stride", 1)
    o["write-stride"] = o["stride"] * draw(st.integers(1, 5))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 140, 4000, shards=3,
    rule="programs killed at a random time step: all rows up to the last multiple of the write "
    "stride are in the file, complete and as in the whole run; non-trivial: at least one row",
)
def killed(case, rec):
    o = case["sections"]["particle-distribution"]
    return whole.check_killed(case, [(["out"], o["stride"], o["write-stride"])]) > 0
