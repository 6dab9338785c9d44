"""C08: overdamped integrator"""
import numpy as np
from hypothesis import strategies as st

import gen
import noise
import whole
from core import Property, ScratchDir, require
from props.c07 import cfg_pot, starts

PROP = Property(
    "C08",
    assumptions=["statistical oracles alarm at p < 1e-9 per test"],
)


def make_ld(j, dt, seed):
    from bdld.actions.overdamped_ld import OverdampedLD

    pot = gen.mk_pot(j)
    return pot, OverdampedLD(pot, dt, seed)


def positions(ld):
    return np.array([np.array(p.pos, float) for p in ld.particles])


def no_momentum(ld, s):
    for i, p in enumerate(ld.particles):
        require(
            np.shape(p.mom) == np.shape(p.pos) and not np.any(p.mom),
            f"particle {i} has momentum {p.mom} after step {s}",
        )


@st.composite
def noise_cases(draw):
    j = draw(gen.confining(bc=False))
    n = draw(st.integers(1, 8))
    dt = draw(st.sampled_from([0.0005, 0.002, 0.01, 0.02]))
    if j["type"] == "mueller-brown":
        dt = 0.0005
    return {
        "pot": j,
        "start": [draw(gen.inside(j["ranges"])) for _ in range(n)],
        "mass": [draw(st.one_of(st.just(1.0), gen.dec(0.3, 5, 1))) for _ in range(n)],
        "dt": dt,
        "seed": draw(st.integers(0, 10**6)),
        "bd": draw(st.integers(0, 3)) == 0,
        "how": draw(st.sampled_from(noise.HOW)),
    }


@PROP.sub(
    "noise", noise_cases(), 140, 4000, shards=8,
    rule="noise recovered from positions: displacement minus dt*force divided by sqrt(2 dt) is "
    "standard normal and uncorrelated between steps, dimensions and particles and with the "
    "force; always non-trivial",
)
def displacement(case, rec):
    from bdld.actions.birth_death import BirthDeath

    j, dt = case["pot"], case["dt"]
    pot, ld = make_ld(j, dt, case["seed"])
    noise.fill(ld, case["start"], case["mass"], case.get("how"))
    n = len(case["start"])
    bd = None
    if case["bd"] and n > 1:
        bd = BirthDeath(ld.particles, dt, 10, [0.3] * j["n_dim"], 1.0, 500.0, seed=5)
    r, f = [], []
    steps = max(80, 3600 // (n * j["n_dim"]))
    for s in range(1, steps + 1):
        old = positions(ld)
        if noise.usable([old, old]) == 0:
            break
        ld.run(s)
        no_momentum(ld, s)
        r.append(noise.overdamped(j, pot, old, positions(ld), dt))
        f.append(noise.forces(j, pot, old))
        if bd and s % 10 == 0:
            bd.do_birth_death()
    what = f"dt {dt}, masses {case['mass']}"
    if not r:
        return False
    r, f = np.array(r), np.array(f)
    noise.independent({"displacement": r}, what)
    noise.uncorrelated(r, f / (np.abs(f).max() + 1e-12), what + ": noise and force")
    for i in range(n):
        noise.standard_normal(r[:, i], f"{what}, particle {i}")
    rec.label(f"{j['n_dim']}d", j["type"])
    return True


@st.composite
def crowd_cases(draw):
    j = draw(gen.confining(n_dim=draw(gen.dims), bc=False, mueller=False))
    return {
        "pot": j,
        "number": draw(st.integers(60, 500)),
        "steps": draw(st.integers(40, 90)),
        "first": draw(st.sampled_from([1, 1, 100, 5000])),
        "dt": draw(st.sampled_from([0.0005, 0.002, 0.01])),
        "seed": draw(st.integers(0, 10**6)),
    }


@PROP.sub(
    "crowd", crowd_cases(), 8, 300, shards=4,
    rule="up to 500 particles: noise of every particle recovered, also far from the mean, no "
    "repetition between particles and steps; always non-trivial",
)
def crowd(case, rec):
    j, dt = case["pot"], case["dt"]
    pot, ld = make_ld(j, dt, case["seed"])
    for p in starts(case):
        ld.add_particle(p)
    r = []
    for s in range(case["first"], case["first"] + case["steps"]):
        old = positions(ld)
        if noise.usable([old, old]) == 0:
            break
        ld.run(s)
        r.append(noise.overdamped(j, pot, old, positions(ld), dt))
    if not r:
        return False
    r = np.array(r)
    what = f"{case['number']} particles, dt {dt}"
    noise.independent({"displacement": r}, what)
    for i in range(case["number"]):
        noise.standard_normal(r[:, i], f"{what}, particle {i}")
    rec.label(f"{j['n_dim']}d")
    return True


@st.composite
def rel_cases(draw):
    j = draw(gen.confining(bc=False, mueller=False))
    n = draw(st.integers(1, 4))
    return {
        "pot": j,
        "start": [draw(gen.inside(j["ranges"])) for _ in range(n)],
        "mass": [draw(gen.dec(0.3, 5, 1)) for _ in range(n)],
        "force": draw(gen.vec(gen.dec(-3, 3, 1), j["n_dim"])),
        "dt": draw(st.sampled_from([0.0, 0.0005, 0.01, 0.05, 0.3])),
        "dt2": draw(st.sampled_from([0.0005, 0.01, 0.05, 0.2])),
        "seed": draw(st.integers(0, 10**6)),
        "steps": draw(st.integers(4, 10)),
    }


@PROP.sub(
    "relations", rel_cases(), 1200, 30000, shards=4,
    rule="runs with the same seed: masses have no influence; an additional constant force adds "
    "exactly dt*force; time step zero moves nothing; the standardised noise is the same for two "
    "time steps (where both use the same random numbers); non-trivial: dt > 0",
)
def relations(case, rec):
    j, dt = case["pot"], case["dt"]

    def run(pj, dt, masses):
        pot, ld = make_ld(pj, dt, case["seed"])
        for p, m in zip(case["start"], masses):
            ld.add_particle(p, m)
        xs = [positions(ld)]
        for s in range(1, case["steps"] + 1):
            ld.run(s)
            no_momentum(ld, s)
            xs.append(positions(ld))
        return pot, xs

    pot, xa = run(j, dt, case["mass"])
    _, xb = run(j, dt, [1.0] * len(case["mass"]))
    for t, (a, b) in enumerate(zip(xa, xb)):
        require(bool(np.array_equal(a, b, equal_nan=True)), f"step {t}: the mass changes positions: {a} {b}")
    if dt == 0:
        for t, a in enumerate(xa):
            require(bool(np.array_equal(a, xa[0])), f"step {t}: moved with time step zero")
        rec.label("dt 0")
        return False
    j2 = dict(j)
    c = np.array(j["coeffs"], dtype=float)
    shape = [max(2, k) for k in c.shape]
    big = np.zeros(shape)
    big[tuple(slice(0, k) for k in c.shape)] = c
    for i, f in enumerate(case["force"]):
        idx = [0] * c.ndim
        idx[i] = 1
        big[tuple(idx)] -= f
    j2["coeffs"] = big.tolist()
    _, xc = run(j2, dt, case["mass"])
    diff = xc[1] - xa[1]
    require(
        bool(np.allclose(diff, dt * np.array(case["force"]), rtol=1e-7, atol=1e-9)),
        f"additional force {case['force']} moved the particles by {diff.tolist()} (dt {dt})",
    )
    _, xd = run(j, case["dt2"], case["mass"])
    ra = noise.overdamped(j, pot, xa[0], xa[1], dt)
    rd = noise.overdamped(j, pot, xd[0], xd[1], case["dt2"])
    q = noise.same_up_to_scale(np.tile(ra, 20), np.tile(rd, 20))
    if q is not None:
        require(
            abs(q - 1) < 1e-3,
            f"standardised noise for dt {dt} is {q} times that for dt {case['dt2']}",
        )
        rec.label("same random numbers")
    return True


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(traj=False, hist=False, fes=False, delta_f=False, pdist=False,
                             bd=False, bc=False, overdamped=True, max_particles=2))
    cfg["sections"]["particles"]["number"] = draw(st.integers(10, 25))
    cfg["sections"]["ld"]["n_steps"] = draw(st.integers(30, 60))
    cfg["extra"] = {
        "kt": draw(gen.dec(0.2, 5, 1)), "friction": draw(gen.dec(0, 20, 1))
    }
    cfg["mass2"] = draw(gen.dec(0.3, 6, 1))
    return cfg


@PROP.sub(
    "program", prog_cases(), 100, 2500, shards=5,
    rule="whole overdamped simulations: recovered noise is standard normal; kt, friction and "
    "mass in the input have no influence; always non-trivial",
)
def program(case, rec):
    ld = case["sections"]["ld"]
    with ScratchDir() as path:
        res = whole.run(case, path)
    j = cfg_pot(case)
    pot = gen.mk_pot(j)
    xs = [s["pos"] for s in res.states]
    dt = ld["timestep"]
    r = np.array([noise.overdamped(j, pot, xs[t], xs[t + 1], dt) for t in range(noise.usable(xs))])
    if len(r) == 0:
        return False
    noise.independent({"displacement": r}, f"timestep {dt}")
    for t, s in enumerate(res.states):
        require(not np.any(s["mom"]), f"momentum after step {t}: {s['mom'].tolist()}")
    other = {"sections": {k: dict(v) for k, v in case["sections"].items()},
             "coeffs": case["coeffs"]}
    other["sections"]["ld"].update(case["extra"])
    other["sections"]["particles"]["mass"] = case["mass2"]
    with ScratchDir() as path:
        res2 = whole.run(other, path)
    for t, (a, b) in enumerate(zip(res.states, res2.states)):
        require(
            bool(np.array_equal(a["pos"], b["pos"], equal_nan=True)),
            f"step {t}: {case['extra']} or mass {case['mass2']} changed the positions",
        )
    rec.label(f"{j['n_dim']}d")
    return True
