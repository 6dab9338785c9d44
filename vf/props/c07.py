"""C07: Bussi-Parrinello integrator"""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import noise
import whole
from core import Property, ScratchDir, require

PROP = Property(
    "C07",
    assumptions=[
        "statistical oracles alarm at p < 1e-9 per test",
        "deterministic parts are compared to a relative accuracy of 1e-9",
    ],
)


masses = st.one_of(st.just(1.0), gen.dec(0.3, 5, 1), gen.dec(0.3, 5, 1),
                   st.sampled_from([0.01, 0.03, 0.125, 18.0]))


def make_ld(j, dt, friction, kt, seed):
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD

    pot = gen.mk_pot(j)
    return pot, BussiParinelloLD(pot, dt, friction, kt, seed)


def state(ld):
    return (
        np.array([np.array(p.pos, float) for p in ld.particles]),
        np.array([np.array(p.mom, float) for p in ld.particles]),
    )


def set_mom(ld, moms):
    for p, m in zip(ld.particles, moms):
        p.mom = np.array(m, dtype=float)


@st.composite
def verlet_cases(draw):
    j = draw(gen.confining(bc=False))
    n = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(["friction", "friction", "dt"]))
    return {
        "pot": j,
        "start": [draw(gen.inside(j["ranges"])) for _ in range(n)],
        "mom": [draw(gen.vec(gen.dec(-2, 2, 2), j["n_dim"])) for _ in range(n)],
        "mass": [draw(masses) for _ in range(n)],
        "friction": 0.0 if mode == "friction" else draw(gen.dec(0, 20, 1)),
        "kt": draw(gen.dec(0.1, 5, 1)),
        "dt": draw(st.sampled_from([0.001, 0.01, 0.05, 0.2])) if mode == "friction" else 0.0,
        "seed": draw(st.one_of(st.none(), st.integers(0, 1000))),
        "steps": draw(st.integers(1, 12)),
        "how": draw(st.sampled_from(noise.HOW)),
    }


@PROP.sub(
    "verlet", verlet_cases(), 900, 20000, shards=3,
    rule="zero friction: every step equals one velocity-Verlet step of the reference; zero "
    "time step: nothing moves; non-trivial: moving particles",
)
def verlet(case, rec):
    j, dt = case["pot"], case["dt"]
    pot, ld = make_ld(j, dt, case["friction"], case["kt"], case["seed"])
    noise.fill(ld, case["start"], case["mass"], case.get("how"))
    set_mom(ld, case["mom"])
    mass = np.array(case["mass"]).reshape(-1, 1)
    for s in range(1, case["steps"] + 1):
        x0, p0 = state(ld)
        if noise.usable([x0, x0]) == 0:
            break
        ld.run(s)
        x1, p1 = state(ld)
        f0 = noise.forces(j, pot, x0)
        mid = p0 + 0.5 * dt * f0
        want_x = x0 + dt * mid / mass
        f1 = noise.forces(j, pot, want_x)
        want_p = mid + 0.5 * dt * f1
        for name, got, want, scale in (
            ("position", x1, want_x, np.abs(x0) + dt * np.abs(mid) / mass),
            ("momentum", p1, want_p,
             np.abs(p0) + dt * (np.abs(f0).max(1) + np.abs(f1).max(1))[:, None]),
        ):
            bad = np.abs(got - want) > 1e-9 * (scale + 1e-3)
            require(
                not bad.any(),
                f"step {s}: {name} {got.tolist()} instead of {want.tolist()} "
                f"(friction {case['friction']}, dt {dt})",
            )
    rec.label(f"{j['n_dim']}d", "dt 0" if dt == 0 else "friction 0")
    return dt > 0


@st.composite
def noise_cases(draw):
    j = draw(gen.confining(bc=False))
    n = draw(st.integers(1, 8))
    fr = draw(st.sampled_from([1e-4, 0.02, 0.2, 1.0, 5.0, 10.0, 50.0, 300.0]))
    dt = draw(st.sampled_from([1e-4, 0.002, 0.005, 0.01, 0.02]))
    if j["type"] == "mueller-brown":
        dt = 0.001
    return {
        "pot": j,
        "start": [draw(gen.inside(j["ranges"])) for _ in range(n)],
        "mass": [draw(masses) for _ in range(n)],
        "friction": fr,
        "kt": draw(st.one_of(gen.dec(0.1, 4, 1), st.sampled_from([0.003, 60.0]))),
        "dt": dt,
        "seed": draw(st.integers(0, 10**6)),
        "bd": draw(st.integers(0, 3)) == 0,
        "how": draw(st.sampled_from(noise.HOW)),
    }


@PROP.sub(
    "noise", noise_cases(), 120, 4000, shards=8,
    rule="noise of both half-steps recovered from positions and momenta: standard normal after "
    "dividing by the documented deviation, uncorrelated between half-steps, steps, dimensions, "
    "particles and with the momentum; with different masses and particles copied by "
    "birth-death in between; always non-trivial",
)
def thermostat(case, rec):
    from bdld.actions.birth_death import BirthDeath

    j, dt, fr, kt = case["pot"], case["dt"], case["friction"], case["kt"]
    pot, ld = make_ld(j, dt, fr, kt, case["seed"])
    noise.fill(ld, case["start"], case["mass"], case.get("how"))
    n = len(case["start"])
    bd = None
    if case["bd"] and n > 1:
        bd = BirthDeath(ld.particles, dt, 10, [0.3] * j["n_dim"], kt, 500.0, seed=5)
    steps = max(60, 2400 // (n * j["n_dim"]))
    out = {"first half": [], "second half": [], "mom": [], "full": []}
    copies = 0
    for s in range(1, steps + 1):
        old = state(ld)
        if noise.usable([old[0], old[0]]) == 0:
            break
        masses = [p.mass for p in ld.particles]
        ld.run(s)
        new = state(ld)
        if not noise.exact(j, pot, old, new, masses, fr, kt, dt):
            break
        r1, r2, p, full = noise.bussi(j, pot, old, new, masses, fr, kt, dt)
        out["first half"].append(r1)
        out["second half"].append(r2)
        out["mom"].append(p)
        out["full"].append(full)
        if bd and s % 10 == 0:
            copies += len(bd.do_birth_death())
    if not out["mom"]:
        return False
    what = f"friction {fr}, dt {dt}, kt {kt}, masses {case['mass']}"
    arr = {k: np.array(v) for k, v in out.items()}
    noise.independent({k: arr[k] for k in ("first half", "second half")}, what)
    if not bd:
        noise.uncorrelated(arr["first half"], arr["mom"], what + ": noise and momentum before")
        noise.uncorrelated(arr["second half"], arr["full"], what + ": noise and momentum (2nd)")
    # every particle on its own: the deviation depends on its mass
    for i in range(n):
        noise.standard_normal(
            [arr["first half"][:, i], arr["second half"][:, i]], f"{what}, particle {i}"
        )
    rec.label(f"{j['n_dim']}d", "copies" if copies else "no copies", j["type"])
    return True


@st.composite
def crowd_cases(draw):
    d = draw(gen.dims)
    j = draw(gen.confining(n_dim=d, bc=False, mueller=False))
    return {
        "pot": j,
        "number": draw(st.integers(60, 400)),
        "steps": draw(st.integers(40, 90)),
        "first": draw(st.sampled_from([1, 1, 100, 5000])),
        "mass": draw(st.lists(masses, min_size=1, max_size=3)),
        "friction": draw(st.sampled_from([0.5, 5.0, 40.0])),
        "kt": draw(gen.dec(0.1, 4, 1)),
        "dt": draw(st.sampled_from([0.002, 0.01])),
        "seed": draw(st.integers(0, 10**6)),
        "how": draw(st.sampled_from(noise.HOW)),
    }


def starts(case):
    """Positions spread over the potential range"""
    r = np.random.default_rng(case["seed"] + 77)
    lo, hi = np.array(case["pot"]["ranges"], dtype=float).T
    return lo + (hi - lo) * r.random((case["number"], len(lo)))


@PROP.sub(
    "crowd", crowd_cases(), 8, 300, shards=4,
    rule="up to 400 particles: noise of every particle recovered, also far from the mean, no "
    "repetition between particles and steps; always non-trivial",
)
def crowd(case, rec):
    j, dt, fr, kt = case["pot"], case["dt"], case["friction"], case["kt"]
    pot, ld = make_ld(j, dt, fr, kt, case["seed"])
    mass = [case["mass"][i % len(case["mass"])] for i in range(case["number"])]
    noise.fill(ld, starts(case), mass, case.get("how"))
    res = []
    for s in range(case["first"], case["first"] + case["steps"]):
        old = state(ld)
        if noise.usable([old[0], old[0]]) == 0:
            break
        ld.run(s)
        new = state(ld)
        if not noise.exact(j, pot, old, new, mass, fr, kt, dt):
            break
        res.append(noise.bussi(j, pot, old, new, mass, fr, kt, dt)[:2])
    if not res:
        return False
    r = np.array(res)
    what = f"{case['number']} particles, friction {fr}, dt {dt}, kt {kt}, masses {case['mass']}"
    noise.independent({"first half": r[:, 0], "second half": r[:, 1]}, what)
    for i in range(case["number"]):
        noise.standard_normal(r[:, :, i], f"{what}, particle {i}")
    rec.label(f"{j['n_dim']}d")
    return True


@st.composite
def linear_cases(draw):
    d = draw(gen.dims)
    n = draw(st.integers(1, 3))
    shape = [2] * d
    c = np.zeros(shape)
    for i in range(d):
        idx = [0] * d
        idx[i] = 1
        c[tuple(idx)] = draw(gen.dec(-1, 1, 1))
    par = st.fixed_dictionaries({
        "dt": st.sampled_from([0.001, 0.01, 0.1, 0.5]),
        "friction": st.one_of(gen.dec(0.1, 20, 1), st.sampled_from([100.0, 0.01, 1e-4])),
        "kt": gen.dec(0.1, 4, 1),
        "how": st.sampled_from(noise.HOW),
        "mass": gen.vec(st.one_of(masses, st.sampled_from([0.001, 0.0004, 1.0005])), n),
    })
    return {
        "pot": {"type": "polynomial", "n_dim": d, "coeffs": c.tolist(),
                "ranges": [[-1.0, 1.0]] * d},
        "n": n,
        "a": draw(par),
        "b": draw(par),
        "dmom": draw(gen.vec(gen.dec(-3, 3, 1), d)),
        "seed": draw(st.integers(0, 10**6)),
        "steps": draw(st.integers(4, 10)),
    }


@PROP.sub(
    "relations", linear_cases(), 1200, 30000, shards=4,
    rule="pairs of runs with the same seed in a constant force: a different initial momentum "
    "decays by exactly the documented factor per half-step, and (where both runs use the same "
    "random numbers) the noise has the same standardised size for any two parameter sets; "
    "non-trivial: momentum differs",
)
def relations(case, rec):
    j = case["pot"]

    def run(par, extra):
        pot, ld = make_ld(j, par["dt"], par["friction"], par["kt"], case["seed"])
        noise.fill(ld, [[0.0] * j["n_dim"]] * case["n"], par["mass"], par.get("how"))
        set_mom(ld, [np.array(extra) for _ in range(case["n"])])
        states = [state(ld)]
        for s in range(1, case["steps"] + 1):
            ld.run(s)
            states.append(state(ld))
        return pot, states

    zero = [0.0] * j["n_dim"]
    a = case["a"]
    pot, s0 = run(a, zero)
    _, s1 = run(a, case["dmom"])
    c1 = math.exp(-0.5 * a["friction"] * a["dt"])
    amass = np.array(a["mass"]).reshape(-1, 1)
    for t in range(case["steps"]):
        dx = s1[t + 1][0] - s0[t + 1][0] - (s1[t][0] - s0[t][0])
        dp0 = s1[t][1] - s0[t][1]
        dp1 = s1[t + 1][1] - s0[t + 1][1]
        scale = 1 + np.abs(s1[t + 1][1]).max() + np.abs(s1[t + 1][0]).max()
        require(
            bool(np.all(np.abs(dp1 - c1 * c1 * dp0) < 1e-9 * scale)),
            f"momentum difference {dp0.tolist()} became {dp1.tolist()}, expected a factor "
            f"{c1 * c1} ({a})",
        )
        require(
            bool(np.all(np.abs(dx - c1 * dp0 * a["dt"] / amass) < 1e-9 * scale)),
            f"displacement difference {dx.tolist()} for momentum difference {dp0.tolist()} ({a})",
        )

    def rnd(par, states):
        res = [
            noise.bussi(j, pot, states[t], states[t + 1], par["mass"],
                        par["friction"], par["kt"], par["dt"])[:2]
            for t in range(case["steps"])
        ]
        return np.array(res)

    _, sb = run(case["b"], zero)
    ra, rb = rnd(a, s0), rnd(case["b"], sb)
    for half, name in ((0, "first"), (1, "second")):
        for i in range(case["n"]):
            q = noise.same_up_to_scale(
                np.tile(ra[:, half, i], 10), np.tile(rb[:, half, i], 10)
            )
            if q is not None:
                require(
                    abs(q - 1) < 1e-4,
                    f"{name} half-step, particle {i}: standardised noise of {a} is {q} times "
                    f"that of {case['b']}",
                )
                rec.label("same random numbers")
    return any(case["dmom"])


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(traj=False, hist=False, fes=False, delta_f=False, pdist=False,
                             bd=False, bc=False, overdamped=False, max_particles=2))
    cfg["sections"]["particles"]["number"] = draw(st.integers(10, 25))
    cfg["sections"]["ld"]["n_steps"] = draw(st.integers(30, 60))
    return cfg


def cfg_pot(cfg):
    p = cfg["sections"]["potential"]
    if p["type"] == "mueller-brown":
        return {"type": "mueller-brown", "n_dim": 2, "scaling": p["scaling-factor"],
                "ranges": cfg["ranges"]}
    return {"type": "polynomial", "n_dim": cfg["n_dim"], "ranges": cfg["ranges"],
            "coeffs": cfg["coeffs"] if cfg["coeffs"] is not None else p["coeffs"]}


@PROP.sub(
    "program", prog_cases(), 120, 3000, shards=5,
    rule="whole simulations: noise recovered from the states with the settings of the input "
    "file (zero friction: deterministic steps); non-trivial: friction > 0",
)
def program(case, rec):
    ld = case["sections"]["ld"]
    with ScratchDir() as path:
        res = whole.run(case, path)
    j = cfg_pot(case)
    pot = gen.mk_pot(j)
    mass = case["sections"]["particles"].get("mass", 1.0)
    st_ = [(s["pos"], s["mom"]) for s in res.states]
    dt, fr, kt = ld["timestep"], ld["friction"], ld["kt"]
    n = len(st_[0][0])
    n_use = noise.usable([x for x, _ in st_])
    what = f"timestep {dt}, friction {fr}, kt {kt}, mass {mass}"
    if fr == 0:
        for t in range(n_use):
            (x0, p0), (x1, p1) = st_[t], st_[t + 1]
            mid = p0 + 0.5 * dt * noise.forces(j, pot, x0)
            wx = x0 + dt * mid / mass
            wp = mid + 0.5 * dt * noise.forces(j, pot, wx)
            require(
                bool(np.allclose(x1, wx, rtol=1e-7, atol=1e-8))
                and bool(np.allclose(p1, wp, rtol=1e-7, atol=1e-7)),
                f"step {t + 1} without friction is no velocity-Verlet step ({what})",
            )
        rec.label("friction 0")
        return False
    r = []
    for t in range(n_use):
        if not noise.exact(j, pot, st_[t], st_[t + 1], [mass] * n, fr, kt, dt):
            break
        r.append(noise.bussi(j, pot, st_[t], st_[t + 1], [mass] * n, fr, kt, dt)[:2])
    if not r:
        return False
    r = np.array(r)
    noise.independent({"first half": r[:, 0], "second half": r[:, 1]}, what)
    rec.label(f"{j['n_dim']}d")
    return True
