"""C09: particles stay consistent and independent through every history"""
import numpy as np
from hypothesis import strategies as st

import gen
import noise
import whole
from core import Property, ScratchDir, require
from props.c07 import cfg_pot

PROP = Property(
    "C09",
    assumptions=["energies and forces are compared to the potential's own energy() and force()"
                 " to 1e-9 (their correctness is C03/C04)"],
)


@st.composite
def histories(draw):
    j = draw(gen.confining())
    d = j["n_dim"]
    pos = gen.inside(j["ranges"])
    mass = st.one_of(st.just(1.0), gen.dec(0.2, 4, 1), st.sampled_from([100.0, 63, 0.001]))
    how = st.sampled_from(["list", "array", "ints"])
    ops = []
    n = 0
    for _ in range(draw(st.integers(2, 16))):
        k = draw(st.integers(0, 13))
        if n < 2 or k == 0:
            ops.append({"op": "add", "pos": draw(pos), "mass": draw(mass), "as": draw(how)})
            n += 1
        elif k == 1:
            ops.append({"op": "insert", "at": draw(st.integers(0, n)), "pos": draw(pos),
                        "mass": draw(mass), "as": draw(how)})
            n += 1
        elif k == 2:
            ops.append({"op": "overwrite", "at": draw(st.integers(-n, n - 1)),
                        "pos": draw(pos), "mass": draw(mass), "as": draw(how)})
        elif k == 3:
            ops.append({"op": "remove", "at": draw(st.integers(-n, n - 1))})
            n -= 1
        elif k == 4:
            ops.append({"op": "wrong", "dim": draw(st.sampled_from([d - 1, d + 1, d + 2])),
                        "overwrite": draw(st.booleans())})
        elif k == 5:
            ops.append({"op": "move", "at": draw(st.integers(0, n - 1))})
        elif k <= 9:
            ops.append({"op": "step", "n": draw(st.integers(1, 3))})
        else:
            ops.append({"op": "bd"})
    return {
        "pot": j,
        "overdamped": draw(st.booleans()),
        "dt": draw(st.sampled_from([0.001, 0.01, 0.1])),
        "friction": draw(st.sampled_from([0.0, 1.0, 10.0])),
        "kt": draw(gen.dec(0.2, 3, 1)),
        "bw": draw(gen.dec(0.1, 0.6, 2)),
        "recalc": draw(st.booleans()),
        "seed": draw(st.integers(0, 10**6)),
        "default_mass": draw(st.booleans()),
        "ops": ops,
    }


def vals(ld):
    return [
        (np.array(p.pos, float), np.array(p.mom, float), float(p.mass)) for p in ld.particles
    ]


def same(a, b):
    # diverging dynamics may give nan
    return (np.array_equal(a[0], b[0], equal_nan=True)
            and np.array_equal(a[1], b[1], equal_nan=True) and a[2] == b[2])


def consistent(ld, pot, n_dim, what):
    ps = list(ld.particles)
    for i, p in enumerate(ps):
        for name in ("pos", "mom", "forces"):
            require(
                np.shape(getattr(p, name)) == (n_dim,),
                f"{what}: {name} of particle {i} has shape {np.shape(getattr(p, name))}",
            )
        x = np.array(p.pos, float)
        if not np.all(np.isfinite(x)):
            continue
        e, f = float(pot.energy(x)), np.array(pot.force(x), float)
        if not np.isfinite(e):
            continue
        require(
            abs(float(p.energy) - e) <= 1e-9 * (1 + abs(e)),
            f"{what}: particle {i} at {x.tolist()} stores energy {p.energy}, it is {e}",
        )
        require(
            bool(np.all(np.abs(np.array(p.forces, float) - f) <= 1e-9 * (1 + np.abs(f).max()))),
            f"{what}: particle {i} at {x.tolist()} stores forces {p.forces}, they are {f}",
        )
    arrays = []
    for i, p in enumerate(ps):
        for name in ("pos", "mom", "forces"):
            arrays.append((i, name, getattr(p, name)))
    for a in range(len(arrays)):
        for b in range(a):
            i, n1, x = arrays[a]
            k, n2, y = arrays[b]
            require(
                not np.shares_memory(x, y),
                f"{what}: {n1} of particle {i} and {n2} of particle {k} share memory",
            )
    for i in range(len(ps)):
        for k in range(i):
            require(ps[i] is not ps[k], f"{what}: particles {i} and {k} are the same object")


def as_given(pos, how):
    if how == "array":
        return np.array(pos, dtype=float)
    if how == "ints":
        return [int(round(x)) for x in pos]
    return list(pos)


@PROP.sub(
    "histories", histories(), 700, 20000, shards=7,
    rule="sequences of add/insert/overwrite/remove/wrong-dimension/in-place move/dynamics/"
    "birth-death operations, all invariants after every operation; non-trivial: a step or "
    "birth-death with at least 2 particles after a structural operation",
)
def history(case, rec):
    from bdld.actions.birth_death import BirthDeath
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD

    j = case["pot"]
    d = j["n_dim"]
    pot = gen.mk_pot(j)
    if case["overdamped"]:
        ld = OverdampedLD(pot, case["dt"], case["seed"])
    else:
        ld = BussiParinelloLD(pot, case["dt"], case["friction"], case["kt"], case["seed"])
    bd = BirthDeath(ld.particles, case["dt"], 1, [case["bw"]] * d, case["kt"],
                    20.0 / case["dt"], case["recalc"], seed=case["seed"])
    given = []  # caller's objects and copies of them
    interesting = False
    for num, op in enumerate(case["ops"]):
        what = f"after operation {num} ({op['op']})"
        old = vals(ld)
        kind = op["op"]
        if not all(np.all(np.isfinite(np.append(p.pos, p.energy))) for p in ld.particles):
            rec.label("diverged")  # too large time steps: nothing is specified any more
            break
        if kind in ("add", "insert", "overwrite"):
            obj = as_given(op["pos"], op["as"])
            keep = obj.copy()
            given.append((obj, keep))
            pos = np.array(keep, float)
            mass = op["mass"]
            if kind == "add":
                if case["default_mass"] and mass == 1.0:
                    ld.add_particle(obj)
                else:
                    ld.add_particle(obj, mass)
                at, want = len(old), old + [None]
            elif kind == "insert":
                ld.add_particle(obj, mass, op["at"])
                at, want = op["at"], old[: op["at"]] + [None] + old[op["at"] :]
            else:
                ld.add_particle(obj, mass, op["at"], True)
                at = op["at"] % len(old)
                want = old[:at] + [None] + old[at + 1 :]
            want[at] = (pos, np.zeros(d), mass)
        elif kind == "remove":
            ld.remove_particle(op["at"])
            want = list(old)
            del want[op["at"]]
        elif kind == "wrong":
            refused = False
            if op["dim"] > 0:
                try:
                    if op["overwrite"]:
                        ld.add_particle([0.1] * op["dim"], 1.0, 0, True)
                    else:
                        ld.add_particle([0.1] * op["dim"])
                except Exception:
                    refused = True
                require(refused, f"particle with {op['dim']} dimensions accepted in {d}d")
            want = old
        elif kind == "move":
            p = ld.particles[op["at"]]
            for arr in (p.pos, p.mom, p.forces):
                arr += 0.5
            now = vals(ld)
            for i, (a, b) in enumerate(zip(old, now)):
                if i != op["at"]:
                    require(same(a, b), f"moving particle {op['at']} changed particle {i}")
            for arr, v in ((p.pos, old[op["at"]][0]), (p.mom, old[op["at"]][1])):
                arr[:] = v
            p.forces -= 0.5
            want = old
        elif kind == "step":
            for _ in range(op["n"]):
                ld.run(num)
            now = vals(ld)
            require(
                [v[2] for v in now] == [v[2] for v in old],
                f"{what}: masses changed from {[v[2] for v in old]} to {[v[2] for v in now]}",
            )
            want = None
            if len(old) > 1 and num > 2:
                interesting = True
        else:
            events = bd.do_birth_death()
            want = list(old)
            for a, b in events:
                want[b] = want[a]
            if events:
                rec.label("events")
                interesting = True
        if want is not None:
            now = vals(ld)
            require(len(now) == len(want), f"{what}: {len(now)} particles, expected {len(want)}")
            for i, (a, b) in enumerate(zip(now, want)):
                require(same(a, b), f"{what}: particle {i} is {a}, expected {b}")
        consistent(ld, pot, d, what)
        for obj, keep in given:
            ok = np.array_equal(obj, keep) if isinstance(obj, np.ndarray) else obj == keep
            require(ok, f"{what}: the caller's position {keep} was changed to {obj}")
        # the caller may do with its objects whatever it wants
        if kind in ("add", "insert", "overwrite") and op["as"] == "array":
            before = vals(ld)
            obj[:] = 77.0
            given.pop()
            require(
                all(same(a, b) for a, b in zip(before, vals(ld))),
                f"{what}: particle shares memory with the caller's array",
            )
    rec.label("overdamped" if case["overdamped"] else "bussi", f"{d}d", str(j["bc"]))
    return interesting


def _collect(captured):
    shared = None
    for name in ("BussiParinelloLD", "OverdampedLD"):
        for ld in captured.get(name, []):
            ps = list(ld.particles)
            for i in range(len(ps)):
                for k in range(i):
                    for a in ("pos", "mom", "forces"):
                        if np.shares_memory(getattr(ps[i], a), getattr(ps[k], a)):
                            shared = (i, k, a)
    return {"shared": shared}


@PROP.sub(
    "program",
    whole.configs(traj="maybe", hist=False, fes=False, delta_f=False, max_particles=8),
    120, 3000, shards=4,
    rule="whole simulations: stored energies, forces, dimensions and masses after every step "
    "match the potential and the input; non-trivial: birth-death events took place",
)
def program(case, rec):
    with ScratchDir() as path:
        res = whole.run(case, path, collect=_collect)
    j = cfg_pot(case)
    pot = gen.mk_pot(j)
    mass = case["sections"]["particles"].get("mass", 1.0)
    n = case["sections"]["particles"]["number"]
    for t, s in enumerate(res.states):
        if noise.usable([s["pos"], s["pos"]]) == 0:
            break
        require(s["pos"].shape == (n, case["n_dim"]), f"step {t}: shape {s['pos'].shape}")
        require(s["mass"] == [mass] * n, f"step {t}: masses are {s['mass']}, not {mass}")
        f = noise.forces(j, pot, s["pos"])
        for i in range(n):
            e = float(pot.energy(s["pos"][i]))
            require(
                abs(s["energy"][i] - e) <= 1e-8 * (1 + abs(e)),
                f"step {t}: particle {i} stores energy {s['energy'][i]}, it is {e}",
            )
            require(
                bool(np.all(np.abs(s["forces"][i] - f[i]) <= 1e-8 * (1 + np.abs(f[i]).max()))),
                f"step {t}: particle {i} stores forces {s['forces'][i]}, they are {f[i]}",
            )
    sh = res.rec["collected"]["shared"]
    require(sh is None, f"particles share memory: {sh}")
    n_ev = sum(len(e) for _, e in res.rec["events"])
    rec.label("events" if n_ev else "no events", f"{case['n_dim']}d")
    return n_ev > 0


@st.composite
def particle_cases(draw):
    d = draw(gen.dims)
    num = gen.dec(-5, 5, 2)
    form = st.sampled_from(["list", "array", "ints", "scalar"])
    return {"pos": draw(gen.vec(num, d)), "pos_as": draw(form),
            "mom": draw(st.one_of(st.none(), gen.vec(num, draw(gen.dims)))),
            "mom_as": draw(form), "mass": draw(st.one_of(st.none(), gen.dec(0.1, 5, 1)))}


def given_as(v, how):
    if how == "scalar":
        return float(v[0]) if len(v) == 1 else list(v)
    return as_given(v, how)


@PROP.sub(
    "particle", particle_cases(), 400, 10000,
    rule="construction of single particles from numbers, lists and arrays: values, defaults, "
    "independence from the arguments, refused dimensions; non-trivial: momentum given",
)
def particle(case, rec):
    from bdld.particle import Particle

    pos = given_as(case["pos"], case["pos_as"])
    mom = None if case["mom"] is None else given_as(case["mom"], case["mom_as"])
    want_pos = np.atleast_1d(np.array(pos, float))
    kwargs = {}
    if mom is not None:
        kwargs["mom"] = mom
    if case["mass"] is not None:
        kwargs["mass"] = case["mass"]
    bad = mom is not None and len(np.atleast_1d(mom)) != len(want_pos)
    try:
        p = Particle(pos, **kwargs)
    except ValueError:
        require(bad, f"{case} was refused")
        rec.label("refused")
        return True
    require(not bad, "a momentum of the wrong dimension was accepted")
    require(np.array_equal(p.pos, want_pos), f"position {p.pos}, given {pos}")
    want_mom = np.zeros(len(want_pos)) if mom is None else np.atleast_1d(np.array(mom, float))
    require(
        np.shape(p.mom) == np.shape(want_mom) and np.array_equal(p.mom, want_mom),
        f"momentum {p.mom}, expected {want_mom}",
    )
    require(p.mass == (1.0 if case["mass"] is None else case["mass"]), f"mass {p.mass}")
    for x, y in ((p.pos, pos), (p.mom, mom), (p.pos, p.mom)):
        if isinstance(y, np.ndarray):
            require(not np.shares_memory(x, y), "the particle shares memory")
    p.pos += 1.5
    p.mom += 2.5
    require(np.array_equal(np.atleast_1d(np.array(pos, float)), want_pos),
            "moving the particle changed the given position")
    if mom is not None:
        require(np.array_equal(np.atleast_1d(np.array(mom, float)), want_mom),
                "the given momentum was changed")
    rec.label("defaults" if not kwargs else "given")
    return mom is not None
