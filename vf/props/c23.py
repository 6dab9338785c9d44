"""C23: seeded simulations are bit-for-bit reproducible"""
import copy
import os

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import whole
from core import Property, ScratchDir, require

PROP = Property(
    "C23",
    assumptions=[
        "a changed seed is only required to change the outcome where the random numbers used "
        "are continuous (initial placement over a range, thermostat noise) or numerous enough "
        "that the same outcome has a probability below 1e-12 (birth-death events, placement on "
        "given positions)",
        "byte-identity of plots is not required (they contain the time of writing)",
    ],
)

big_seeds = st.one_of(
    st.just(0), st.just(0), st.integers(0, 5), st.integers(0, 2**31), st.integers(0, 2**64),
    st.integers(0, 2**100),
)


@st.composite
def cases(draw, **kw):
    cfg = draw(whole.configs(**kw))
    secs = cfg["sections"]
    for s in ("ld", "particles", "birth-death"):
        if s in secs:
            secs[s]["seed"] = draw(big_seeds)
    b = secs.get("birth-death")
    if b and draw(st.integers(0, 3)):  # many events
        b["exponential-factor"] = draw(st.sampled_from([30.0, 100.0]))
        b["stride"] = min(b["stride"], 3)
    cfg["style"] = draw(st.sampled_from(["fork", "fork", "same"]))
    return cfg


def compare(a, b, what):
    require(set(a) == set(b), f"{what}: files {sorted(a)} and {sorted(b)}")
    for f in sorted(a):
        if a[f] != b[f]:
            la, lb = a[f].splitlines(), b[f].splitlines()
            i = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            require(False, f"{what}: {f} differs in line {i + 1}: {la[i:i+1]} / {lb[i:i+1]}")


def note(case, rec):
    secs = case["sections"]
    rec.label(secs["ld"]["type"], secs["potential"]["type"],
              secs["particles"]["initial-distribution"], *[s for s in secs])
    for s in ("ld", "particles", "birth-death"):
        if s in secs and secs[s]["seed"] == 0:
            rec.label(f"{s} seed 0")
    b = secs.get("birth-death")
    if b:
        rec.label(str(b.get("approximation-variant") or b.get("correction-variant")))


def twice_in_one_process(case, path):
    """Both simulations one after the other in the same process"""
    second = os.path.join(path, "b")
    os.mkdir(second)
    whole.write_input(case, second)
    whole.write_input(case, path)

    def patch(rec):
        from bdld import main as bdmain

        orig = bdmain.main

        def both():
            os.chdir(second)
            orig()
            np.random.seed(7)  # global state is not part of the input
            np.random.random(5)
            os.chdir(path)
            orig()

        bdmain.main = both

    res = sim.run_bdld(path, patch=patch)
    res.need_ok()
    files = whole.outputs(path)
    a = {k: v for k, v in files.items() if os.path.dirname(k) == ""}
    b = {k[2:]: v for k, v in files.items()
         if k.startswith("b/") and k[2:] not in whole.INPUT_FILES}
    return a, b


@PROP.sub(
    "identical", cases(max_steps=60, max_particles=6), 450, 12000, shards=7,
    rule="the same input (all integrators, potentials, distributions, variants, outputs; seeds "
    "including 0) run twice in separate and in the same process: all files byte-identical; "
    "non-trivial: at least one file and two particles or steps",
)
def identical(case, rec):
    note(case, rec)
    rec.label(case["style"])
    if case["style"] == "same":
        with ScratchDir() as path:
            a, b = twice_in_one_process(case, path)
        compare(a, b, "two runs in one process")
        return bool(a)
    results = []
    for _ in range(2):
        with ScratchDir() as path:
            res = whole.run(case, path)
            results.append((whole.outputs(path), res.states, res.rec["events"]))
    compare(results[0][0], results[1][0], "two runs")
    for s, (x, y) in enumerate(zip(results[0][1], results[1][1])):
        for k in ("pos", "mom"):
            require(
                np.array_equal(x[k], y[k], equal_nan=True),
                f"{'positions' if k == 'pos' else 'momenta'} differ between two runs at step {s}",
            )
    require(results[0][2] == results[1][2], "birth-death events differ between two runs")
    if sum(len(ev) for _, ev in results[0][2]) > 2:
        rec.label("several events")
    return bool(results[0][0])


@PROP.sub(
    "processes", cases(max_steps=25, traj=True, bd=True), 16, 400, shards=8,
    rule="the same input run as python -m bdld and by bin/bdld_run in new interpreters with "
    "different hash seeds and working directories; always non-trivial",
)
def processes(case, rec):
    note(case, rec)
    results = []
    runner = os.path.join(sim.REPO, "bin", "bdld_run")
    hows = ["module", runner if os.path.exists(runner) else "module"]
    for i, how in enumerate(hows):
        with ScratchDir() as path:
            cwd = os.path.join(path, "x" * (i + 1))
            os.mkdir(cwd)
            whole.write_input(case, cwd)
            old = os.environ.get("PYTHONHASHSEED")
            os.environ["PYTHONHASHSEED"] = str(100 + i)
            try:
                res = sim.run_process(cwd, how=how)
            finally:
                os.environ["PYTHONHASHSEED"] = old or "0"
            res.need_ok()
            results.append(whole.outputs(cwd))
    compare(results[0], results[1], "two processes")
    require(any(k.startswith("traj") for k in results[0]), "no trajectory was written")
    return True


@st.composite
def change_cases(draw):
    which = draw(st.sampled_from(["ld", "particles", "birth-death", "positions"]))
    pot = draw(gen.confining())
    d = pot["n_dim"]
    lst = (lambda v: v[0]) if d == 1 else (lambda v: list(v))
    secs = {
        "ld": {"type": draw(st.sampled_from(["overdamped", "bussi-parinello"])),
               "timestep": 0.001 if pot["type"] == "mueller-brown" else 0.01, "n_steps": 3},
    }
    if secs["ld"]["type"] == "bussi-parinello":
        secs["ld"].update({"kt": draw(gen.dec(0.5, 2, 1)), "friction": draw(gen.dec(0.5, 10, 1))})
    coeffs = None
    if pot["type"] == "polynomial":
        secs["potential"] = {"type": "polynomial", "n_dim": d, "coeffs-file": whole.COEFFS_FILE,
                             "min": lst([r[0] for r in pot["ranges"]]),
                             "max": lst([r[1] for r in pot["ranges"]])}
        coeffs = pot["coeffs"]
    else:
        secs["potential"] = {"type": "mueller-brown", "scaling-factor": 0.05}
    pa = {"number": draw(st.integers(2, 5)), "initial-distribution": "random-global"}
    if which == "positions":
        pa = {"number": 300, "initial-distribution": "random-pos"}
        for i in range(2):
            pa[f"pos{i+1}"] = [r[i] for r in pot["ranges"]]
        secs["ld"]["n_steps"] = 1
    elif which == "birth-death":
        pa["number"] = 60
        secs["ld"]["n_steps"] = 12
        secs["birth-death"] = {"stride": 1, "kernel-bandwidth": lst([0.2] * d),
                               "exponential-factor": 50.0,
                               "recalculate-probabilities": draw(st.booleans()) and d == 1}
        if d == 1 and draw(st.booleans()):
            secs["birth-death"]["approximation-variant"] = draw(
                st.sampled_from(["add", "multiplicative"]))
    secs["particles"] = pa
    a = draw(st.sampled_from([0, 1, 5, 7, 300]))
    b = a + draw(st.sampled_from(
        [1, 1000, 10**6, 10**9] + [2**k for k in (7, 8, 15, 16, 31, 32, 33, 53, 63, 64)]))
    if draw(st.booleans()):
        a, b = b, a
    for s in ("ld", "particles", "birth-death"):
        if s in secs:
            secs[s]["seed"] = draw(st.integers(0, 50))
    target = "particles" if which == "positions" else which
    return {"sections": secs, "coeffs": coeffs, "which": which, "target": target, "seeds": [a, b],
            "n_dim": d}


@PROP.sub(
    "different", change_cases(), 160, 4000, shards=5,
    rule="two runs that differ in one seed: the outcome this seed controls differs while the "
    "initial placement only depends on the particles' seed and the noise of the first step only "
    "on the integrator's; always non-trivial",
)
def different(case, rec):
    rec.label(case["which"], case["sections"]["ld"]["type"])
    t = case["target"]
    results = []
    for seed in case["seeds"]:
        cfg = copy.deepcopy(case)
        cfg["sections"][t]["seed"] = seed
        with ScratchDir() as path:
            results.append(whole.run(cfg, path))
    a, b = results
    start = [np.asarray(r.states[0]["pos"]) for r in results]
    first = [np.asarray(r.states[1]["pos"]) for r in results]
    if t == "particles":
        require(
            not np.array_equal(start[0], start[1]),
            f"seeds {case['seeds']} of [particles] give the same initial positions",
        )
    else:
        require(
            np.array_equal(start[0], start[1]),
            f"the seed of [{t}] changes the initial positions",
        )
    if t == "ld":
        require(
            not np.any(first[0] == first[1]),
            f"seeds {case['seeds']} of [ld] give the same first step",
        )
    if t == "birth-death":
        n = sum(len(ev) for _, ev in a.rec["events"])
        if n >= 15:
            rec.label("many events")
            require(
                a.rec["events"] != b.rec["events"],
                f"seeds {case['seeds']} of [birth-death] give the same {n} events",
            )
        before = [r.rec["bd_states"][0][0]["pos"] for r in results]
        require(
            np.array_equal(before[0], before[1]),
            "the seed of [birth-death] changes the noise of the integrator",
        )
    return True


@st.composite
def object_cases(draw):
    j = draw(gen.confining())
    n = draw(st.integers(2, 10))
    return {
        "pot": j,
        "overdamped": draw(st.booleans()),
        "dt": draw(st.sampled_from([0.001, 0.01])),
        "start": [draw(gen.inside(j["ranges"])) for _ in range(n)],
        "kt": draw(gen.dec(0.3, 3, 1)),
        "stride": draw(st.integers(1, 3)),
        "recalc": draw(st.booleans()),
        "ld_seed": draw(big_seeds),
        "bd_seed": draw(big_seeds),
        "steps": draw(st.integers(3, 15)),
    }


def object_run(case, noise):
    from bdld.actions.birth_death import BirthDeath
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD

    np.random.seed(noise)  # global state has no influence
    pot = gen.mk_pot(case["pot"])
    if case["overdamped"]:
        ld = OverdampedLD(pot, case["dt"], seed=case["ld_seed"])
    else:
        ld = BussiParinelloLD(pot, case["dt"], 1.0, case["kt"], seed=case["ld_seed"])
    for p in case["start"]:
        ld.add_particle(list(p))
    bd = BirthDeath(ld.particles, case["dt"], case["stride"], [0.3] * case["pot"]["n_dim"],
                    case["kt"], 1.0 / case["dt"], case["recalc"], seed=case["bd_seed"])
    out, events = [], []
    for s in range(1, case["steps"] + 1):
        ld.run(s)
        if not np.all(np.isfinite([p.energy for p in ld.particles])):
            break  # diverged
        if s % case["stride"] == 0:
            events.append([(int(a), int(b)) for a, b in bd.do_birth_death()])
        out.append([[list(map(float, p.pos)), list(map(float, p.mom))] for p in ld.particles])
    return np.array(out), events


@PROP.sub(
    "objects", object_cases(), 250, 8000, shards=3,
    rule="integrators and birth-death constructed twice with the same seeds (0 and large ones "
    "included): same trajectories and events; a different integrator seed gives other noise; "
    "non-trivial: birth-death events took place",
)
def objects(case, rec):
    a, ea = object_run(case, 1)
    b, eb = object_run(case, 2)
    require(ea == eb, f"events {ea} and {eb} with the same seeds")
    require(np.array_equal(a, b, equal_nan=True), "trajectories differ with the same seeds")
    c, _ = object_run(dict(case, ld_seed=case["ld_seed"] + 1), 1)
    if len(a) and len(c) and np.all(np.isfinite(a[0])) and not case["pot"].get("bc"):
        require(not np.any(a[0, :, 0] == c[0, :, 0]), "another seed gives the same noise")
    rec.label("overdamped" if case["overdamped"] else "bussi")
    return sum(map(len, ea)) > 0
