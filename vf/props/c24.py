"""C24: analysis and output never influence the simulated dynamics"""
import copy
import os

import numpy as np
from hypothesis import strategies as st

import whole
from core import Property, ScratchDir, require

PROP = Property(
    "C24",
    assumptions=["all random number generators are seeded in the input"],
)

OUTPUTS = ["trajectories", "histogram", "fes", "delta-f", "particle-distribution"]


@st.composite
def cases(draw):
    cfg = draw(whole.configs(max_steps=40, max_particles=6, plot=True))
    b = cfg["sections"].get("birth-death")
    if b and draw(st.integers(0, 3)):  # many events
        b["exponential-factor"] = draw(st.sampled_from([30.0, 100.0]))
        b["stride"] = min(b["stride"], 3)
    n = cfg["sections"]["ld"]["n_steps"]
    kt = cfg["sections"]["ld"].get("kt", 1.0)
    pot = {"n_dim": cfg["n_dim"], "ranges": cfg["ranges"]}
    other = draw(st.one_of(
        st.just({}), whole.output_sections(pot, n, kt, plot=True),
        whole.output_sections(pot, n, kt, plot=True),
    ))
    stats = {}
    if b:
        if draw(st.booleans()):
            stats["stats-stride"] = draw(st.integers(1, 6))
        if draw(st.booleans()):
            stats["stats-filename"] = "other_stats"
    levels = ["critical", "error", "warn", "warning", "info", "debug", "DEBUG", "Info"]
    argv = [["input"], ["input", "--log-level", draw(st.sampled_from(levels))],
            ["--log-level", draw(st.sampled_from(levels)), "input"]]
    return {**cfg, "other": other, "stats": stats, "argv": draw(st.sampled_from(argv))}


def swap(case):
    """The same simulation with the other outputs"""
    cfg = copy.deepcopy(case)
    secs = cfg["sections"]
    for s in OUTPUTS:
        secs.pop(s, None)
    secs.update(copy.deepcopy(case["other"]))
    if "birth-death" in secs:
        b = secs["birth-death"]
        b.pop("stats-stride", None)
        b.pop("stats-filename", None)
        b.update(case["stats"])
    return cfg


def equal_states(a, b, what, n=None):
    for s, (x, y) in enumerate(zip(a.states[:n], b.states[:n])):
        for k, name in (("pos", "positions"), ("mom", "momenta"), ("energy", "energies"),
                        ("mass", "masses")):
            if not np.array_equal(np.asarray(x[k]), np.asarray(y[k]), equal_nan=True):
                require(
                    False,
                    f"{what}: {name} at step {s} are {np.asarray(x[k]).tolist()[:5]} and "
                    f"{np.asarray(y[k]).tolist()[:5]}",
                )


def note(case, rec):
    rec.label(*case["sections"])
    if case["sections"]["ld"]["type"] == "overdamped":
        rec.label("overdamped")


@PROP.sub(
    "outputs", cases(), 420, 12000, shards=8,
    rule="two simulations that only differ in their outputs and analyses (sections, strides, "
    "resets, formats, plots, statistics, log level): bitwise the same particles at every step and the same "
    "birth-death events; non-trivial: at least one output section in one of them",
)
def outputs(case, rec):
    results = []
    for cfg, argv in ((case, ["input"]), (swap(case), case["argv"])):
        with ScratchDir() as path:
            results.append(whole.run(cfg, path, argv=argv))
    a, b = results
    equal_states(a, b, f"outputs {[s for s in OUTPUTS if s in case['sections']]} versus "
                 f"{list(case['other'])}")
    require(a.rec["events"] == b.rec["events"], "birth-death events depend on the outputs")
    note(case, rec)
    if any(ev for _, ev in a.rec["events"]):
        rec.label("events")
    return any(s in case["sections"] for s in OUTPUTS) or bool(case["other"])


@st.composite
def stride_cases(draw):
    cfg = draw(whole.configs(traj=True, max_steps=40, max_particles=4, hist="maybe"))
    t = cfg["sections"]["trajectories"]
    t["filename"] = "traj"
    other = {k: v for k, v in t.items() if k in ("momentum", "fmt")}
    other["filename"] = "traj"
    other["stride"] = draw(st.integers(2, 9))
    if draw(st.booleans()):
        other["write-stride"] = draw(st.integers(1, 50))
    t.pop("stride", None)
    return {**cfg, "other": other}


@PROP.sub(
    "subset", stride_cases(), 220, 6000, shards=5,
    rule="trajectories written with a larger stride are literally the corresponding rows of the "
    "full trajectory (same format); non-trivial: at least one row",
)
def subset(case, rec):
    cfg = copy.deepcopy(case)
    cfg["sections"]["trajectories"] = case["other"]
    k = case["other"]["stride"]
    n_part = case["sections"]["particles"]["number"]
    with ScratchDir() as p1, ScratchDir() as p2:
        whole.run(case, p1)
        whole.run(cfg, p2)
        some = False
        for i in range(n_part):
            h1, full, _ = whole.read_data(os.path.join(p1, f"traj.{i}"))
            h2, part, _ = whole.read_data(os.path.join(p2, f"traj.{i}"))
            require(h1 == h2, f"header {h2} instead of {h1}")
            want = full[k - 1::k]
            require(
                part == want,
                f"traj.{i} with stride {k} has {len(part)} rows, expected {len(want)} rows of "
                f"the full trajectory\n{part[:4]}\n{want[:4]}",
            )
            some = some or bool(part)
    rec.label(f"stride {k}")
    return some


@st.composite
def longer_cases(draw):
    cfg = draw(whole.configs(traj="maybe", max_steps=30, max_particles=5))
    b = cfg["sections"].get("birth-death")
    if b and draw(st.booleans()):
        b["exponential-factor"] = 100.0
    return {**cfg, "extra": draw(st.integers(1, 30))}


@PROP.sub(
    "longer", longer_cases(), 220, 6000, shards=5,
    rule="a longer run starts with exactly the states, events and rows of the shorter one; "
    "non-trivial: at least two steps in the shorter one",
)
def longer(case, rec):
    cfg = copy.deepcopy(case)
    n = case["sections"]["ld"]["n_steps"]
    cfg["sections"]["ld"]["n_steps"] = n + case["extra"]
    with ScratchDir() as p1, ScratchDir() as p2:
        a = whole.run(case, p1)
        b = whole.run(cfg, p2)
        equal_states(a, b, f"{n} versus {n + case['extra']} steps", n + 1)
        ev = [e for e in b.rec["events"] if e[0] <= n]
        require(a.rec["events"] == ev, "birth-death events of the longer run differ")
        t = case["sections"].get("trajectories", {})
        if t.get("filename"):
            for i in range(case["sections"]["particles"]["number"]):
                name = f"{t['filename']}.{i}"
                _, short, _ = whole.read_data(os.path.join(p1, name))
                _, full, _ = whole.read_data(os.path.join(p2, name))
                require(
                    full[: len(short)] == short,
                    f"{name} of the longer run does not start with the one of the shorter run",
                )
    note(case, rec)
    return n > 1
