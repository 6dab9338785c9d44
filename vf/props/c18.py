"""C18: trajectory files hold every requested time step exactly once"""
from hypothesis import strategies as st

import whole
from core import Property, ScratchDir

PROP = Property("C18", assumptions=["states observed when the next step starts"])

OUT = dict(traj=True, hist=False, fes=False, delta_f=False, pdist=False)


def _labels(rec, t, n_steps, flush=()):
    w, s = t.get("write-stride", 100), t.get("stride", 1)
    rec.label("ws<stride" if w < s else "ws%stride" if w % s else "ws multiple")
    rec.label("remainder" if n_steps % w else "no remainder")
    rec.label("ws=1" if w == 1 else "ws>1")
    rec.label("flush" if flush else "no flush")
    rec.label("momentum" if t.get("momentum") else "positions only")


@PROP.sub(
    "scripted", whole.scripts(**OUT), 1200, 40000, shards=3,
    rule="random stride/write-stride/length/flush points with scripted positions; "
    "non-trivial: at least two rows expected",
)
def scripted(case, rec):
    with ScratchDir() as path:
        t = case["sections"]["trajectories"]
        _, pos, mom = whole.scripted(case, path)
        n = whole.check_traj(
            t, case["n_dim"], case["n_part"], case["dt"], case["n_steps"], pos, mom, path
        )
        _labels(rec, t, case["n_steps"], case["flush"])
        return n >= 2


@PROP.sub(
    "long", whole.long_scripts(**OUT), 150, 1500, shards=3,
    rule="as scripted, with hundreds to thousands of steps and large strides; non-trivial: as "
    "scripted",
)
def long(case, rec):
    return scripted(case, rec)


@PROP.sub(
    "program", whole.configs(traj=True), 400, 8000, shards=4,
    rule="whole simulations from generated input files; non-trivial: two rows or more",
)
def program(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        n = whole.check_traj(
            secs["trajectories"], case["n_dim"], secs["particles"]["number"],
            secs["ld"]["timestep"], secs["ld"]["n_steps"], whole.positions(res),
            whole.momenta(res), path,
        )
        _labels(rec, secs["trajectories"], secs["ld"]["n_steps"])
        return n >= 2


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=50, max_particles=3, **OUT))
    cfg["sections"]["trajectories"]["filename"] = "traj"
    cfg["sections"]["trajectories"]["write-stride"] = draw(st.integers(1, 15))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 160, 5000, shards=3,
    rule="programs killed at a random time step: all rows up to the last multiple of the write "
    "stride are in the files, complete and as in the whole run; non-trivial: at least one row",
)
def killed(case, rec):
    t = case["sections"]["trajectories"]
    names = [f"{t['filename']}.{i}" for i in range(case["sections"]["particles"]["number"])]
    n = whole.check_killed(
        case, [(names, t.get("stride") or 1, t.get("write-stride") or 100)])
    return n > 0
