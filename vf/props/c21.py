"""C21: free energy differences equal the ratio of the states' total probabilities"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C21",
    assumptions=[
        "bin midpoints that coincide with a state bound only up to rounding are not decided",
        "reads of the histogram between two of its updates: see C19",
    ],
)


@st.composite
def df_cases(draw):
    d = draw(gen.dims)
    shape = [draw(st.integers(1, 5)) for _ in range(d)]
    n = int(np.prod(shape))
    val = st.one_of(gen.dec(0, 8, 2), st.just(None))  # None: infinite
    n_states = draw(st.integers(2, 4))
    return {
        "shape": shape,
        "fes": draw(gen.vec(val, n)),
        "kt": draw(st.one_of(st.just(1.0), gen.dec(0.2, 4, 1))),
        "masks": [draw(gen.vec(st.booleans(), n)) for _ in range(n_states)],
    }


@PROP.sub(
    "formula", df_cases(), 1500, 40000, shards=2,
    rule="calculate_delta_f on generated surfaces and masks; non-trivial: a finite result",
)
def formula(case, rec):
    from bdld.actions.delta_f_action import calculate_delta_f

    fes = np.array([np.inf if x is None else x for x in case["fes"]], dtype=float)
    fes = fes.reshape(case["shape"])
    masks = [np.array(m, dtype=bool).reshape(case["shape"]) for m in case["masks"]]
    before = fes.copy()
    got = np.asarray(calculate_delta_f(fes, case["kt"], masks), dtype=float)
    require(np.array_equal(fes, before), "the surface was changed")
    require(got.shape == (len(masks) - 1,), f"{got.shape} values for {len(masks)} states")
    probs = [float(np.sum(np.exp(-fes[m] / case["kt"]))) for m in masks]
    finite = False
    for i in range(1, len(masks)):
        if probs[0] == 0 and probs[i] == 0:
            continue
        if probs[0] == 0:
            want = -np.inf
        elif probs[i] == 0:
            want = np.inf
        else:
            want = -case["kt"] * (np.log(probs[i]) - np.log(probs[0]))
            finite = True
        g = got[i - 1]
        require(
            g == want or abs(g - want) <= 1e-9 * (1 + abs(want)),
            f"difference of state {i + 1} is {g}, expected {want}",
        )
    return finite


@st.composite
def region_cases(draw):
    d = draw(gen.dims)
    n = draw(st.integers(1, 8))
    states = []
    specials = [[] for _ in range(d)]
    for _ in range(draw(st.integers(1, 4))):
        s = []
        for k in range(d):
            lo = draw(gen.dec(-2, 2, 1))
            hi = lo + draw(gen.dec(-0.3, 2, 1))
            s.append([lo, hi])
            specials[k] += [lo, hi]
        states.append(s)
    pts = [
        [draw(st.one_of(st.sampled_from(specials[k]), gen.dec(-3, 3, 2))) for k in range(d)]
        for _ in range(n)
    ]
    return {"states": states, "pos": pts}


@PROP.sub(
    "regions", region_cases(), 1500, 40000, shards=2,
    rule="pos_inside_ranges against the definition, exact bounds included; non-trivial: "
    "something inside and something outside",
)
def regions(case, rec):
    from bdld.tools import pos_inside_ranges

    pos = np.array(case["pos"], dtype=float)
    got = pos_inside_ranges(pos, [[tuple(r) for r in s] for s in case["states"]])
    require(len(got) == len(case["states"]), f"{len(got)} masks")
    seen = set()
    for s, g in zip(case["states"], got):
        want = [all(lo <= x <= hi for x, (lo, hi) in zip(p, s)) for p in case["pos"]]
        g = np.asarray(g)
        require(g.shape == (len(want),), f"mask has shape {g.shape}")
        require(
            [bool(x) for x in g] == want,
            f"state {s}: {[bool(x) for x in g]} instead of {want} for {case['pos']}",
        )
        seen |= set(want)
    return len(seen) == 2


OUT = dict(delta_f=True, pdist=False)


def _labels(rec, secs, n):
    o = secs["delta-f"]
    s = o.get("stride")
    rec.label("stride" if s else "final only")
    if s:
        w = o.get("write-stride", 100 * s)
        rec.label("one row" if w == s else "block")
        rec.label("n%ws=0" if n % w == 0 else "n%stride=0" if n % s == 0 else "remainder")
        rec.label("n<stride" if n < s else "n>=stride")
    rec.label(f"{len(whole.states_of(o))} states")


def _determined(hh, secs, n):
    masks = whole.region_masks(whole.states_of(secs["delta-f"]), hh.model.midpoints())
    vals = whole.delta_f_of(hh.final, 1.0, masks)
    return any(v is not None and np.isfinite(v) for v in vals)


def check_reference(case, path):
    """Differences of the reference surface in the file header"""
    o = case["sections"]["delta-f"]
    if not case.get("ref") or not o.get("filename"):
        return
    fes = whole.reference_surface(case)
    masks = [m for m, _ in whole.region_masks(
        whole.states_of(o), whole.HistHistoryAxes(case["sections"]))]
    kt = case["sections"]["fes"]["kt"]
    probs = [float(np.sum(np.exp(-fes[m] / kt))) for m in masks]
    header = whole.read_data(os.path.join(path, o["filename"]))[0]
    got = [float(line.split()[-1]) for line in header if "ref" in line]
    require(len(got) == len(masks) - 1, f"{len(got)} reference values for {len(masks)} states")
    for i, g in enumerate(got):
        if probs[0] and probs[i + 1]:
            want = -kt * np.log(probs[i + 1] / probs[0])
            require(
                abs(g - want) <= 1e-9 * (1 + abs(want)),
                f"reference difference of state {i + 2} is {g}, expected {want}",
            )


@PROP.sub(
    "scripted", whole.scripts(**OUT), 900, 30000, shards=3,
    rule="delta-f action on scripted positions; non-trivial: a finite final difference",
)
def scripted(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        _, pos, _ = whole.scripted(case, path, with_ref=True)
        check_reference(case, path)
        _, hh = whole.any_mode(
            whole.script_hist(case, pos),
            lambda hh: whole.check_delta_f_file(
                secs["delta-f"], secs["fes"], hh, case["dt"], case["n_steps"], path
            ),
        )
        _labels(rec, secs, case["n_steps"])
        return _determined(hh, secs, case["n_steps"])


@PROP.sub(
    "long", whole.long_scripts(**OUT), 150, 1500, shards=3,
    rule="as scripted, with hundreds to thousands of steps and large strides; non-trivial: as "
    "scripted",
)
def long(case, rec):
    return scripted(case, rec)


@PROP.sub(
    "program", whole.configs(delta_f=True), 400, 8000, shards=4,
    rule="whole simulations with delta-f; non-trivial: a finite final difference",
)
def program(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        n = secs["ld"]["n_steps"]
        _, hh = whole.any_mode(
            whole.make_hist(case, whole.positions(res)),
            lambda hh: whole.check_delta_f_file(
                secs["delta-f"], secs["fes"], hh, secs["ld"]["timestep"], n, path
            ),
        )
        _labels(rec, secs, n)
        return _determined(hh, secs, n)


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=50, max_particles=3, delta_f=True, pdist=False))
    o = cfg["sections"]["delta-f"]
    o["filename"] = "out"
    o.setdefault("stride", 1)
    o["write-stride"] = o["stride"] * draw(st.integers(1, 5))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 140, 4000, shards=3,
    rule="programs killed at a random time step: all rows up to the last multiple of the write "
    "stride are in the file, complete and as in the whole run; non-trivial: at least one row",
)
def killed(case, rec):
    o = case["sections"]["delta-f"]
    return whole.check_killed(case, [(["out"], o["stride"], o["write-stride"])]) > 0
