"""C19: the histogram counts every sampled position exactly once"""
import numpy as np
from hypothesis import strategies as st

import gen
import ref
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C19",
    assumptions=[
        "for resets, periodic writes and reads between two updates of the histogram "
        "(every trajectory write stride) both documented readings are accepted: buffered "
        "positions are kept or dropped, the histogram is updated lazily or eagerly",
        "a value on an inner bin edge may be counted in either adjacent bin",
    ],
)


@st.composite
def hist_cases(draw):
    d = draw(gen.dims)
    bins = [draw(st.integers(1, 8)) for _ in range(d)]
    ranges = draw(gen.rng_ranges(d, -3, 3, 0.5, 5))
    batches = []
    for _ in range(draw(st.integers(0, 4))):
        if draw(st.integers(0, 5)) == 0:
            batches.append("clear")
            continue
        pts = []
        for _ in range(draw(st.integers(0, 6))):
            p = []
            for n, (lo, hi) in zip(bins, ranges):
                k = draw(st.integers(0, 6))
                if k == 0:
                    p.append(lo)
                elif k == 1:
                    p.append(hi)
                elif k == 2:
                    p.append(0.0)
                elif k == 3:
                    p.append(lo - 0.25)
                else:
                    p.append(lo + (hi - lo) * draw(st.integers(0, 1000)) / 997)
            pts.append(p)
        batches.append(pts)
    if batches and batches[-1] != "clear" and draw(st.integers(0, 9)) == 0:
        batches[-1] = {"pts": batches[-1], "repeat": draw(st.sampled_from([300, 40000, 70000]))}
    return {"bins": bins, "ranges": ranges, "batches": batches}


@PROP.sub(
    "class", hist_cases(), 1500, 30000, shards=2,
    rule="sequences of add/clear on Histogram with values inside, outside, on edges; "
    "non-trivial: at least one counted value",
)
def hist_class(case, rec):
    from bdld.histogram import Histogram

    h = Histogram(list(case["bins"]), [tuple(r) for r in case["ranges"]])
    m = ref.HistModel(case["bins"], case["ranges"])
    bad = m.mismatch(h.data)
    require(bad is None, f"new histogram: {bad}")
    counted = 0
    for b in case["batches"]:
        if b == "clear":
            h.clear()
            m.clear()
        else:
            repeat = 1
            if isinstance(b, dict):
                b, repeat = b["pts"], b["repeat"]
            data = np.array(b, dtype=float).reshape(-1, len(case["bins"]))
            model_data, data = data, np.tile(data, (repeat, 1))
            before = data.copy()
            h.add(data)
            require(np.array_equal(before, data), "add changed the data it was given")
            m.add(model_data, repeat)
        counted = max(counted, m.total_min)
        bad = m.mismatch(h.data)
        require(bad is None, f"after {b}: {bad}")
    pts = ref.row_major(m.midpoints())
    got = np.asarray(h.points(), dtype=float)
    require(
        got.shape == pts.shape and np.allclose(got, pts, rtol=1e-9, atol=1e-9),
        "points of the histogram are not the bin midpoints",
    )
    return counted > 0


@st.composite
def many_cases(draw):
    d = draw(gen.dims)
    bins = [draw(st.integers(1, 4)) for _ in range(d)]
    ranges = draw(gen.rng_ranges(d, -3, 3, 0.5, 5))
    cells = [
        [draw(st.integers(-1, n)) for n in bins] for _ in range(draw(st.integers(0, 3)))
    ]
    cells.append([draw(st.integers(0, n - 1)) for n in bins])  # one inside
    return {
        "bins": bins, "ranges": ranges, "cells": cells,
        "size": draw(st.integers(60000, 80000)),
        "times": draw(st.sampled_from([300, 240, 20])),
        "rest": draw(st.integers(1, 9)),
    }


@PROP.sub(
    "many", many_cases(), 5, 100, shards=3,
    rule="Histogram with up to 24 million counts per bin, added in large and small batches; "
    "non-trivial: more than a million counts in a bin",
)
def many(case, rec):
    from bdld.histogram import Histogram

    bins, ranges = case["bins"], case["ranges"]
    h = Histogram(list(bins), [tuple(r) for r in ranges])
    m = ref.HistModel(bins, ranges)
    pts = np.array([
        [lo + (k + 0.5) * (hi - lo) / n for k, n, (lo, hi) in zip(c, bins, ranges)]
        for c in case["cells"]
    ])
    big = np.repeat(pts, case["size"], axis=0)
    for _ in range(case["times"]):
        h.add(big)
    m.add(pts, case["size"] * case["times"])
    bad = m.mismatch(h.data)
    require(bad is None, f"after {case['times']} batches of {case['size']}: {bad}")
    for i in range(case["rest"]):
        h.add(pts)
        m.add(pts)
        bad = m.mismatch(h.data)
        require(bad is None, f"after {case['times']} large and {i + 1} small batches: {bad}")
    return bool(np.max(m.definite) > 1e6)


OUT = dict(hist=True, fes=False, delta_f=False, pdist=False)


def _labels(rec, secs, n):
    t, h = secs["trajectories"], secs["histogram"]
    w = t.get("write-stride", 100)
    rec.label("files" if t.get("filename") else "no traj file")
    rec.label("stride divides" if w % h.get("stride", 1) == 0 else "stride/ws unrelated")
    rec.label("remainder" if n % w else "no remainder")
    rec.label("ws=1" if w == 1 else "ws>1")
    rec.label("n<ws" if n < w else "n>=ws")
    if h.get("reset"):
        eff = [r for r in h["reset"] if r <= n]
        rec.label("reset aligned" if all(r % w == 0 for r in eff) else "reset unaligned")


@PROP.sub(
    "scripted", whole.scripts(**OUT), 1200, 30000, shards=3,
    rule="histogram action on scripted positions (exact edges included); non-trivial: "
    "a counted position",
)
def scripted(case, rec):
    with ScratchDir() as path:
        acts, pos, _ = whole.scripted(case, path)
        make = whole.script_hist(case, pos)

        def check(hh):
            bad = hh.final.mismatch(acts["histogram"].histo.data)
            require(bad is None, f"final counts: {bad}")
            whole.check_hist_files(case["sections"]["histogram"], hh, path)

        _, hh = whole.any_mode(make, check)
        _labels(rec, case["sections"], case["n_steps"])
        return hh.final.total_min > 0


@PROP.sub(
    "long", whole.long_scripts(**OUT), 150, 1500, shards=3,
    rule="as scripted, with hundreds to thousands of steps and large strides; non-trivial: as "
    "scripted",
)
def long(case, rec):
    return scripted(case, rec)


@PROP.sub(
    "program", whole.configs(hist=True), 400, 8000, shards=4,
    rule="whole simulations with a histogram file; non-trivial: a counted position",
)
def program(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        make = whole.make_hist(case, whole.positions(res))
        _, hh = whole.any_mode(
            make, lambda hh: whole.check_hist_files(secs["histogram"], hh, path)
        )
        _labels(rec, secs, secs["ld"]["n_steps"])
        return hh.final.total_min > 0


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=50, max_particles=3, hist=True, fes=False, delta_f=False, pdist=False))
    o = cfg["sections"]["histogram"]
    o["filename"] = "out"
    o["write-stride"] = draw(st.integers(1, 12))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 120, 4000, shards=3,
    rule="programs killed at a random time step: the files written periodically before are "
    "complete and as in the whole run; non-trivial: at least one file",
)
def killed(case, rec):
    return whole.check_killed(
        case, numbered=[("out", case["sections"]["histogram"]["write-stride"])]) > 0
