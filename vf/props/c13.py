"""C13: birth-death runs on its stride and its statistics add up"""
import os
import re

import numpy as np
from hypothesis import strategies as st

import bdgen
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C13",
    assumptions=[
        "particles with a rate of exactly zero may be counted as either attempt or not at all",
        "statistics on the screen are only compared if they have the known wording",
    ],
)


@st.composite
def direct_cases(draw):
    d = draw(st.sampled_from([1, 1, 2]))
    variants = ("original", "additive", "multiplicative") if d == 1 else ("original",)
    c = draw(bdgen.situations(n_dim=d, variants=variants, rates=(1.0, 10.0, 100.0), max_n=8))
    c["stride"] = draw(st.one_of(st.integers(1, 3), st.integers(1, 12)))
    c["stats_stride"] = draw(st.one_of(st.none(), st.just(1), st.integers(1, 15)))
    c["n_steps"] = draw(st.integers(1, 40))
    # later in a long simulation: steps and counts of many digits
    c["from"] = draw(st.sampled_from([0, 0, 0, 99980, 10**6 - 3, 123456789]))
    return c


@PROP.sub(
    "steps", direct_cases(), 700, 20000, shards=6,
    rule="the action run for a number of steps while the particles move: attempts only at "
    "multiples of the stride, rows of the statistics file against rates and events; "
    "non-trivial: at least two attempts",
)
def direct(case, rec):
    n = len(case["pos"])
    with ScratchDir() as path:
        fname = os.path.join(path, "stats")
        ld, bd = bdgen.build(
            case, stats_stride=case["stats_stride"], stats_filename=fname
        )
        rng = np.random.default_rng(case["seed"])
        hist = []  # (step, betas, events)
        orig = bd.do_birth_death
        cur = [0]

        def observed(*a, **k):
            betas = np.array(bd.calc_betas(), float)
            ev = orig(*a, **k)
            hist.append((cur[0], betas, list(ev)))
            return ev

        bd.do_birth_death = observed
        states = [[bdgen.particle(p) for p in ld.particles]]
        start, end = case["from"], case["from"] + case["n_steps"]
        for s in range(start + 1, end + 1):
            cur[0] = s
            for p in ld.particles:
                p.pos += 0.05 * rng.normal(size=case["n_dim"])
                p.energy += 0.1 * rng.normal()
            before = [bdgen.particle(p) for p in ld.particles]
            bd.run(s)
            if s % case["stride"]:
                require(
                    all(bdgen.equal(a, bdgen.particle(p)) for a, p in zip(before, ld.particles)),
                    f"particles changed at step {s}, stride {case['stride']}",
                )
        bd.final_run(end)
        data = whole.numbers(whole.read_data(fname)[1], 5, "stats")
    steps = [h[0] for h in hist]
    want = [s for s in range(start + 1, end + 1) if s % case["stride"] == 0]
    require(steps == want, f"birth-death at steps {steps}, expected {want}")
    k = case["stats_stride"]
    rows = [s for s in range(start + 1, end + 1) if s % k == 0] if k else [end]
    require(
        [int(x) for x in data[:, 0]] == rows,
        f"statistics at steps {data[:, 0].tolist()}, expected {rows}",
    )
    for row in data:
        s = row[0]
        past = [h for h in hist if h[0] <= s]
        ds, da, ks, ka = row[1:]
        n_ev = sum(len(h[2]) for h in past)
        require(ds + ks == n_ev, f"step {s}: {ds} births + {ks} deaths, but {n_ev} events")
        require(ds <= da and ks <= ka, f"step {s}: more successes than attempts {row}")
        if n < 2:
            require(da + ka <= n * len(past), f"step {s}: attempts {row} with {n} particles")
            continue
        zero = sum(int(np.sum(np.abs(h[1]) < 1e-12)) for h in past)
        if not case["recalc"]:
            pos = sum(int(np.sum(h[1] >= 1e-12)) for h in past)
            neg = sum(int(np.sum(h[1] <= -1e-12)) for h in past)
            require(
                pos <= ka <= pos + zero and neg <= da <= neg + zero,
                f"step {s}: {da} births and {ka} deaths attempted, rates were negative {neg} "
                f"and positive {pos} times",
            )
            births = sum(sum(h[1][d] < 1e-12 for d, _ in h[2]) for h in past)
            deaths = sum(sum(h[1][k] > -1e-12 for _, k in h[2]) for h in past)
            require(
                ds <= births and ks <= deaths,
                f"step {s}: {ds} births and {ks} deaths reported, at most {births} and "
                f"{deaths} agree with the rates",
            )
        else:
            total = n * len(past)
            slack = zero + n * len([h for h in past if h[2]])
            if all(not h[2] for h in past):
                slack = zero
            require(
                total - slack <= da + ka <= total,
                f"step {s}: {da + ka} attempts, {total} particles examined",
            )
    rec.label("recalc" if case["recalc"] else "bulk", f"n {min(n, 3)}",
              "stats stride" if case["stats_stride"] else "end")
    return len(want) > 1 and n > 1


def check_screen(out, data):
    """Steps, percentages and ratios on the screen belong to the counts"""

    def found(pattern):
        res = re.findall(pattern, out)
        require(len(res) == len(data), f"{len(res)} reports of {pattern}, expected {len(data)}")
        return res

    def same(text, a, b):
        if b == 0:
            return text == "nan"
        return abs(float(text) - a / b) <= 6e-4 * abs(a / b)

    steps = [int(x) for x in found(r"After (\d+) time steps")]
    require(steps == [int(x) for x in data[:, 0]], f"screen reports steps {steps}")
    num = r"([-+.\deE]+|nan|inf)"
    birth = found(r"Birth events: \d+/\d+ \(" + num + "%\\)")
    death = found(r"Death events: \d+/\d+ \(" + num + "%\\)")
    ratio = found(r"Ratio birth/death: " + num + r" \(.*?\) / " + num + r" \(")
    for row, b, d, (rs, ra) in zip(data, birth, death, ratio):
        ds, da, ks, ka = row[1:]
        require(
            same(b, 100 * ds, da) and same(d, 100 * ks, ka) and same(rs, ds, ks)
            and same(ra, da, ka),
            f"screen reports {b}%, {d}%, {rs} / {ra} for {row[1:].tolist()}",
        )


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(bd=True, traj="maybe", hist=False, fes=False, delta_f=False,
                             pdist=False, max_particles=6, max_steps=40))
    b = cfg["sections"]["birth-death"]
    b["stats-filename"] = "bd_stats"
    b["exponential-factor"] = draw(st.sampled_from([1.0, 20.0, 200.0]))
    return cfg


@PROP.sub(
    "program", prog_cases(), 140, 4000, shards=6,
    rule="whole simulations: attempts, events and statistics file; the same run with the "
    "statistics on the screen reports the same numbers; non-trivial: two or more attempts",
)
def program(case, rec):
    b = case["sections"]["birth-death"]
    n_steps = case["sections"]["ld"]["n_steps"]
    n = case["sections"]["particles"]["number"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        whole.check_stats_file(b, n_steps, res.rec["events"], path)
        data = whole.numbers(whole.read_data(os.path.join(path, "bd_stats"))[1], 5, "stats")
    want = list(range(b["stride"], n_steps + 1, b["stride"]))
    require(
        res.rec["bd_steps"] == want,
        f"birth-death at steps {res.rec['bd_steps']}, expected {want}",
    )
    for row in data:
        past = len([t for t in want if t <= row[0]])
        lim = n * past if n > 1 else 0
        got = row[2] + row[4]
        if b.get("recalculate-probabilities") or n < 2:
            require(got <= n * past, f"{got} attempts at step {row[0]}, expected {lim}")
        else:
            require(got == lim, f"{got} attempts at step {row[0]}, expected {lim}")
    other = {"sections": {k: dict(v) for k, v in case["sections"].items()},
             "coeffs": case["coeffs"]}
    del other["sections"]["birth-death"]["stats-filename"]
    with ScratchDir() as path:
        res2 = whole.run(other, path)
    birth = re.findall(r"Birth events: (\d+)/(\d+)", res2.out)
    death = re.findall(r"Death events: (\d+)/(\d+)", res2.out)
    if birth or death:
        got = [[int(x) for x in a + c] for a, c in zip(birth, death)]
        require(
            got == [[int(x) for x in r[1:]] for r in data],
            f"screen reports {got}, the file {data[:, 1:].tolist()}",
        )
        rec.label("screen")
        check_screen(res2.out, data)
    return len(want) > 1 and n > 1


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=40, max_particles=5, bd=True, traj=False, hist=False,
                                    fes=False, delta_f=False, pdist=False))
    b = cfg["sections"]["birth-death"]
    b["stats-filename"] = "bd_stats"
    b["stats-stride"] = draw(st.integers(1, 8))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 60, 2000, shards=3,
    rule="programs killed at a random time step: all statistics written before are in the file; "
    "non-trivial: at least one row",
)
def killed(case, rec):
    s = case["sections"]["birth-death"]["stats-stride"]
    return whole.check_killed(case, [(["bd_stats"], s, s)]) > 0


@st.composite
def large_cases(draw):
    return {"n": draw(st.integers(3500, 4500)), "dt": draw(st.sampled_from([0.01, 0.1])),
            "rate": draw(st.sampled_from([1.0, 30.0])), "seed": draw(st.integers(0, 10**6)),
            "steps": draw(st.integers(24, 30)), "wide": draw(st.booleans())}


@PROP.sub(
    "large", large_cases(), 4, 60, shards=4,
    rule="thousands of particles: counts of six digits in the statistics file; non-trivial: more "
    "than 99999 attempts",
)
def large(case, rec):
    from bdld.actions.birth_death import BirthDeath
    from bdld.actions.overdamped_ld import OverdampedLD
    from bdld.potential.polynomial import PolynomialPotential

    ld = OverdampedLD(PolynomialPotential([0, 0, 1], [(-3, 3)]), 0.01, 1)
    rng = np.random.default_rng(case["seed"])
    for x in rng.normal(size=case["n"]):
        ld.add_particle([float(x)])
    with ScratchDir() as path:
        fname = os.path.join(path, "stats")
        bd = BirthDeath(ld.particles, case["dt"], 1, [0.3], 1.0, case["rate"], False,
                        seed=case["seed"], stats_stride=4 if case["wide"] else None,
                        stats_filename=fname)
        orig = bd.do_birth_death
        events = []
        bd.do_birth_death = lambda *a, **k: events.append(orig(*a, **k)) or events[-1]
        for s in range(1, case["steps"] + 1):
            bd.run(s)
        bd.final_run(case["steps"])
        data = whole.numbers(whole.read_data(fname)[1], 5, "stats")
    for row in data:
        past = events[: int(row[0])]
        require(
            row[2] + row[4] == case["n"] * len(past),
            f"{row[2] + row[4]} attempts at step {row[0]}, expected {case['n'] * len(past)}",
        )
        require(
            row[1] + row[3] == sum(len(e) for e in past),
            f"{row[1] + row[3]} successes at step {row[0]}, {sum(len(e) for e in past)} events",
        )
    return case["n"] * case["steps"] > 99999
