"""C25: initial particles are placed exactly as the input requests"""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy import stats

import gen
import whole
from core import Property, ScratchDir, require

PROP = Property(
    "C25",
    assumptions=[
        "statistical statements are rejected only at p < 1e-9 per test",
        "a share within 1e-6 of an integer (but not exact) may be taken as this integer",
    ],
)

ALPHA = 1e-9


@st.composite
def base(draw, bc=True):
    """ld and potential sections"""
    pot = draw(gen.confining(bc=bc))
    d = pot["n_dim"]
    lst = (lambda v: v[0]) if d == 1 else (lambda v: list(v))
    secs = {"ld": {"type": draw(st.sampled_from(["overdamped", "bussi-parinello"])),
                   "timestep": 0.001, "n_steps": 1}}
    if secs["ld"]["type"] == "bussi-parinello":
        secs["ld"].update({"kt": 1.0, "friction": 1.0})
    if draw(st.booleans()):
        secs["ld"]["seed"] = draw(st.integers(0, 100))
    coeffs = None
    if pot["type"] == "polynomial":
        secs["potential"] = {"type": "polynomial", "n_dim": d, "coeffs-file": whole.COEFFS_FILE,
                             "min": lst([r[0] for r in pot["ranges"]]),
                             "max": lst([r[1] for r in pot["ranges"]])}
        coeffs = pot["coeffs"]
    else:
        secs["potential"] = {"type": "mueller-brown", "scaling-factor": 0.05}
    if pot["bc"]:
        secs["potential"]["boundary-condition"] = pot["bc"]
    return {"sections": secs, "coeffs": coeffs, "n_dim": d, "ranges": pot["ranges"]}


def initial(case, path):
    """Observed particles before the first step; number, mass and momentum are checked"""
    res = whole.run(case, path)
    s = res.states[0]
    pa = case["sections"]["particles"]
    require(len(s["pos"]) == pa["number"], f"{len(s['pos'])} particles instead of {pa['number']}")
    mass = pa.get("mass", 1.0)
    require(all(m == mass for m in s["mass"]), f"mass {sorted(set(s['mass']))} instead of {mass}")
    require(not np.any(s["mom"]), f"initial momentum {np.asarray(s['mom'])[:5].tolist()}")
    require(s["pos"].shape == (pa["number"], case["n_dim"]), f"positions of shape {s['pos'].shape}")
    return s["pos"]


def counts_by_position(pos, given):
    """Number of particles per distinct given position; any other position is a violation"""
    keys = [tuple(float(x) for x in g) for g in given]
    res = {k: 0 for k in keys}
    for p in pos:
        k = tuple(float(x) for x in p)
        require(k in res, f"particle at {list(k)}, which is none of the given positions {given}")
        res[k] += 1
    return [res[k] for k in keys], keys


# --- fixed fractions -----------------------------------------------------------------


@st.composite
def fraction_cases(draw):
    cfg = draw(base())
    n = draw(st.one_of(st.integers(1, 12), st.integers(1, 120), st.sampled_from([10, 100, 60])))
    k = draw(whole.counts(1, 6))
    kind = draw(st.integers(0, 3))
    if kind == 0:  # decimal fractions that sum to one
        cuts = sorted(draw(st.lists(st.integers(0, 20), min_size=k - 1, max_size=k - 1)))
        parts = [b - a for a, b in zip([0] + cuts, cuts + [20])]
        fr = [p / 20 for p in parts]
    elif kind == 1:  # absolute numbers
        fr = [float(draw(st.integers(0, 30))) for _ in range(k)]
        if draw(st.booleans()) and sum(fr) > 0:
            n = int(sum(fr))
    elif kind == 2:
        fr = [draw(gen.dec(0, 3, 2)) for _ in range(k)]
    else:
        fr = [draw(st.sampled_from([0.1, 0.2, 0.3, 0.7, 0.35, 0.15])) for _ in range(k)]
    if sum(fr) <= 0:
        fr[-1] = 1.0
    pa = {"number": max(1, n), "initial-distribution": "fractions-pos", "fractions": fr}
    for i in range(k):
        pa[f"pos{i+1}"] = draw(gen.inside(cfg["ranges"], 2))
        if draw(st.integers(0, 9)) == 0:  # outside of the potential
            pa[f"pos{i+1}"][0] = cfg["ranges"][0][1] + 0.5
    if draw(st.booleans()):
        pa["mass"] = draw(gen.dec(0.1, 9, 1))
    if draw(st.booleans()):
        pa["seed"] = draw(st.integers(0, 9))
    cfg["sections"]["particles"] = pa
    return cfg


@PROP.sub(
    "fractions", fraction_cases(), 700, 20000, shards=5,
    rule="fractions and absolute numbers over 1-13 positions and 1-120 particles against exact "
    "rational shares; non-trivial: at least two positions with particles",
)
def fractions(case, rec):
    pa = case["sections"]["particles"]
    given = [pa[f"pos{i+1}"] for i in range(len(pa["fractions"]))]
    with ScratchDir() as path:
        pos = initial(case, path)
    got, keys = counts_by_position(pos, given)
    fr = [Fraction(repr(f)) for f in pa["fractions"]]
    n = pa["number"]
    shares = [f / sum(fr) * n for f in fr]
    options = []
    for s in shares:
        o = {math.floor(s)}
        near = math.ceil(s)
        if near != s and near - s <= Fraction(1, 10**6):
            o.add(near)
        options.append(o)
    want = [[]]
    for o in options:
        want = [w + [x] for w in want for x in o]
    lists = []
    for w in want:
        w = list(w)
        w[0] += n - sum(w)
        merged = {k: 0 for k in keys}
        for k, c in zip(keys, w):
            merged[k] += c
        lists.append([merged[k] for k in keys])
    require(
        got in lists,
        f"{n} particles with fractions {pa['fractions']} are distributed as {got}, expected "
        f"{lists[0]} on the positions {given}",
    )
    exact = all(s.denominator == 1 for s in shares)
    rec.label("exact" if exact else "remainder", f"{case['n_dim']}d")
    return sum(c > 0 for c in got) > 1


# --- random placement ----------------------------------------------------------------


@st.composite
def random_cases(draw):
    cfg = draw(base())
    pa = {"number": draw(st.sampled_from([400, 1000, 2500, 6000])),
          "initial-distribution": draw(st.sampled_from(["random-global", "random-pos"]))}
    if pa["initial-distribution"] == "random-pos":
        for i in range(draw(whole.counts(1, 5))):
            pa[f"pos{i+1}"] = draw(gen.inside(cfg["ranges"], 2))
    if draw(st.booleans()):
        pa["mass"] = draw(gen.dec(0.1, 9, 1))
    # the outcome has to be a function of the case
    pa["seed"] = draw(st.integers(0, 10**6))
    cfg["sections"]["particles"] = pa
    return cfg


def reject(p, what):
    require(p >= ALPHA, f"{what} (p = {p:.2e})")


def serial(x):
    """p value of the correlation of consecutive values"""
    a, b = x[:-1], x[1:]
    r = np.corrcoef(a, b)[0, 1]
    return 2 * stats.norm.sf(abs(r) * math.sqrt(len(a)))


@PROP.sub(
    "random", random_cases(), 160, 5000, shards=6,
    rule="400-6000 particles: uniform over the whole range and independent between dimensions "
    "and particles (random-global), each given position equally likely and chosen independently "
    "(random-pos); non-trivial: random-global or at least two positions",
)
def random_placement(case, rec):
    pa = case["sections"]["particles"]
    rec.label(pa["initial-distribution"], f"{case['n_dim']}d")
    with ScratchDir() as path:
        pos = initial(case, path)
    n = len(pos)
    if pa["initial-distribution"] == "random-global":
        u = []
        for i, (lo, hi) in enumerate(case["ranges"]):
            x = pos[:, i]
            require(
                bool(np.all((x >= lo) & (x <= hi))),
                f"positions between {x.min()} and {x.max()}, the range is {(lo, hi)}",
            )
            u.append((x - lo) / (hi - lo))
            p = stats.kstest(u[-1], "uniform").pvalue
            reject(p, f"coordinate {i} is not uniform over {(lo, hi)}: mean {x.mean()}, "
                      f"{x.min()} to {x.max()}")
            # largest gap to the ends of the range
            for name, gap in (("lower", u[-1].min()), ("upper", 1 - u[-1].max())):
                reject((1 - gap) ** n, f"coordinate {i}: none of {n} particles is close to the "
                                       f"{name} end of {(lo, hi)}: {x.min()} to {x.max()}")
            require(len(set(x.tolist())) > 0.99 * n, "particles share their random positions")
            reject(serial(u[-1]), f"coordinate {i} of consecutive particles is correlated")
            for k in range(i):
                r = np.corrcoef(u[k], u[i])[0, 1]
                reject(2 * stats.norm.sf(abs(r) * math.sqrt(n)),
                       f"coordinates {k} and {i} are correlated")
        return True
    given = [pa[k] for k in pa if k.startswith("pos")]
    got, keys = counts_by_position(pos, given)
    mult = {}
    for k in keys:
        mult[k] = mult.get(k, 0) + 1
    uniq = sorted(mult)
    if len(uniq) < 2:
        return False
    cnt = [got[keys.index(k)] for k in uniq]
    prob = np.array([mult[k] / len(keys) for k in uniq])
    p = stats.chisquare(cnt, prob * n).pvalue
    reject(p, f"{n} particles on the positions {uniq}: {cnt}, expected {(prob * n).tolist()}")
    idx = np.array([uniq.index(tuple(float(x) for x in q)) for q in pos])
    q = float((prob**2).sum())
    same = int((idx[:-1] == idx[1:]).sum())
    # indicator of equal neighbours: covariances between overlapping pairs are included
    var = (n - 1) * q * (1 - q) + 2 * (n - 2) * (float((prob**3).sum()) - q * q)
    z = (same - (n - 1) * q) / math.sqrt(var)
    reject(2 * stats.norm.sf(abs(z)), f"{same} of {n} consecutive particles share their position")
    return True


@st.composite
def small_cases(draw):
    cfg = draw(whole.configs(max_steps=2, max_particles=8, bd=False, hist=False, fes=False,
                             delta_f=False, pdist=False, seeds=draw(st.booleans())))
    return cfg


@PROP.sub(
    "small", small_cases(), 300, 8000, shards=3,
    rule="few particles, all distributions, with and without seeds: number, mass, momentum, "
    "allowed positions; always non-trivial",
)
def small(case, rec):
    pa = case["sections"]["particles"]
    with ScratchDir() as path:
        pos = initial(case, path)
    rec.label(pa["initial-distribution"])
    if pa["initial-distribution"] == "random-global":
        for i, (lo, hi) in enumerate(case["ranges"]):
            require(bool(np.all((pos[:, i] >= lo) & (pos[:, i] <= hi))), "outside the range")
    else:
        counts_by_position(pos, [pa[k] for k in pa if k.startswith("pos")])
    return True


@st.composite
def slot_cases(draw):
    cfg = draw(base())
    pa = {"number": draw(st.integers(2, 6)),
          "initial-distribution": draw(st.sampled_from(["random-global", "random-pos"]))}
    if pa["initial-distribution"] == "random-pos":
        k = draw(st.integers(2, 4))
        lo, hi = cfg["ranges"][0]
        for i in range(k):
            pa[f"pos{i+1}"] = draw(gen.inside(cfg["ranges"], 2))
            pa[f"pos{i+1}"][0] = round(lo + (hi - lo) * (i + 0.5) / k, 3)  # all different
    cfg["sections"]["particles"] = pa
    cfg["seed0"] = draw(st.sampled_from([None, 0, 17, 1000]))
    return cfg


@PROP.sub(
    "slots", slot_cases(), 10, 300, shards=5,
    rule="90 runs that only differ in the seed (or have none): the position of every single "
    "particle and the combination of the first two are distributed as documented over the runs; "
    "always non-trivial",
)
def slots(case, rec):
    pa = case["sections"]["particles"]
    runs = []
    with ScratchDir() as path:
        for i in range(90):
            if case["seed0"] is not None:
                pa["seed"] = case["seed0"] + i
            runs.append(initial(case, path))
    runs = np.array(runs)  # run, particle, dimension
    rec.label(pa["initial-distribution"], "no seed" if case["seed0"] is None else "seeds")
    n_run, n = runs.shape[:2]
    for i in range(n):
        what = f"particle {i} in {n_run} runs"
        if pa["initial-distribution"] == "random-global":
            for d, (lo, hi) in enumerate(case["ranges"]):
                u = (runs[:, i, d] - lo) / (hi - lo)
                reject(stats.kstest(u, "uniform").pvalue, f"{what}: coordinate {d} not uniform")
                if i:
                    r = np.corrcoef(u, runs[:, 0, d])[0, 1]
                    require(abs(r) < 0.65, f"{what}: correlated with particle 0 ({r})")
        else:
            keys = [tuple(map(float, pa[k])) for k in sorted(pa) if k.startswith("pos")]
            counts_by_position(runs[:, i], keys)
            idx = np.array([keys.index(tuple(map(float, p))) for p in runs[:, i]])
            cnt = np.bincount(idx, minlength=len(keys))
            for k, c in enumerate(cnt):
                pv = min(1.0, 2 * min(stats.binom.cdf(c, n_run, 1 / len(keys)),
                                      stats.binom.sf(c - 1, n_run, 1 / len(keys))))
                reject(pv, f"{what}: {c} times at {keys[k]} of {len(keys)} positions")
            if i:
                first = np.array([keys.index(tuple(map(float, p))) for p in runs[:, 0]])
                c = int((idx == first).sum())
                pv = min(1.0, 2 * min(stats.binom.cdf(c, n_run, 1 / len(keys)),
                                      stats.binom.sf(c - 1, n_run, 1 / len(keys))))
                reject(pv, f"{what}: {c} times at the position of particle 0")
    return True
