"""C14: walker density"""
import inspect
import signal

import numpy as np
from hypothesis import strategies as st

import gen
import ref
from core import Hang, Property, require

PROP = Property(
    "C14",
    assumptions=["densities are compared to a relative accuracy of 1e-9 with a direct sum"],
)


@st.composite
def walker_sets(draw, max_n=30):
    d = draw(gen.dims)
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, max_n)))
    scale = draw(st.sampled_from([1.0, 1.0, 10.0, 0.01]))
    off = draw(st.sampled_from([0.0, 0.0, 5.0, -3.5]))
    pos = []
    for _ in range(n):
        if pos and draw(st.integers(0, 7)) == 0:
            pos.append(list(pos[draw(st.integers(0, len(pos) - 1))]))
        else:
            pos.append([off + scale * x for x in draw(gen.vec(gen.dec(-2, 2, 2), d))])
    if draw(st.integers(0, 5)) == 0:
        pos[-1] = [1000.0 * (k + 1) for k in range(d)]
    bw = [draw(st.sampled_from([0.05, 0.1, 0.3, 0.7, 2.0, 1.0])) for _ in range(d)]
    return {"pos": pos, "bw": bw}


def check(got, pos, bw, what):
    want = ref.kde(pos, bw)
    got = np.asarray(got, dtype=float)
    require(got.shape == want.shape, f"{what}: shape {got.shape} for {len(pos)} walkers")
    bad = np.abs(got - want) > 1e-9 * want
    if bad.any() or not np.all(got > 0):
        i = int(np.argmax(bad))
        require(False, f"{what}: density at walker {i} is {got[i]}, expected {want[i]}")


def schemes():
    """The internal evaluation schemes, as far as they exist with their known signature

    The one for more than 10000 walkers takes minutes through the public function"""
    from bdld.actions import birth_death

    res = []
    for name in ("_walker_density_manual", "_walker_density_pdist"):
        f = getattr(birth_death, name, None)
        if inspect.isfunction(f) and list(inspect.signature(f).parameters) == ["pos", "bw"]:
            res.append((name, f))
    return res


@st.composite
def cases(draw):
    c = draw(walker_sets())
    c["perm"] = draw(st.permutations(range(len(c["pos"]))))
    c["shift"] = draw(gen.vec(gen.dec(-3, 3, 1), len(c["bw"])))
    return c


@PROP.sub(
    "density", cases(), 2500, 60000, shards=4,
    rule="walker_density and every other evaluation scheme in the module against a direct "
    "double sum, after permutation and translation; inputs unchanged; non-trivial: 2 or more "
    "walkers",
)
def density(case, rec):
    from bdld.actions.birth_death import walker_density

    pos, bw = np.array(case["pos"], float), np.array(case["bw"], float)
    p0, b0 = pos.copy(), bw.copy()
    a = walker_density(pos, bw)
    require(np.array_equal(pos, p0) and np.array_equal(bw, b0), "input was changed")
    check(a, pos, bw, "walker_density")
    perm = list(case["perm"])
    check(walker_density(pos[perm], bw), pos[perm], bw, "permuted")
    check(walker_density(pos + np.array(case["shift"]), bw), pos + np.array(case["shift"]), bw,
          "shifted")
    for name, f in schemes():
        check(f(pos.copy(), bw.copy()), pos, bw, name)
        rec.label(name)
    rec.label(f"{len(bw)}d", "one" if len(pos) == 1 else "many")
    return len(pos) > 1


@st.composite
def many_cases(draw):
    d = draw(gen.dims)
    return {"n": draw(st.integers(50, 600)), "bw": [draw(gen.dec(0.05, 1, 2)) for _ in range(d)],
            "seed": draw(st.integers(0, 10**6))}


def cloud(case):
    rng = np.random.default_rng(case["seed"])
    return rng.normal(size=(case["n"], len(case["bw"]))), np.array(case["bw"], float)


def sample_check(got, pos, bw, idx, what):
    norm = np.prod(1 / (np.sqrt(2 * np.pi) * bw))
    for i in idx:
        want = norm * np.mean(np.exp(-0.5 * (((pos - pos[i]) / bw) ** 2).sum(axis=1)))
        require(
            abs(got[i] - want) <= 1e-9 * want,
            f"{what}: density at walker {i} of {len(pos)} is {got[i]}, expected {want}",
        )


@PROP.sub(
    "many", many_cases(), 80, 2000, shards=4,
    rule="50-600 walkers, all of them compared; always non-trivial",
)
def many(case, rec):
    from bdld.actions.birth_death import walker_density

    pos, bw = cloud(case)
    got = walker_density(pos, bw)
    sample_check(got, pos, bw, range(len(pos)), "walker_density")
    return True


@st.composite
def switch_cases(draw):
    bw = draw(st.permutations([0.1, 0.3, 0.2]))
    return {"bw": bw[:draw(st.sampled_from([2, 2, 3]))], "seed": draw(st.integers(0, 1000))}


SOFT_LIMIT = 480


@PROP.sub(
    "switch", switch_cases(), 1, 3, seconds=SOFT_LIMIT + 100,
    rule="numbers of walkers on both sides of the internal scheme switch; given up without a "
    "verdict (trivial) where this takes more than eight minutes",
)
def switch(case, rec):
    from bdld.actions.birth_death import walker_density

    signal.alarm(SOFT_LIMIT)
    for n in (10000, 10001):
        pos, bw = cloud(dict(case, n=n))
        try:
            got = walker_density(pos, bw)
        except Hang:
            rec.label(f"{n} walkers take too long here")
            return False
        require(len(got) == len(pos), f"{len(got)} densities for {len(pos)} walkers")
        sample_check(got, pos, bw, range(0, len(pos), 97), f"walker_density of {n} walkers")
    return True
