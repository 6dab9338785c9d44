"""C12: probabilities and direction of birth-death events"""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

import bdgen
import gen
import ref
import whole
from core import Property, ScratchDir, require
from props.c07 import cfg_pot
from props.c11 import rates

PROP = Property(
    "C12",
    assumptions=[
        "rates are taken from calc_betas() (decided by C11)",
        "every outcome's frequency is compared by an exact binomial tail, alarm at p < 1e-9",
    ],
)
P_MIN = 1e-9


@st.composite
def sit_cases(draw, min_n, max_n, recalc=None):
    d = draw(st.sampled_from([1, 1, 2, 3]))
    variants = ("original", "additive", "multiplicative") if d == 1 else ("original",)
    c = draw(bdgen.situations(min_n=min_n, max_n=max_n, far=False, recalc=recalc, n_dim=d,
                              variants=variants))
    c["target"] = draw(st.sampled_from([0.05, 0.3, 0.8, 2.0, 6.0]))
    c["vary"] = draw(st.sampled_from(["rate", "rate", "dt"]))
    if draw(st.integers(0, 3)) == 0:  # large rates
        c["energy"] = [e * draw(st.sampled_from([20.0, 100.0])) for e in c["energy"]]
    return c


def prepare(case):
    """Scale the rate factor (or time step) to have probabilities of interest"""
    _, bd = bdgen.build(case)
    b = np.abs(np.array(bd.calc_betas(), float))
    if not np.all(np.isfinite(b)) or b.max() < 1e-6:
        return None, None
    want = case["target"] / b.max()
    if case["vary"] == "rate":
        c = dict(case, rate=float(want / (case["dt"] * case["stride"])))
    else:
        c = dict(case, rate=None, dt=float(want / case["stride"]))
    return c, want


def runs(case, n_rep):
    """Event lists of independent steps from the same particles"""
    ld, bd = bdgen.build(case)
    res = []
    for _ in range(n_rep):
        ev = bd.do_birth_death()
        res.append(tuple((int(a), int(b)) for a, b in ev))
        if ev:
            bdgen.reset(ld, case)
    return res


def test_freq(counts, probs, n_rep, what):
    for o, k in counts.items():
        p = probs.get(o, 0.0)
        require(p > 0, f"{what}: outcome {o} occurred {k} times but is impossible")
    for o, p in probs.items():
        k = counts.get(o, 0)
        pv = ref.binom_tail(k, n_rep, min(1.0, p))
        require(
            pv >= P_MIN,
            f"{what}: outcome {o} occurred {k} times in {n_rep} steps, expected "
            f"{p * n_rep:.2f} (p = {pv:.2g})",
        )


class Betas:
    """Rates of configurations in which slot i holds a copy of particle state[i]"""

    def __init__(self, case):
        self.case = case
        self.ld, self.bd = bdgen.build(case)
        self.memo = {}

    def __call__(self, state):
        if state not in self.memo:
            c = self.case
            sub = dict(c, **{k: [c[k][i] for i in state] for k in ("pos", "mom", "mass",
                                                                  "energy")})
            bdgen.reset(self.ld, sub)
            self.memo[state] = [float(x) for x in self.bd.calc_betas()]
        return self.memo[state]


def event(i, other, beta):
    return (other, i) if beta > 0 else (i, other)


def exact(case, tau):
    """Exact distribution of the event list"""
    n = len(case["pos"])
    betas = Betas(case)
    start = tuple(range(n))
    b0 = betas(start)
    prob = lambda b: -math.expm1(-abs(b) * tau)
    res = {}

    def add(seq, p):
        res[seq] = res.get(seq, 0.0) + p

    if not case["recalc"]:
        for r in range(n + 1):
            for s in itertools.combinations(range(n), r):
                p = 1.0
                for i in range(n):
                    p *= prob(b0[i]) if i in s else 1 - prob(b0[i])
                if p == 0:
                    continue
                perms = list(itertools.permutations(s))

                def go(order, seq, killed, p):
                    if not order:
                        add(seq, p)
                        return
                    i = order[0]
                    if i in killed:
                        go(order[1:], seq, killed, p)
                        return
                    for o in range(n):
                        if o != i:
                            e = event(i, o, b0[i])
                            go(order[1:], seq + (e,), killed | {e[1]}, p / (n - 1))

                for order in perms:
                    go(order, (), frozenset(), p / len(perms))
        return res
    perms = list(itertools.permutations(range(n)))

    def walk(order, state, seq, p):
        if p == 0:
            return
        if not order:
            add(seq, p)
            return
        i = order[0]
        b = betas(state)[i]
        q = prob(b)
        walk(order[1:], state, seq, p * (1 - q))
        for o in range(n):
            if o != i:
                e = event(i, o, b)
                new = list(state)
                new[e[1]] = state[e[0]]
                walk(order[1:], tuple(new), seq + (e,), p * q / (n - 1))

    for order in perms:
        walk(order, start, (), 1.0 / len(perms))
    return res


MARGINALS = {
    "number of events": lambda o: [len(o)],
    "second event": lambda o: [o[1] if len(o) > 1 else None],
    "last event": lambda o: [o[-1] if o else None],
    "killed particle": lambda o: sorted({k for _, k in o}),
    "duplicated particle": lambda o: sorted({d for d, _ in o}),
}


@PROP.sub(
    "exact", sit_cases(2, 4), 130, 4000, shards=8,
    rule="frequencies of all possible event lists of 2 to 4 particles over 2500 steps against "
    "the exactly enumerated distribution, both modes, and its marginals (number of events, "
    "second and last event, number of steps in which a particle is killed or duplicated); "
    "non-trivial: probabilities not all tiny",
)
def small(case, rec):
    case, tau = prepare(case)
    if case is None:
        return False
    n_rep = 2500
    probs = exact(case, tau)
    total = sum(probs.values())
    assert abs(total - 1) < 1e-6, total
    counts = {}
    for ev in runs(case, n_rep):
        counts[ev] = counts.get(ev, 0) + 1
    what = f"{'recalculating' if case['recalc'] else 'bulk'}, rates {Betas(case)(tuple(range(len(case['pos']))))}, tau {tau:.4g}"
    test_freq(counts, probs, n_rep, what)
    for name, key in MARGINALS.items():
        mp, mc = {}, {}
        for src, dst in ((probs, mp), (counts, mc)):
            for o, p in src.items():
                for k in key(o):
                    dst[k] = dst.get(k, 0) + p
        test_freq(mc, mp, n_rep, f"{what}, {name}")
    rec.label("recalc" if case["recalc"] else "bulk", case["variant"], f"n {len(case['pos'])}",
              case["vary"])
    return case["target"] > 0.1


def first_probs(beta, tau):
    """Distribution of the first event"""
    n = len(beta)
    p = [-math.expm1(-abs(b) * tau) for b in beta]
    # 64-point Gauss-Legendre is exact for these polynomials
    x, w = np.polynomial.legendre.leggauss(32)
    t = 0.5 * (x + 1)
    res = {None: math.exp(-tau * math.fsum(abs(b) for b in beta))}
    for i in range(n):
        f = np.ones_like(t)
        for j in range(n):
            if j != i:
                f *= 1 - t * p[j]
        q = p[i] * float((0.5 * w * f).sum())
        for o in range(n):
            if o != i and q > 0:
                e = event(i, o, beta[i])
                res[e] = res.get(e, 0.0) + q / (n - 1)
    return res


def explainable(events, beta):
    """bulk mode: every event has its own trigger that was not killed before"""
    n_ev = len(events)

    def go(k, used, killed):
        if k == n_ev:
            return True
        d, kk = events[k]
        for i, ok in ((kk, beta[kk] > 0), (d, beta[d] <= 0)):
            if ok and i not in used and i not in killed:
                if go(k + 1, used | {i}, killed | {kk}):
                    return True
        return False

    return go(0, frozenset(), frozenset())


@PROP.sub(
    "first", sit_cases(4, 10), 80, 3000, shards=8,
    rule="4-10 particles: frequencies of no event and of every possible first event over 1500 "
    "steps; bulk mode: every event list is explainable by distinct triggering particles of "
    "the right sign that were not killed before; non-trivial: probabilities not all tiny",
)
def first(case, rec):
    case, tau = prepare(case)
    if case is None:
        return False
    first_frequencies(case, tau, 1500)
    rec.label("recalc" if case["recalc"] else "bulk", case["variant"])
    return case["target"] > 0.1


def first_frequencies(case, tau, n_rep):
    n = len(case["pos"])
    beta = Betas(case)(tuple(range(n)))
    probs = first_probs(beta, tau)
    counts, known = {}, set()
    for ev in runs(case, n_rep):
        o = ev[0] if ev else None
        counts[o] = counts.get(o, 0) + 1
        if not case["recalc"] and ev not in known:
            known.add(ev)
            require(len(ev) <= n, f"{len(ev)} events with {n} particles")
            require(explainable(ev, beta), f"events {ev} cannot be triggered by rates {beta}")
    what = f"{'recalculating' if case['recalc'] else 'bulk'}, rates {beta}, tau {tau:.4g}"
    test_freq(counts, probs, n_rep, what)
    # marginals have more power: killed / duplicated particle of the first event
    for pos, name in ((0, "duplicated"), (1, "killed")):
        mp, mc = {}, {}
        for o, p in probs.items():
            k = None if o is None else o[pos]
            mp[k] = mp.get(k, 0.0) + p
        for o, c in counts.items():
            k = None if o is None else o[pos]
            mc[k] = mc.get(k, 0) + c
        test_freq(mc, mp, n_rep, f"{what}, first {name} particle")


@st.composite
def precise_cases(draw):
    c = draw(sit_cases(2, 6, recalc=draw(st.sampled_from([False, False, True]))))
    c["target"] = draw(st.sampled_from([0.19, 0.15, 0.1, 0.4, 0.9]))
    return c


@PROP.sub(
    "precise", precise_cases(), 10, 300, shards=8,
    rule="2 to 6 particles with small probabilities: frequencies of no event and of the first "
    "event over 40000 steps; non-trivial: all compared",
)
def precise(case, rec):
    case, tau = prepare(case)
    if case is None:
        return False
    first_frequencies(case, tau, 10000 if case["recalc"] else 40000)
    rec.label("recalc" if case["recalc"] else "bulk", case["variant"])
    return True


@st.composite
def large_cases(draw):
    c = draw(sit_cases(2, 4))
    c["number"] = draw(st.integers(65, 330))
    c["total"] = draw(st.sampled_from([0.7, 2.0, 8.0] if c["recalc"] else [0.7, 2.0, 60.0]))
    return c


@PROP.sub(
    "large", large_cases(), 24, 800, shards=8,
    rule="65 to 330 particles: frequencies of no event and of the killed and duplicated particle "
    "of the first event, pooled by ranges and remainders of their index; always non-trivial",
)
def large(case, rec):
    case = bdgen.expand(case)
    n = case["number"]
    b = np.abs(np.array(bdgen.build(case)[1].calc_betas(), float))
    if not np.all(np.isfinite(b)) or b.max() < 1e-6:
        return False
    tau = case["total"] / b.sum()
    if case["vary"] == "rate":
        case = dict(case, rate=float(tau / (case["dt"] * case["stride"])))
    else:
        case = dict(case, rate=None, dt=float(tau / case["stride"]))
    n_rep = 400 if case["recalc"] else 1000
    beta = Betas(case)(tuple(range(n)))
    p_first, p_none = first_particles(beta, tau)
    firsts = [ev[0] for ev in runs(case, n_rep) if ev]
    what = (f"{'recalculating' if case['recalc'] else 'bulk'}, {n} particles, tau {tau:.4g}, "
            f"{case['total']} expected")
    test_freq({None: n_rep - len(firsts)}, {None: p_none}, n_rep, what)
    pools = {"eighth": lambda i: i * 8 // n, "remainder of 7": lambda i: i % 7,
             "half": lambda i: i * 2 // n, "end": lambda i: min(i, n - 1 - i, 2)}
    for which, name in ((0, "duplicated"), (1, "killed")):
        for pname, pool in pools.items():
            pp, pc = {}, {}
            for i, q in enumerate(p_first[which]):
                pp[pool(i)] = pp.get(pool(i), 0.0) + q
            for e in firsts:
                pc[pool(e[which])] = pc.get(pool(e[which]), 0) + 1
            test_freq(pc, pp, n_rep, f"{what}, {pname} of the first {name} particle")
    rec.label("recalc" if case["recalc"] else "bulk", case["variant"], f"total {case['total']}")
    return True


def first_particles(beta, tau):
    """(probabilities to be duplicated and to be killed first, probability of no event)"""
    beta = np.array(beta)
    n = len(beta)
    p = -np.expm1(-np.abs(beta) * tau)
    x, w = np.polynomial.legendre.leggauss(n // 2 + 1)  # exact for these polynomials
    t = 0.5 * (x + 1)
    f = 1 - np.outer(t, p)
    prod = np.prod(f, axis=1)
    trig = np.array([p[i] * float((0.5 * w * prod / f[:, i]).sum()) for i in range(n)])
    kill, dup = np.where(beta > 0, trig, 0), np.where(beta > 0, 0, trig)
    # the other one is any of the others
    killed = kill + (dup.sum() - dup) / (n - 1)
    dupped = dup + (kill.sum() - kill) / (n - 1)
    return (dupped, killed), float(np.exp(-tau * np.abs(beta).sum()))


def matched(candidates, n):
    """Whether every entry can have a number of its own from its candidates (0..n-1)"""
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching

    if not candidates:
        return True
    rows = [k for k, c in enumerate(candidates) for _ in c]
    cols = [i for c in candidates for i in c]
    m = csr_matrix((np.ones(len(rows), dtype=int), (rows, cols)), shape=(len(candidates), n))
    return bool(np.all(maximum_bipartite_matching(m, perm_type="column") >= 0))


@st.composite
def crowd_cases(draw):
    c = draw(sit_cases(2, 4))
    c["number"] = draw(st.integers(8, 60))
    c["target"] = draw(st.sampled_from([0.3, 3.0, 1e6, 1e6]))
    c["reps"] = draw(st.integers(2, 5))
    return c


SURE = 1 - 1e-12


@PROP.sub(
    "crowd", crowd_cases(), 60, 2000, shards=4,
    rule="8 to 60 particles, long event lists: every event has its own triggering particle with "
    "the right sign (bulk: of the rate before the step and not killed before; recalculating: "
    "of the rate at that moment), and particles with probability one do trigger; non-trivial: "
    "five or more events in a step",
)
def crowd(case, rec):
    case, tau = prepare(bdgen.expand(case))
    if case is None:
        return False
    n = case["number"]
    betas = Betas(case)
    start = tuple(range(n))
    b0 = betas(start)
    prob = lambda b: -math.expm1(-abs(b) * tau)
    long = 0
    for ev in runs(case, case["reps"]):
        long = max(long, len(ev))
        what = f"{'recalculating' if case['recalc'] else 'bulk'}, {n} particles, tau {tau:.4g}"
        require(len(ev) <= n, f"{what}: {len(ev)} events")
        cand, killed, state, b = [], set(), start, b0
        sure = all(prob(x) > SURE for x in b)
        for dup, kill in ev:
            c = [i for i, ok in ((kill, b[kill] > 0), (dup, b[dup] <= 0))
                 if ok and (case["recalc"] or i not in killed)]
            cand.append(c)
            killed.add(kill)
            if case["recalc"]:
                new = list(state)
                new[kill] = state[dup]
                state = tuple(new)
                b = betas(state)
                betas.memo.clear()
                sure = sure and all(prob(x) > SURE for x in b)
        require(
            matched(cand, n),
            f"{what}: events {ev} cannot be triggered by different particles with the right rates",
        )
        if case["recalc"]:
            require(not sure or len(ev) == n, f"{what}: {len(ev)} events with probability one")
        elif sure:
            at = {}
            for k, c in enumerate(cand):
                for i in c:
                    at.setdefault(i, []).append(k)
            rest = [at.get(i, []) for i in range(n) if i not in killed]
            require(
                matched(rest, len(ev)),
                f"{what}: particles neither killed nor triggering with probability one: {ev}",
            )
        if sure:
            rec.label("probability one")
    rec.label("recalc" if case["recalc"] else "bulk", case["variant"])
    return long >= 5


@st.composite
def prog_cases(draw):
    cfg = draw(whole.configs(bd=True, traj=False, hist=False, fes=False, delta_f=False,
                             pdist=False, mueller=False, max_particles=2,
                             bd_variants=("original",)))
    s = cfg["sections"]
    s["particles"]["number"] = draw(st.integers(3, 6))
    s["particles"]["initial-distribution"] = "random-global"
    for k in [k for k in s["particles"] if k.startswith(("pos", "fractions"))]:
        del s["particles"][k]
    s["ld"]["n_steps"] = draw(st.integers(100, 200))
    b = s["birth-death"]
    b["stride"] = draw(st.integers(1, 4))
    if draw(st.integers(0, 3)) == 0:
        b.pop("exponential-factor", None)
        s["ld"]["timestep"] = draw(st.sampled_from([0.02, 0.05]))
    else:
        b["exponential-factor"] = draw(st.sampled_from([3.0, 10.0, 30.0]))
    return cfg


def poisson_binomial_tail(k, probs):
    dist = np.array([1.0])
    for p in probs:
        dist = np.convolve(dist, [1 - p, p])
    return float(min(1.0, 2 * min(dist[: k + 1].sum(), dist[k:].sum())))


@PROP.sub(
    "program", prog_cases(), 60, 1500, shards=6,
    rule="whole simulations: number of birth-death steps with an event against the exact "
    "distribution given the observed states and the input's settings, and direction of all "
    "first events; non-trivial: between 5% and 95% of the steps expected to have events",
)
def program(case, rec):
    s = case["sections"]
    b = s["birth-death"]
    with ScratchDir() as path:
        res = whole.run(case, path)
    tau = s["ld"]["timestep"] * b["stride"] * b.get("exponential-factor", 1.0)
    kt = s["ld"].get("kt", 1.0)
    bw = whole.as_list(b["kernel-bandwidth"])
    j = cfg_pot(case)
    pot = gen.mk_pot(j)
    probs, seen = [], 0
    for (step, ev), (before, _) in zip(res.rec["events"], res.rec["bd_states"]):
        if not np.all(np.isfinite(before["pos"])) or np.abs(before["pos"]).max() > 30:
            break
        energy = [float(pot.energy(p)) for p in before["pos"]]
        beta = rates(before["pos"], energy, bw, kt, "original", None, j["ranges"])[0]
        probs.append(-math.expm1(-tau * float(np.abs(beta).sum())))
        seen += bool(ev)
        if ev:
            d, k = ev[0]
            require(
                beta[k] > -1e-9 or beta[d] < 1e-9,
                f"step {step}: first event {ev[0]} against the rates {beta.tolist()}",
            )
        if not b.get("recalculate-probabilities"):
            require(
                explainable(ev, np.where(np.abs(beta) < 1e-9, 0, beta)),
                f"step {step}: events {ev} cannot be triggered by rates {beta.tolist()}",
            )
    if not probs:
        return False
    pv = poisson_binomial_tail(seen, probs)
    require(
        pv >= P_MIN,
        f"{seen} of {len(probs)} birth-death steps had events, expected {sum(probs):.2f} "
        f"(p = {pv:.2g}; tau {tau:.4g})",
    )
    m = float(np.mean(probs))
    rec.label(s["ld"]["type"], "recalc" if b.get("recalculate-probabilities") else "bulk")
    return 0.05 < m < 0.95
