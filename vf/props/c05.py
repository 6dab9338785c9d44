"""C05: equilibrium density"""
import math

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property("C05", assumptions=["densities compared to 1e-9 relative"])


@st.composite
def pots(draw):
    j = draw(gen.confining(bc=False))
    return j


@st.composite
def cases(draw):
    j = draw(pots())
    d = j["n_dim"]
    if j["type"] == "polynomial" and draw(st.integers(0, 3)) == 0:  # any zero of the energy
        c = np.array(j["coeffs"], dtype=float)
        c.flat[0] += draw(st.sampled_from([-1e5, -3e4, -500.0, 500.0, 2e4]))
        j["coeffs"] = c.tolist()
    top = {1: 40, 2: 9, 3: 5}[d]
    return {
        "pot": j,
        "kt": draw(st.one_of(st.just(1.0), gen.dec(0.1, 5, 1), gen.dec(0.01, 0.1, 2),
                             st.sampled_from([1e-4, 1e-3, 0.005, 50.0, 1e4]))),
        "ranges": draw(st.one_of(st.just(j["ranges"]), gen.rng_ranges(d, -2, 1, 0.3, 3))),
        "n": [draw(st.integers(2, top)) for _ in range(d)],
        "wrong": draw(st.sampled_from([None, None, None, None, "ranges", "n"])),
        "mintozero": draw(st.sampled_from([None, True, False])),
    }


def boltzmann(pot, axes, kt):
    """Unnormalised density with a common factor removed, as array over the axes"""
    pts = ref.row_major(axes)
    e = np.array([float(pot.energy(list(p))) for p in pts])
    w = np.exp(-(e - e.min()) / kt)
    return w.reshape([len(a) for a in axes]), e


def check_density(data, pot, axes, steps, kt):
    w, _ = boltzmann(pot, axes, kt)
    want = w / (w.sum() * math.prod(steps))
    require(data.shape == want.shape, f"density of shape {data.shape}, expected {want.shape}")
    require(bool(np.all(data >= 0)), "negative density")
    total = float(data.sum() * math.prod(steps))
    require(abs(total - 1) < 1e-9, f"density sums to {total}")
    ok = np.abs(data - want) <= 1e-9 * want.max()
    ok &= (np.abs(data - want) <= 1e-7 * want) | (want < 1e-295)
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Violation(
            f"density at {[float(a[k]) for a, k in zip(axes, i)]} is {data[i]}, expected {want[i]}"
        )


@PROP.sub(
    "density", cases(), 900, 20000, shards=3,
    rule="random potentials, temperatures, ranges and unequal point numbers; non-trivial: "
    "a density that varies",
)
def density(case, rec):
    pot = gen.mk_pot(case["pot"])
    d = case["pot"]["n_dim"]
    ranges = [tuple(r) for r in case["ranges"]]
    n = list(case["n"])
    if case["wrong"]:
        rec.label("mismatch")
        if case["wrong"] == "ranges":
            bad_r, bad_n = ranges + [(0.0, 1.0)], n
        else:
            bad_r, bad_n = ranges, n + [4]
        try:
            pot.calculate_probability_density(case["kt"], bad_r, bad_n)
        except ValueError:
            return True
        raise Violation(f"mismatching {case['wrong']} were not refused")
    g = pot.calculate_probability_density(case["kt"], ranges, n)
    axes = [ref.axis_points(lo, hi, k) for (lo, hi), k in zip(ranges, n)]
    steps = [(hi - lo) / (k - 1) for (lo, hi), k in zip(ranges, n)]
    data = np.asarray(g.data, dtype=float)
    check_density(data, pot, axes, steps, case["kt"])
    pts = np.asarray(g.points(), dtype=float)
    want = ref.row_major(axes)
    require(
        pts.shape == want.shape and np.allclose(pts, want, rtol=1e-10, atol=1e-10),
        "points of the grid are not the requested ones in row-major order",
    )
    rec.label(f"{d}d", "unequal n" if len(set(n)) > 1 else "equal n")
    # reference
    kw = {} if case["mintozero"] is None else {"mintozero": case["mintozero"]}
    got = np.asarray(pot.calculate_reference(want, **kw), dtype=float)
    e = np.array([float(pot.energy(list(p))) for p in want])
    if case["mintozero"] is not False:
        e = e - e.min()
    require(got.shape == e.shape, f"reference of shape {got.shape}")
    require(
        np.allclose(got, e, rtol=1e-10, atol=1e-10 * (1 + np.abs(e).max())),
        "reference free energy differs from the energies",
    )
    return float(data.max() - data.min()) > 1e-6


@st.composite
def bd_cases(draw):
    j = draw(gen.confining(n_dim=1, bc=False))
    return {
        "pot": j,
        "kt": draw(gen.dec(0.2, 3, 1)),
        "bw": draw(gen.dec(0.004, 0.5, 3)),
    }


@PROP.sub(
    "birth-death", bd_cases(), 150, 3000, shards=2,
    rule="density set up for birth-death from potential, bandwidth and temperature (1d): "
    "over the potential range, fine enough for the kernel; always non-trivial",
)
def bd_density(case, rec):
    from bdld import main

    pot = gen.mk_pot(case["pot"])
    g = main.bd_prob_density(pot, np.array([case["bw"]]), case["kt"])
    ax = np.asarray(g.axes()[0], dtype=float)
    lo, hi = case["pot"]["ranges"][0]
    require(
        abs(ax[0] - lo) < 1e-9 and abs(ax[-1] - hi) < 1e-9,
        f"density over ({ax[0]}, {ax[-1]}) instead of ({lo}, {hi})",
    )
    step = (hi - lo) / (len(ax) - 1)
    require(
        10 * case["bw"] / step >= 19.0,
        f"only {10 * case['bw'] / step} points of the kernel within 5 sigma",
    )
    check_density(
        np.asarray(g.data, float), pot, [ref.axis_points(lo, hi, len(ax))], [step], case["kt"]
    )
    return True


@st.composite
def bd2_cases(draw):
    j = draw(gen.confining(n_dim=2, bc=False, mueller=False))
    fine = draw(st.integers(0, 1))
    bw = [0.0, 0.0]
    bw[fine] = (j["ranges"][fine][1] - j["ranges"][fine][0]) / draw(st.integers(260, 420))
    bw[1 - fine] = draw(gen.dec(0.1, 0.5, 2))
    return {"pot": j, "kt": draw(gen.dec(0.2, 3, 1)), "bw": bw}


@PROP.sub(
    "birth-death-2d", bd2_cases(), 3, 60, shards=3,
    rule="the same in two dimensions with very different bandwidths; always non-trivial",
)
def bd_density_2d(case, rec):
    from bdld import main

    pot = gen.mk_pot(case["pot"])
    g = main.bd_prob_density(pot, np.array(case["bw"]), case["kt"])
    axes, steps = [], []
    for (lo, hi), bw, ax in zip(case["pot"]["ranges"], case["bw"], g.axes()):
        require(
            abs(ax[0] - lo) < 1e-9 and abs(ax[-1] - hi) < 1e-9,
            f"density over ({ax[0]}, {ax[-1]}) instead of ({lo}, {hi})",
        )
        steps.append((hi - lo) / (len(ax) - 1))
        require(
            10 * bw / steps[-1] >= 19.0,
            f"only {10 * bw / steps[-1]} points of the kernel within 5 sigma ({case['bw']})",
        )
        axes.append(ref.axis_points(lo, hi, len(ax)))
    pts = ref.row_major(axes)
    e = np.zeros(len(pts))
    for idx, v in np.ndenumerate(np.asarray(case["pot"]["coeffs"], dtype=float)):
        e += v * pts[:, 0] ** idx[0] * pts[:, 1] ** idx[1]
    w = np.exp(-(e - e.min()) / case["kt"]).reshape([len(a) for a in axes])
    want = w / (w.sum() * math.prod(steps))
    data = np.asarray(g.data, dtype=float)
    require(data.shape == want.shape, f"density of shape {data.shape}, expected {want.shape}")
    require(bool(np.allclose(data, want, rtol=1e-6, atol=1e-200)), "density differs")
    return True


@st.composite
def run_cases(draw):
    cfg = draw(whole.configs(n_dim=1, bd=True, max_steps=3, traj=False, hist=False, fes=False,
                             delta_f=False, pdist=False))
    b = cfg["sections"]["birth-death"]
    b.pop("correction-variant", None)
    b["approximation-variant"] = draw(st.sampled_from(["additive", "multiplicative"]))
    return cfg


def _collect_density(captured):
    return None


@PROP.sub(
    "program", run_cases(), 80, 1500, shards=2,
    rule="density handed to birth-death by the program for generated inputs; always non-trivial",
)
def program(case, rec):
    def patch(r):
        from bdld.actions import birth_death

        orig = birth_death.BirthDeath.__init__
        import inspect

        sig = inspect.signature(orig)

        def init(self, *args, **kwargs):
            b = sig.bind(self, *args, **kwargs)
            g = b.arguments.get("eq_density")
            if g is not None:
                r["density"] = (
                    np.array(g.data, dtype=float), [np.array(a, dtype=float) for a in g.axes()]
                )
            orig(self, *args, **kwargs)

        birth_death.BirthDeath.__init__ = init

    with ScratchDir() as path:
        res = whole.run(case, path, patch=patch)
    require("density" in res.rec, "no equilibrium density was set up")
    data, axes = res.rec["density"]
    lo, hi = case["ranges"][0]
    p = case["sections"]["potential"]
    coeffs = p.get("coeffs") or case["coeffs"]
    j = {"type": "polynomial", "coeffs": coeffs, "ranges": case["ranges"], "bc": None}
    kt = case["sections"]["ld"].get("kt", 1.0)
    require(abs(axes[0][0] - lo) < 1e-9 and abs(axes[0][-1] - hi) < 1e-9, "wrong range")
    n = len(axes[0])
    check_density(data, gen.mk_pot(j), [ref.axis_points(lo, hi, n)], [(hi - lo) / (n - 1)], kt)
    rec.label("kt=1" if kt == 1 else "kt!=1")
    return True
