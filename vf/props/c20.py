"""C20: the free energy surface is -kT log(counts) with its minimum at zero"""
import os

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import sim
import whole
from core import Property, ScratchDir, Violation, require

PROP = Property(
    "C20",
    assumptions=[
        "reads of the histogram between two of its updates: see C19",
        "plots: line data (1d) or image data and extent (2d) as handed to matplotlib",
    ],
)


@st.composite
def fes_cases(draw):
    d = draw(gen.dims)
    bins = [draw(st.integers(1, 5)) for _ in range(d)]
    n = int(np.prod(bins))
    counts = draw(
        gen.vec(st.one_of(st.just(0), st.integers(0, 5), st.integers(0, 10**7)), n)
    )
    if draw(st.integers(0, 9)) == 0:
        counts = [0] * n
    return {
        "bins": bins,
        "ranges": draw(gen.rng_ranges(d)),
        "counts": counts,
        "kt": draw(st.one_of(st.just(1.0), gen.dec(0.05, 5, 2))),
        "mintozero": draw(st.sampled_from([None, None, None, True, False])),
    }


@PROP.sub(
    "formula", fes_cases(), 1500, 40000, shards=2,
    rule="calculate_fes on generated count arrays; non-trivial: at least one non-empty bin",
)
def formula(case, rec):
    from bdld.actions.fes_action import calculate_fes
    from bdld.histogram import Histogram

    h = Histogram(list(case["bins"]), [tuple(r) for r in case["ranges"]])
    counts = np.array(case["counts"], dtype=float).reshape(case["bins"])
    h.data = counts.copy()
    args = [] if case["mintozero"] is None else [case["mintozero"]]
    fes = calculate_fes(h, case["kt"], *args)
    require(np.array_equal(h.data, counts), "the histogram was changed")
    got = np.asarray(fes.data, dtype=float)
    require(got.shape == counts.shape, f"shape {got.shape} instead of {counts.shape}")
    want = whole.fes_of(counts, case["kt"])
    if case["mintozero"] is False:
        want = np.full(counts.shape, np.inf)
        nz = counts > 0
        want[nz] = -case["kt"] * np.log(counts[nz])
    ok = (got == want) | (np.abs(got - want) <= 1e-10 * (1 + np.abs(want)))
    require(bool(np.all(ok)), f"surface is {got.tolist()}, expected {want.tolist()}")
    m = ref.HistModel(case["bins"], case["ranges"])
    pts = np.asarray(fes.points(), dtype=float)
    require(
        pts.shape == ref.row_major(m.midpoints()).shape
        and np.allclose(pts, ref.row_major(m.midpoints()), rtol=1e-9, atol=1e-9),
        "the points of the surface are not the bin midpoints",
    )
    rec.label("empty" if not counts.any() else "has empty bins" if (counts == 0).any() else "full")
    return counts.any()


OUT = dict(fes=True, delta_f=False, pdist=False)


def _labels(rec, secs, n):
    f = secs["fes"]
    rec.label("stride" if f.get("stride") else "final only")
    rec.label("periodic files" if f.get("write-stride", n + 1) <= n else "no periodic files")
    rec.label("kt=ld" if f["kt"] == secs.get("ld", {}).get("kt") else "kt differs")


@PROP.sub(
    "scripted", whole.scripts(**OUT), 900, 30000, shards=3,
    rule="surface action on scripted positions; non-trivial: a finite value",
)
def scripted(case, rec):
    with ScratchDir() as path:
        acts, pos, _ = whole.scripted(case, path)
        o = case["sections"]["fes"]

        def check(hh):
            whole.check_fes_values(
                np.asarray(acts["fes"].fes.data), hh.final, o["kt"], "%.17g", "final surface"
            )
            whole.check_fes_files(o, hh, case["n_steps"], path)

        _, hh = whole.any_mode(whole.script_hist(case, pos), check)
        _labels(rec, case["sections"], case["n_steps"])
        return hh.final.total_min > 0


@PROP.sub(
    "long", whole.long_scripts(**OUT), 150, 1500, shards=3,
    rule="as scripted, with hundreds to thousands of steps and large strides; non-trivial: as "
    "scripted",
)
def long(case, rec):
    return scripted(case, rec)


@PROP.sub(
    "program", whole.configs(fes=True), 400, 8000, shards=4,
    rule="whole simulations with a surface file; non-trivial: a finite value",
)
def program(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path)
        n = secs["ld"]["n_steps"]
        _, hh = whole.any_mode(
            whole.make_hist(case, whole.positions(res)),
            lambda hh: whole.check_fes_files(secs["fes"], hh, n, path),
        )
        _labels(rec, secs, n)
        return hh.final.total_min > 0


# --- plots ---------------------------------------------------------------------------


def _spy(rec):
    """Record what is handed to matplotlib when a figure is saved"""
    import matplotlib.figure as mf

    rec["plots"] = []
    orig = mf.Figure.savefig

    def savefig(self, fname, *args, **kwargs):
        info = {"name": os.path.basename(str(fname)), "lines": [], "images": [], "texts": []}
        for ax in self.axes:
            for line in ax.get_lines():
                info["lines"].append(
                    (str(line.get_label()), np.array(line.get_xdata(), dtype=float),
                     np.array(line.get_ydata(), dtype=float))
                )
            for im in ax.get_images():
                info["images"].append(
                    (np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.inf),
                     tuple(float(x) for x in im.get_extent()), im.origin,
                     tuple(float(x) for x in im.get_clim()))
                )
            info.setdefault("ylim", tuple(float(x) for x in ax.get_ylim()))
            leg = ax.get_legend()
            if leg is not None:
                info["texts"].append(leg.get_title().get_text())
            info["texts"].append(ax.get_title())
        res = orig(self, fname, *args, **kwargs)
        rec["plots"].append(info)
        return res

    mf.Figure.savefig = savefig


def _in_order(images, axes):
    """Image data as array indexed [x, y] with increasing coordinates"""
    arr, ext, origin, _ = images
    if origin == "upper":
        arr = arr[::-1]
    return arr.T


def reference(case, x):
    """Potential energy of a 1D case with its minimum at zero"""
    p = case["sections"]["potential"]
    if p["type"] != "polynomial":
        return None
    c = p.get("coeffs") or case["coeffs"]
    y = sum(k * x ** i for i, k in enumerate(c))
    return y - np.min(y)


def check_labels(name, lines, fes, ref_values):
    """Curves named as surface and as reference are what they say"""

    def same(y, want):
        return len(y) == len(want) and bool(np.all(
            (y == want) | (np.abs(y - want) < 1e-9 * (1 + np.abs(want)))
            | (~np.isfinite(y) & ~np.isfinite(want))))

    for label, _, y in lines:
        if label.lower() == "fes":
            require(same(y, fes), f"{name}: the curve named {label} is {y.tolist()}")
        elif label.lower().startswith("ref") and ref_values is not None:
            require(
                same(y, ref_values),
                f"{name}: the curve named {label} is {y.tolist()}, the potential energy is "
                f"{ref_values.tolist()}",
            )


@st.composite
def plot_configs(draw):
    cfg = draw(whole.configs(n_dim=draw(st.sampled_from([1, 2])), fes=True, delta_f=False,
                             pdist=False, plot=True, max_steps=24, bd=False))
    f = cfg["sections"]["fes"]
    f.setdefault("plot-filename", "plot.png")
    return cfg


@PROP.sub(
    "plots", plot_configs(), 90, 900, shards=4,
    rule="whole simulations with plots, data handed to matplotlib compared with the "
    "surface; non-trivial: a finite value",
)
def plots(case, rec):
    secs = case["sections"]
    with ScratchDir() as path:
        res = whole.run(case, path, patch=_spy)
        n = secs["ld"]["n_steps"]
        f = secs["fes"]
        root, ext = os.path.splitext(f["plot-filename"])
        expected = []
        if f.get("plot-stride"):
            expected += [
                (f"{root}_{s}{ext}", s) for s in range(f["plot-stride"], n + 1, f["plot-stride"])
            ]
        expected.append((f["plot-filename"], None))
        got = res.rec["plots"]
        require(
            [g["name"] for g in got] == [e[0] for e in expected],
            f"plots {[g['name'] for g in got]}, expected {[e[0] for e in expected]}",
        )
        for e in expected:
            p = os.path.join(path, e[0])
            require(os.path.exists(p) and os.path.getsize(p) > 100, f"{e[0]} was not saved")
        require("Save figure" not in res.out, "the program asked for user input")

        for g, (name, _) in zip(got, expected):
            if case["n_dim"] != 1:
                continue
            if f.get("plot-title"):
                require(
                    any(f["plot-title"] in t for t in g["texts"]),
                    f"{name}: title {f['plot-title']} is not in the plot {g['texts']}",
                )
            if f.get("plot-domain"):
                require(
                    np.allclose(g["ylim"], f["plot-domain"]),
                    f"{name}: plot domain is {g['ylim']}",
                )

        def check(hh):
            at = whole.fes_history(f, hh, n)
            axes = hh.model.midpoints()
            for g, (name, s) in zip(got, expected):
                model = hh.final if s is None else at(s)
                if not model.exact:
                    continue
                want = whole.fes_of(model.definite, f["kt"])
                if case["n_dim"] == 1:
                    curves = [
                        (x, y) for _, x, y in g["lines"]
                        if len(x) == len(axes[0]) and np.allclose(x, axes[0], atol=1e-9)
                    ]
                    require(curves, f"{name}: no curve over the bin midpoints")
                    ok = any(
                        np.all((y == want) | (np.abs(y - want) < 1e-9 * (1 + np.abs(want)))
                               | (~np.isfinite(y) & ~np.isfinite(want)))
                        for _, y in curves
                    )
                    require(ok, f"{name}: no plotted curve is the surface {want.tolist()}")
                    check_labels(name, g["lines"], want, reference(case, axes[0]))
                else:
                    require(len(g["images"]) >= 1, f"{name}: no image")
                    arr = _in_order(g["images"][0], axes)
                    e = g["images"][0][1]
                    require(
                        arr.shape == want.shape,
                        f"{name}: image of shape {arr.shape} instead of {want.shape}",
                    )
                    ok = (arr == want) | (np.abs(arr - want) < 1e-9 * (1 + np.abs(want)))
                    ok |= ~np.isfinite(arr) & ~np.isfinite(want)
                    require(bool(np.all(ok)), f"{name}: image is not the surface")
                    for k in range(2):
                        w = (axes[k][1] - axes[k][0]) if len(axes[k]) > 1 else 1e9
                        require(
                            abs(e[2 * k] - axes[k][0]) <= w + 1e-9
                            and abs(e[2 * k + 1] - axes[k][-1]) <= w + 1e-9,
                            f"{name}: image extent {e} does not match the coordinates",
                        )
                    if f.get("plot-domain") :
                        require(
                            np.allclose(g["images"][0][3], f["plot-domain"]),
                            f"{name}: plot domain is {g['images'][0][3]}",
                        )

        _, hh = whole.any_mode(whole.make_hist(case, whole.positions(res)), check)
        rec.label(f"{case['n_dim']}d", "periodic" if len(expected) > 1 else "final only")
        return hh.final.total_min > 0


@st.composite
def killed_cases(draw):
    cfg = draw(whole.killed_configs(max_steps=50, max_particles=3, fes=True, delta_f=False, pdist=False))
    o = cfg["sections"]["fes"]
    o["filename"] = "out"
    o.setdefault("stride", draw(st.integers(1, 6)))
    o["write-stride"] = draw(st.integers(1, 12))
    return cfg


@PROP.sub(
    "killed", killed_cases(), 120, 4000, shards=3,
    rule="programs killed at a random time step: the files written periodically before are "
    "complete and as in the whole run; non-trivial: at least one file",
)
def killed(case, rec):
    return whole.check_killed(
        case, numbered=[("out", case["sections"]["fes"]["write-stride"])]) > 0
