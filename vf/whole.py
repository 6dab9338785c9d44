"""Whole simulations: configurations, rendering as input files, and output oracles

A configuration is JSON: {"sections": {section: {option: value}}, "coeffs": nested}.
The oracles recompute every output file from the observed particle states of the run.
"""
import os
import re
import signal

import numpy as np
from hypothesis import strategies as st

import gen
import ref
import sim
from core import ScratchDir, Violation, require

COEFFS_FILE = "pot.coeffs"


# --- configurations ------------------------------------------------------------------


def fmts():
    return st.sampled_from([None, None, "%.17g", "%12.6f", "%.8e", "%.17g"])


@st.composite
def configs(
    draw,
    n_dim=None,
    bd=None,  # None: maybe, True/False
    bd_variants=("original", "additive", "multiplicative"),
    traj="maybe",
    hist="maybe",
    fes="maybe",
    delta_f="maybe",
    pdist="maybe",
    plot=False,
    max_steps=50,
    max_particles=5,
    seeds=True,
    bc=True,
    mueller=True,
    overdamped=None,
):
    pot = draw(gen.confining(n_dim=n_dim, bc=bc, mueller=mueller))
    d = pot["n_dim"]
    lst = (lambda v: v[0]) if d == 1 else (lambda v: list(v))
    secs = {}
    coeffs = None
    n_steps = draw(st.integers(1, max_steps))
    od = draw(st.booleans()) if overdamped is None else overdamped
    ld = {"type": "overdamped" if od else "bussi-parinello",
          "timestep": draw(st.sampled_from([0.005, 0.01, 0.001, 0.02, 0.0125, 0.00123456789,
                                           0.0000417])),
          "n_steps": n_steps}
    if pot["type"] == "mueller-brown":
        ld["timestep"] = 0.001
    if ld["type"] == "bussi-parinello":
        ld["kt"] = draw(gen.dec(0.1, 2.0, 1))
        ld["friction"] = draw(st.sampled_from([0.0, 0.5, 1.0, 10.0, 5.5]))
    if seeds:
        ld["seed"] = draw(st.one_of(st.just(0), st.integers(0, 2**31)))
    secs["ld"] = ld
    # potential
    p = {"type": pot["type"]}
    if pot["type"] == "polynomial":
        p["n_dim"] = d
        if d == 1 and draw(st.booleans()):
            p["coeffs"] = pot["coeffs"]
        else:
            p["coeffs-file"] = COEFFS_FILE
            coeffs = pot["coeffs"]
        p["min"] = lst([r[0] for r in pot["ranges"]])
        p["max"] = lst([r[1] for r in pot["ranges"]])
    elif pot["scaling"] is not None:
        p["scaling-factor"] = pot["scaling"]
    else:
        p["scaling-factor"] = 0.05
    if pot["bc"]:
        p["boundary-condition"] = pot["bc"]
    secs["potential"] = p
    # particles
    n = draw(st.integers(1, max_particles))
    pa = {"number": n}
    pa["initial-distribution"] = draw(
        st.sampled_from(["random-global", "random-pos", "fractions-pos"])
    )
    if pa["initial-distribution"] != "random-global":
        n_pos = draw(counts(1, 3))
        for i in range(n_pos):
            pa[f"pos{i+1}"] = draw(gen.inside(pot["ranges"], 2))
        if pa["initial-distribution"] == "fractions-pos":
            pa["fractions"] = draw(gen.vec(gen.dec(0.1, 5, 1), n_pos))
    if draw(st.booleans()):
        pa["mass"] = draw(gen.dec(0.2, 4, 1))
    if seeds:
        pa["seed"] = draw(st.one_of(st.just(0), st.integers(0, 2**31)))
    secs["particles"] = pa
    if bd if bd is not None else draw(st.booleans()):
        b = {"stride": draw(st.integers(1, 8))}
        bws = [draw(gen.dec(0.1, 0.6, 2)) for _ in range(d)]
        b["kernel-bandwidth"] = lst(bws)
        v = draw(st.sampled_from([None] + list(bd_variants)))
        if v and d > 1:
            v = "original"
        if v:
            short = {"original": "orig", "additive": "add", "multiplicative": "mult"}
            name = draw(st.sampled_from([v, short[v]]))
            key = draw(st.sampled_from(["approximation-variant", "correction-variant"]))
            b[key] = name
        if draw(st.booleans()):
            b["exponential-factor"] = draw(st.sampled_from([1.0, 5.0, 20.0, 0.5]))
        if draw(st.booleans()):
            b["recalculate-probabilities"] = draw(st.booleans())
        if draw(st.booleans()):
            b["stats-stride"] = draw(st.integers(1, 10))
        if draw(st.booleans()):
            b["stats-filename"] = "bd_stats"
        if seeds:
            b["seed"] = draw(st.one_of(st.just(0), st.integers(0, 2**31)))
        secs["birth-death"] = b
    secs.update(
        draw(output_sections(pot, n_steps, ld.get("kt", 1.0), traj, hist, fes, delta_f,
                             pdist, plot))
    )
    return {"sections": secs, "coeffs": coeffs, "n_dim": d, "ranges": pot["ranges"]}


def counts(lo, hi):
    """Number of states or positions, sometimes with two digits"""
    few = st.integers(lo, hi)
    return st.one_of(few, few, few, few, few, st.integers(10, 13))


def _want(draw, flag, p=0.6):
    if flag == "maybe":
        return draw(st.integers(0, 9)) < 10 * p
    return bool(flag)


@st.composite
def state_bounds(draw, ranges, n_states, dyadic=False):
    """Rectangular states as options; may overlap, be empty or exceed the range"""
    opts = {}
    large = draw(st.integers(0, 2)) > 0
    for i in range(n_states):
        lo, hi = [], []
        for a, b in ranges:
            if large and draw(st.integers(0, 4)):  # likely to hold something
                if dyadic:
                    x = draw(st.integers(-24, 4)) / 8
                    lo.append(x)
                    hi.append(x + draw(st.integers(8, 32)) / 8)
                    continue
                x = round(a + (b - a) * draw(st.integers(-2, 5)) / 10, 6)
                lo.append(x)
                hi.append(round(x + (b - a) * draw(st.integers(3, 12)) / 10, 6))
                continue
            if dyadic:
                x = draw(st.integers(-24, 20)) / 8
                lo.append(x)
                hi.append(x + draw(st.integers(0, 32)) / 8)
                continue
            w = b - a
            x = round(a + w * draw(st.integers(-2, 9)) / 10, 6)
            length = round(w * draw(st.integers(0, 12)) / 10, 6)
            lo.append(x)
            hi.append(round(x + length, 6))
        opts[f"state{i+1}-min"] = lo
        opts[f"state{i+1}-max"] = hi
    return opts


@st.composite
def output_sections(
    draw, pot, n_steps, kt, traj="maybe", hist="maybe", fes="maybe", delta_f="maybe",
    pdist="maybe", plot=False,
):
    d = pot["n_dim"]
    lst = (lambda v: v[0]) if d == 1 else (lambda v: list(v))
    secs = {}
    # exactly representable edges and bounds, so that they can be hit exactly
    dyadic = draw(st.booleans())
    ext = draw(st.sampled_from(["", "", "", ".dat", ".v2.txt"]))
    need_df = _want(draw, delta_f, 0.5)
    need_fes = need_df or _want(draw, fes, 0.5)
    need_hist = need_fes or _want(draw, hist, 0.6)
    need_traj = need_hist or _want(draw, traj, 0.8)
    w_traj = None
    if need_traj:
        t = {}
        if traj is True or draw(st.integers(0, 3)):
            t["filename"] = "traj" + ext
        if draw(st.booleans()):
            t["stride"] = draw(st.integers(1, 7))
        if draw(st.integers(0, 2)):
            t["write-stride"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 60)))
        if draw(st.booleans()):
            t["momentum"] = draw(st.booleans())
        f = draw(fmts())
        if f:
            t["fmt"] = f
        w_traj = t.get("write-stride", 100)
        secs["trajectories"] = t
    if need_hist:
        h = {}
        lo, hi, bins = [], [], []
        fine = need_df and d < 3 and draw(st.integers(0, 2)) > 0
        for a, b in pot["ranges"]:
            k = draw(st.integers(0, 2))
            if dyadic:
                lo.append(float(draw(st.integers(-3, 0))))
                hi.append(float(draw(st.integers(1, 3))))
                bins.append(draw(st.sampled_from(
                    [8, 16] if fine else [1, 2, 4, 8] if d == 1 else [1, 2, 4])))
                if hi[-1] - lo[-1] in (3.0, 5.0, 6.0):
                    hi[-1] = lo[-1] + 4.0
                continue
            if k == 0:
                lo.append(a)
                hi.append(b)
            else:
                x = round(a + (b - a) * draw(st.integers(-3, 6)) / 10, 6)
                lo.append(x)
                hi.append(round(x + (b - a) * draw(st.integers(2, 15)) / 10, 6))
            bins.append(draw(st.integers(5, 14) if fine else st.integers(1, 9 if d == 1 else 5)))
        h["min"], h["max"], h["bins"] = lst(lo), lst(hi), lst(bins)
        if draw(st.booleans()):
            h["stride"] = draw(st.integers(1, 6))
        if draw(st.integers(0, 2)) == 0:
            h["reset"] = sorted(
                set(draw(st.lists(
                    st.one_of(st.integers(1, max(1, n_steps)),
                              st.integers(1, 6).map(lambda k: k * w_traj)),
                    min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 6])))))
            )
        if hist is True or draw(st.integers(0, 3)):
            h["filename"] = "histo" + ext
            if draw(st.booleans()):
                h["write-stride"] = draw(
                    st.one_of(st.integers(1, 3).map(lambda k: k * w_traj),
                              st.integers(1, 25))
                )
        f = draw(fmts())
        if f:
            h["fmt"] = f
        secs["histogram"] = h
    if need_fes:
        f = {"kt": draw(st.one_of(st.just(kt), gen.dec(0.1, 3, 1)))}
        if draw(st.integers(0, 3)):
            f["stride"] = draw(
                st.one_of(st.integers(1, 3).map(lambda k: k * w_traj), st.integers(1, 15))
            )
        if fes is True or draw(st.integers(0, 3)):
            f["filename"] = "fes" + ext
            if "stride" in f and draw(st.booleans()):
                f["write-stride"] = draw(
                    st.one_of(st.integers(1, 3).map(lambda k: k * f["stride"]),
                              st.integers(1, 25))
                )
        v = draw(fmts())
        if v:
            f["fmt"] = v
        if plot and d < 3 and draw(st.booleans()):
            f["plot-filename"] = draw(st.sampled_from(["plot.png", "my.plot.svg"]))
            if "stride" in f and draw(st.booleans()):
                f["plot-stride"] = f["stride"] * draw(st.integers(1, 3))
            if draw(st.booleans()):
                f["plot-domain"] = [draw(st.sampled_from([0.0, 0.0, -1.5, 0.5])),
                                    draw(gen.dec(1, 9, 1))]
            if draw(st.booleans()):
                f["plot-title"] = "my title"
        secs["fes"] = f
    hr = pot["ranges"]
    if need_df:
        f = {}
        if draw(st.integers(0, 3)):
            f["stride"] = draw(
                st.one_of(st.integers(1, 3).map(lambda k: k * (secs["fes"].get("stride") or 1)),
                          st.integers(1, 10))
            )
        if delta_f is True or draw(st.integers(0, 3)):
            f["filename"] = "delta_f" + ext
            if "stride" in f and draw(st.booleans()):
                f["write-stride"] = f["stride"] * draw(st.integers(1, 5))
        v = draw(fmts())
        if v:
            f["fmt"] = v
        f.update(draw(state_bounds(hr, draw(counts(2, 4)), dyadic)))
        secs["delta-f"] = f
    if _want(draw, pdist, 0.5):
        f = {}
        if draw(st.integers(0, 3)):
            f["stride"] = draw(st.integers(1, 10))
        if pdist is True or draw(st.integers(0, 3)):
            f["filename"] = "pdist" + ext
            if "stride" in f and draw(st.booleans()):
                f["write-stride"] = f["stride"] * draw(st.integers(1, 5))
        v = draw(fmts())
        if v:
            f["fmt"] = v
        f.update(draw(state_bounds(hr, draw(counts(1, 3)), dyadic)))
        secs["particle-distribution"] = f
    return secs


# --- rendering -----------------------------------------------------------------------


def value_text(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, list):
        return ", ".join(value_text(x) for x in v)
    return str(v).replace("%", "%%")


def render(sections, default=None):
    lines = []
    if default:
        lines.append("[DEFAULT]")
        lines += [f"{k}: {value_text(v)}" for k, v in default.items()]
        lines.append("")
    for sec, opts in sections.items():
        lines.append(f"[{sec}]")
        lines += [f"{k}: {value_text(v)}" for k, v in opts.items()]
        lines.append("")
    return "\n".join(lines)


def coeff_text(coeffs):
    a = np.array(coeffs, dtype=float)
    rows = ["#! FIELDS idx pot.coeffs"]
    for idx, c in np.ndenumerate(a):
        rows.append(" ".join(str(i) for i in idx) + f" {float(c)!r}")
    return "\n".join(rows) + "\n"


def write_input(cfg, path, text=None):
    with open(os.path.join(path, "input"), "w") as f:
        f.write(text if text is not None else render(cfg["sections"], cfg.get("default")))
    if cfg.get("coeffs") is not None:
        with open(os.path.join(path, COEFFS_FILE), "w") as f:
            f.write(coeff_text(cfg["coeffs"]))


INPUT_FILES = ("input", COEFFS_FILE)


def run(cfg, path, text=None, **kwargs):
    write_input(cfg, path, text)
    res = sim.run_bdld(path, observe=True, **kwargs)
    res.need_ok()
    require(res.rec["states"], "no simulation took place")
    n_steps = cfg["sections"]["ld"]["n_steps"]
    require(
        len(res.states) == n_steps + 1,
        f"{len(res.states) - 1} steps performed, n_steps is {n_steps}",
    )
    return res


def outputs(path):
    return {k: v for k, v in sim.listing(path).items() if k not in INPUT_FILES}


# --- reading data files --------------------------------------------------------------


def read_data(path):
    """(header lines, rows as lists of tokens, number of empty lines)"""
    require(os.path.exists(path), f"file {os.path.basename(path)} was not written")
    header, rows, empty = [], [], 0
    with open(path) as f:
        for line in f:
            if line.startswith("#"):
                header.append(line.rstrip("\n"))
            elif line.strip():
                rows.append(line.split())
            else:
                empty += 1
    return header, rows, empty


def numbers(rows, n_col, name):
    for r in rows:
        require(
            len(r) == n_col, f"{name}: row with {len(r)} columns instead of {n_col}: {r}"
        )
    try:
        return np.array([[float(x) for x in r] for r in rows]).reshape(-1, n_col)
    except ValueError as e:
        raise Violation(f"{name}: not numeric: {e}") from e


def tolerance(fmt):
    """(rtol, atol) of numbers written with the format"""
    fmt = fmt or "%14.9f"
    m = re.fullmatch(r"%[-+ 0#]*\d*\.?(\d*)([a-zA-Z])", fmt)
    prec, kind = int(m.group(1) or 6), m.group(2)
    if kind == "f":
        return 1e-12, 0.51 * 10.0**-prec
    if kind == "e":
        return 0.51 * 10.0**-prec + 1e-12, 1e-300
    if kind == "g":
        return (0.51 * 10.0 ** (1 - prec) if prec < 16 else 0.0) + 1e-12, 1e-300
    if kind == "d":
        return 0.0, 1.0
    raise RuntimeError(fmt)


def close(got, want, fmt, rtol=1e-11, atol=1e-11):
    r, a = tolerance(fmt)
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    with np.errstate(invalid="ignore"):
        return same | (np.abs(got - want) <= (r + rtol) * np.abs(want) + a + atol)


# --- oracles -------------------------------------------------------------------------
#
# positions: list over steps 0..n of arrays (particles, dims), index 0 is unused


def fmt_value(fmt, v):
    return ((fmt or "%14.9f") % v).strip()


def check_traj(opts, n_dim, n_part, dt, n_steps, pos, mom, path):
    """Trajectory files against all states; returns the number of rows per file"""
    name = opts.get("filename")
    if not name:
        return 0
    stride = opts.get("stride") or 1
    fmt = opts.get("fmt")
    want_mom = bool(opts.get("momentum"))
    steps = [s for s in range(1, n_steps + 1) if s % stride == 0]
    n_col = 1 + n_dim * (2 if want_mom else 1)
    for i in range(n_part):
        fname = f"{name}.{i}"
        _, rows, _ = read_data(os.path.join(path, fname))
        data = numbers(rows, n_col, fname)
        require(
            len(data) == len(steps),
            f"{fname} has {len(data)} rows, expected {len(steps)} (n_steps {n_steps}, "
            f"stride {stride}); times {data[:, 0].tolist()[:40]}",
        )
        for row, tok, s in zip(data, rows, steps):
            require(
                close(row[0], s * dt, fmt),
                f"{fname}: time {row[0]} in the row of step {s}, expected {s * dt}",
            )
            want = list(pos[s][i]) + (list(mom[s][i]) if want_mom else [])
            require(
                bool(np.all(close(row[1:], want, fmt))),
                f"{fname}: step {s} holds {row[1:].tolist()}, expected {want}",
            )
            for t, v in zip(tok[1:], want):
                require(
                    t == fmt_value(fmt, v),
                    f"{fname}: step {s}: number {t} is not {v} in format {fmt}",
                )
    require(
        not os.path.exists(os.path.join(path, f"{name}.{n_part}")),
        "more trajectory files than particles",
    )
    return len(steps)


class HistHistory:
    """Histogram as seen after the histogram action of every step

    mode 'keep': positions still buffered at a reset are counted afterwards
    mode 'drop': positions before a reset are never counted afterwards
    mode 'eager': as 'drop' but the histogram is updated every step
    All three agree if resets (and reads) happen at multiples of the update stride."""

    def __init__(self, opts, ranges, bins, update, n_steps, pos, mode):
        self.model = ref.HistModel(bins, ranges)
        stride = opts.get("stride") or 1
        resets = set(opts.get("reset") or [])
        write_stride = opts.get("write-stride")
        self.after = {0: self.model.copy()}  # at changes only
        self.written = {}
        pending = []
        aligned = True
        for s in range(1, n_steps + 1):
            if s % stride == 0:
                pending.append(s)
            changed = False
            if s % update == 0 or mode == "eager":
                for q in pending:
                    self.model.add(pos[q])
                pending = []
                changed = True
            if write_stride and s % write_stride == 0:
                self.written[s] = self.model.copy()
                aligned = aligned and s % update == 0
            if s in resets:
                self.model.clear()
                changed = True
                if s % update:
                    aligned = False
                if mode != "keep":
                    pending = []
            if changed:
                self.after[s] = self.model.copy()
        for q in pending:
            self.model.add(pos[q])
        self.final = self.model.copy()
        self.aligned = aligned

    def at(self, step):
        """Model after the histogram action of this step"""
        return self.after[max(s for s in self.after if s <= step)]


def as_list(v):
    return list(v) if isinstance(v, (list, tuple)) else [v]


def hist_setup(opts):
    bins = as_list(opts["bins"])
    ranges = list(zip(as_list(opts["min"]), as_list(opts["max"])))
    return bins, ranges


def read_grid_file(path, axes, fmt, name):
    """Values of a grid file whose coordinates are verified, in shape of the grid"""
    _, rows, _ = read_data(path)
    d = len(axes)
    data = numbers(rows, d + 1, name)
    pts = ref.row_major(axes)
    require(
        len(data) == len(pts), f"{name} has {len(data)} points, expected {len(pts)}"
    )
    ok = close(data[:, :d], pts, fmt)
    require(
        bool(np.all(ok)),
        f"{name}: coordinates are not the bin midpoints in row-major order",
    )
    return data[:, d].reshape([len(a) for a in axes])


def check_hist_files(opts, hh, path):
    """Histogram files against a HistHistory, returns number of files checked"""
    name = opts.get("filename")
    if not name:
        return 0
    fmt = opts.get("fmt")
    axes = hh.model.midpoints()
    n = 0
    for s, model in list(hh.written.items()) + [(None, hh.final)]:
        fname = name if s is None else f"{name}_{s}"
        vals = read_grid_file(os.path.join(path, fname), axes, fmt, fname)
        r, a = tolerance(fmt)
        rounded = np.round(vals)
        require(
            bool(np.all(np.abs(vals - rounded) <= r * np.abs(vals) + a + 1e-9)),
            f"{fname}: counts are no integers",
        )
        bad = model.mismatch(rounded)
        require(bad is None, f"{fname}: {bad}")
        n += 1
    extra = [
        f for f in os.listdir(path)
        if re.fullmatch(re.escape(name) + r"_\d+", f)
        and int(f.rsplit("_", 1)[1]) not in hh.written
    ]
    require(not extra, f"unexpected histogram files {extra}")
    return n


MODES = ("keep", "drop", "eager")


def any_mode(make, check):
    """The run has to agree with one reading of non-aligned resets/reads"""
    first = None
    for mode in MODES:
        hh = make(mode)
        try:
            return check(hh), hh
        except Violation as e:
            if first is None:
                first = e
    raise first


def fes_of(counts, kt):
    counts = np.asarray(counts, dtype=float)
    res = np.full(counts.shape, np.inf)
    nz = counts > 0
    if nz.any():
        res[nz] = -kt * np.log(counts[nz])
        res[nz] -= res[nz].min()
    return res


def fes_history(opts, hh, n_steps):
    """(function step -> histogram model the surface after this step belongs to)"""
    stride = opts.get("stride")
    empty = hh.model.copy()
    empty.clear()

    def at(step):
        if not stride or step < stride:
            return empty
        return hh.at(step // stride * stride)

    return at


def check_fes_values(vals, model, kt, fmt, name):
    if not model.exact:
        return
    want = fes_of(model.definite, kt)
    ok = close(vals, want, fmt, 1e-9, 1e-9)
    if not np.all(ok):
        i = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Violation(f"{name}: bin {i} holds {vals[i]}, expected {want[i]}")


def check_fes_files(opts, hh, n_steps, path):
    name = opts.get("filename")
    if not name:
        return 0
    fmt = opts.get("fmt")
    at = fes_history(opts, hh, n_steps)
    files = []
    if opts.get("write-stride"):
        w = opts["write-stride"]
        files += [(f"{name}_{s}", at(s)) for s in range(w, n_steps + 1, w)]
    files.append((name, hh.final))
    axes = hh.model.midpoints()
    for fname, model in files:
        vals = read_grid_file(os.path.join(path, fname), axes, fmt, fname)
        check_fes_values(vals, model, opts["kt"], fmt, fname)
    extra = [
        f for f in os.listdir(path)
        if re.fullmatch(re.escape(name) + r"_\d+", f) and f not in [x[0] for x in files]
    ]
    require(not extra, f"unexpected fes files {extra}")
    return len(files)


def states_of(opts):
    res = []
    i = 1
    while f"state{i}-min" in opts:
        res.append(
            list(zip(as_list(opts[f"state{i}-min"]), as_list(opts[f"state{i}-max"])))
        )
        i += 1
    return res


def _dyadic(values):
    return bool(np.all(np.asarray(values) * 1024 == np.round(np.asarray(values) * 1024)))


def region_masks(states, axes):
    """(mask, ambiguous) of the bins of each state

    ambiguous: the midpoint is on a bound and not exactly representable"""
    pts = ref.row_major(axes)
    shape = [len(a) for a in axes]
    res = []
    for st_ in states:
        inside = np.ones(len(pts), dtype=bool)
        amb = np.zeros(len(pts), dtype=bool)
        for d, (lo, hi) in enumerate(st_):
            x = pts[:, d]
            eps = 1e-9 * max(1.0, abs(lo), abs(hi))
            inside &= (x >= lo - eps) & (x <= hi + eps)
            if not _dyadic(list(axes[d]) + [lo, hi]):
                amb |= (np.abs(x - lo) <= eps) | (np.abs(x - hi) <= eps)
        res.append((inside.reshape(shape), (amb & inside).reshape(shape)))
    return res


def delta_f_of(model, kt, masks):
    """Expected differences, None where not determined"""
    if not model.exact:
        return [None] * (len(masks) - 1)
    w = [model.definite[m].sum() for m, _ in masks]
    amb = [bool(model.definite[a].sum() > 0) for _, a in masks]
    res = []
    for i in range(1, len(masks)):
        if amb[0] or amb[i]:
            res.append(None)
        elif w[0] == 0 and w[i] == 0:
            res.append(np.nan)
        elif w[0] == 0:
            res.append(-np.inf)
        elif w[i] == 0:
            res.append(np.inf)
        else:
            res.append(-kt * np.log(w[i] / w[0]))
    return res


def sampled_steps(stride, n_steps):
    if stride:
        return list(range(stride, n_steps + 1, stride))
    return [n_steps]


def check_delta_f_file(opts, fes_opts, hh, dt, n_steps, path):
    name = opts.get("filename")
    if not name:
        return 0
    fmt = opts.get("fmt")
    states = states_of(opts)
    masks = region_masks(states, hh.model.midpoints())
    at = fes_history(fes_opts, hh, n_steps)
    _, rows, _ = read_data(os.path.join(path, name))
    data = numbers(rows, len(states), name)
    steps = sampled_steps(opts.get("stride"), n_steps)
    require(
        len(data) == len(steps),
        f"{name} has {len(data)} rows, expected {len(steps)}: times {data[:, 0].tolist()[:30]}",
    )
    for row, s in zip(data, steps):
        require(
            close(row[0], s * dt, fmt), f"{name}: time {row[0]}, expected {s * dt}"
        )
        model = at(s) if opts.get("stride") else hh.final
        want = delta_f_of(model, fes_opts["kt"], masks)
        for k, (g, w) in enumerate(zip(row[1:], want)):
            if w is not None:
                require(
                    close(g, w, fmt, 1e-9, 1e-9),
                    f"{name}: delta F of state {k + 2} at step {s} is {g}, expected {w}",
                )
    return len(steps)


def count_inside(pos, states):
    """(definite counts) bounds included"""
    pos = np.asarray(pos, dtype=float)
    res = []
    for st_ in states:
        inside = np.ones(len(pos), dtype=bool)
        for k, (lo, hi) in enumerate(st_):
            inside &= (pos[:, k] >= lo) & (pos[:, k] <= hi)
        res.append(int(inside.sum()))
    return res


def check_pdist_file(opts, n_steps, pos, path):
    name = opts.get("filename")
    if not name:
        return 0
    fmt = opts.get("fmt")
    states = states_of(opts)
    _, rows, _ = read_data(os.path.join(path, name))
    data = numbers(rows, len(states) + 1, name)
    steps = sampled_steps(opts.get("stride"), n_steps)
    require(
        len(data) == len(steps),
        f"{name} has {len(data)} rows, expected {len(steps)}: steps {data[:, 0].tolist()[:30]}",
    )
    for row, s in zip(data, steps):
        require(close(row[0], s, fmt), f"{name}: step {row[0]}, expected {s}")
        want = count_inside(pos[s], states)
        require(
            bool(np.all(close(row[1:], want, fmt))),
            f"{name}: step {s} holds {row[1:].tolist()}, expected {want}",
        )
    return len(steps)


def check_stats_file(opts, n_steps, events, path, betas=None):
    """Rows of the statistics file against the observed events"""
    name = opts.get("stats-filename")
    if not name:
        return 0
    _, rows, _ = read_data(os.path.join(path, name))
    data = numbers(rows, 5, name)
    steps = sampled_steps(opts.get("stats-stride"), n_steps)
    require(
        len(data) == len(steps),
        f"{name} has {len(data)} rows, expected {len(steps)}: {data[:, 0].tolist()[:30]}",
    )
    prev = np.zeros(4)
    for row, s in zip(data, steps):
        require(row[0] == s, f"{name}: row of step {row[0]}, expected {s}")
        n_ev = sum(len(ev) for t, ev in events if t <= s)
        ds, da, ks, ka = row[1:]
        require(
            ds + ks == n_ev,
            f"{name}: {ds} births + {ks} deaths up to step {s}, but {n_ev} events",
        )
        require(ds <= da and ks <= ka, f"{name}: more successes than attempts: {row}")
        require(bool(np.all(row[1:] >= prev)), f"{name}: counters decreased: {row}")
        prev = row[1:]
    return len(steps)


# --- one full run with all states ----------------------------------------------------


def positions(res):
    return [s["pos"] for s in res.states]


def momenta(res):
    return [s["mom"] for s in res.states]


def make_hist(cfg, pos):
    o = cfg["sections"]["histogram"]
    bins, ranges = hist_setup(o)
    update = cfg["sections"]["trajectories"].get("write-stride") or 100
    n = cfg["sections"]["ld"]["n_steps"]
    return lambda mode: HistHistory(o, ranges, bins, update, n, pos, mode)


# --- scripted positions --------------------------------------------------------------


class FakeParticle:
    def __init__(self, pos, mom):
        self.pos = np.array(pos, dtype=float)
        self.mom = np.array(mom, dtype=float)
        self.mass = 1.0
        self.energy = 0.0
        self.forces = np.zeros(len(pos))


class FakeLd:
    def __init__(self, pot, dt, kt, n_part):
        self.pot = pot
        self.dt = dt
        self.kt = kt
        self.particles = [
            FakeParticle(np.zeros(pot.n_dim), np.zeros(pot.n_dim)) for _ in range(n_part)
        ]

    def run(self, step=None):
        pass


@st.composite
def scripts(draw, max_steps=60, max_particles=4, **outputs):
    """Case for scripted(): positions are a pure function of the case"""
    d = draw(gen.dims)
    ranges = draw(
        st.sampled_from([[-2.0, 2.0], [-1.0, 2.0], [-2.5, 2.5], [0.0, 4.0]]).map(
            lambda r: [r] * d
        )
    )
    n_steps = draw(st.one_of(st.integers(1, 12), st.integers(1, max_steps)))
    few = st.integers(1, max_particles)
    # two digits and more than fits into a byte
    n_part = draw(st.one_of(few, few, few, few, few, few, few, few, st.integers(9, 14),
                            st.integers(9, 14), st.integers(150, 320)))
    if n_part > 100:
        n_steps = min(n_steps, 8)
    pot = {"type": "polynomial", "n_dim": d, "ranges": ranges}
    secs = draw(output_sections(pot, n_steps, 1.0, **outputs))
    n_flush = draw(st.sampled_from([0, 0, 1, 3, 8]))
    return {
        "n_dim": d,
        "ranges": ranges,
        "n_part": n_part,
        "n_steps": n_steps,
        "ref": draw(st.booleans()),
        # nothing exactly on an edge, all counts are determined
        "plain": bool(outputs.get("delta_f")) and draw(st.booleans()),
        "dt": draw(st.sampled_from([0.005, 1.0, 0.1, 0.0125, 0.00123456789, 0.0000417])),
        "kt": draw(st.sampled_from([1.0, 0.5, 2.0])),
        "seed": draw(st.integers(0, 10**6)),
        "sections": secs,
        "flush": sorted(
            draw(st.sets(st.integers(1, n_steps), min_size=0, max_size=n_flush))
        ),
    }


@st.composite
def long_scripts(draw, **outputs):
    """Scripts of hundreds to thousands of steps, for buffers and counters that only fill late"""
    case = draw(scripts(max_steps=20, max_particles=2, **outputs))
    n = case["n_steps"] = draw(st.sampled_from([300, 700, 1100, 2100, 2600, 4200]))
    n += draw(st.integers(0, 99))
    case["n_steps"] = n
    case["n_part"] = min(case["n_part"], 2)
    case["plain"] = draw(st.integers(0, 3)) > 0  # nothing exactly on an edge
    case["flush"] = sorted(draw(st.sets(st.integers(1, n), max_size=3)))
    secs = case["sections"]
    if "trajectories" in secs and draw(st.booleans()):
        secs["trajectories"]["write-stride"] = draw(
            st.sampled_from([128, 250, 256, 500, 1000, 1024, 2000, 5000]))
    w = (secs.get("trajectories") or {}).get("write-stride") or 100
    h = secs.get("histogram", {})
    if "reset" in h:
        h["reset"] = sorted({min(n, r * draw(st.sampled_from([1, w, 97]))) for r in h["reset"]})
    factor = max(1, n // draw(st.sampled_from([3, 10, 30])))
    if w < factor and draw(st.booleans()):
        factor = factor // w * w  # often on the updates of the histogram
    for o, keys in ((h, ("write-stride",)),
                    (secs.get("fes", {}), ("stride", "write-stride", "plot-stride"))):
        for k in keys:
            if k in o:
                o[k] *= factor
    for name in ("delta-f", "particle-distribution"):
        o = secs.get(name, {})
        if o and (o.get("stride") or draw(st.integers(0, 2))):
            least = max(1, n // 700) if name == "delta-f" else 1
            o["stride"] = least * draw(st.sampled_from([1, 1, 1, 2, 3, 7, 50]))
            o.pop("write-stride", None)
            if o.get("filename") and draw(st.integers(0, 3)):
                o["write-stride"] = o["stride"] * draw(
                    st.sampled_from([1, 2, 10, 100, 151, 260, 300, 510, 700]))
    return case


def script_positions(case):
    """positions, momenta as lists over steps 0..n"""
    rng = np.random.default_rng(case["seed"])
    d, n = case["n_dim"], case["n_part"]
    special = [[] for _ in range(d)]
    for name in ("delta-f", "particle-distribution"):
        for st_ in states_of(case["sections"].get(name, {})):
            for i, b in enumerate(st_):
                special[i] += list(b)
    h = case["sections"].get("histogram")
    if h:
        for i, (lo, hi) in enumerate(zip(as_list(h["min"]), as_list(h["max"]))):
            special[i] += [lo, hi, lo, hi]
    if case.get("plain"):
        special = [[] for _ in range(d)]
    pos, mom = [None], [None]
    for _ in range(case["n_steps"]):
        p = np.empty((n, d))
        for i, (lo, hi) in enumerate(case["ranges"]):
            w = hi - lo
            p[:, i] = rng.uniform(lo - 0.15 * w, hi + 0.15 * w, n)
            for k in range(n):
                if special[i] and rng.random() < (0.25 if n < 100 or case["seed"] % 2 else 0.9):
                    p[k, i] = special[i][rng.integers(len(special[i]))]
        pos.append(p)
        mom.append(rng.normal(size=(n, d)))
    return pos, mom


def reference_surface(case):
    """Arbitrary surface over the bins of the histogram"""
    x = np.meshgrid(*HistHistoryAxes(case["sections"]), indexing="ij")
    return sum((k + 1) * np.cos(1.3 * a + k) for k, a in enumerate(x)) + 2.0


def scripted(case, path, with_ref=False):
    """Drive the real output actions with scripted positions in directory path

    returns dict of actions, positions, momenta"""
    from bdld.actions.delta_f_action import DeltaFAction
    from bdld.actions.fes_action import FesAction
    from bdld.actions.histogram_action import HistogramAction
    from bdld.actions.particle_distribution import ParticleDistributionAction
    from bdld.actions.trajectory_action import TrajectoryAction
    from bdld.potential.polynomial import PolynomialPotential

    d = case["n_dim"]
    secs = case["sections"]
    coeffs = np.zeros([3] * d)
    for i in range(d):
        idx = [0] * d
        idx[i] = 2
        coeffs[tuple(idx)] = 1.0
    pot = PolynomialPotential(coeffs, [tuple(r) for r in case["ranges"]])
    ld = FakeLd(pot, case["dt"], case["kt"], case["n_part"])

    def fn(o, key="filename"):
        return os.path.join(path, o[key]) if o.get(key) else None

    acts = {}
    if "trajectories" in secs:
        o = secs["trajectories"]
        acts["trajectories"] = TrajectoryAction(
            ld, o.get("stride"), fn(o), o.get("momentum"), o.get("write-stride"),
            o.get("fmt"),
        )
    if "histogram" in secs:
        o = secs["histogram"]
        bins, ranges = hist_setup(o)
        acts["histogram"] = HistogramAction(
            acts["trajectories"], bins, ranges, o.get("stride"), o.get("reset"), fn(o),
            o.get("write-stride"), o.get("fmt"),
        )
    if "fes" in secs:
        o = secs["fes"]
        acts["fes"] = FesAction(
            acts["histogram"], o.get("stride"), fn(o), o.get("write-stride"),
            o.get("fmt"), o.get("plot-stride"), fn(o, "plot-filename"),
            o.get("plot-domain"), o.get("plot-title"), None, o["kt"],
        )
    if "delta-f" in secs:
        o = secs["delta-f"]
        masks = [m for m, _ in region_masks(states_of(o), HistHistoryAxes(secs))]
        acts["delta-f"] = DeltaFAction(
            acts["fes"], masks, o.get("stride"), fn(o), o.get("write-stride"), o.get("fmt"),
            *([reference_surface(case)] if with_ref and case.get("ref") else []),
        )
    if "particle-distribution" in secs:
        o = secs["particle-distribution"]
        acts["particle-distribution"] = ParticleDistributionAction(
            ld.particles, states_of(o), o.get("stride"), fn(o), o.get("write-stride"),
            o.get("fmt"),
        )
    pos, mom = script_positions(case)
    flush = set(case["flush"])
    n = case["n_steps"]
    for s in range(1, n + 1):
        for k in range(case["n_part"]):
            if (s + k) % 3 == 0:  # as birth-death does
                ld.particles[k] = FakeParticle(pos[s][k], mom[s][k])
            else:  # as the integrators do
                ld.particles[k].pos[:] = pos[s][k]
                ld.particles[k].mom[:] = mom[s][k]
        for a in acts.values():
            a.run(s)
        if s in flush:
            for name in ("trajectories", "delta-f", "particle-distribution"):
                if name in acts and (name == "trajectories" or secs[name].get("stride")):
                    acts[name].write(s)
    for a in acts.values():
        a.final_run(n)
    return acts, pos, mom


def HistHistoryAxes(secs):
    bins, ranges = hist_setup(secs["histogram"])
    return ref.HistModel(bins, ranges).midpoints()


def script_hist(case, pos):
    o = case["sections"]["histogram"]
    bins, ranges = hist_setup(o)
    update = case["sections"]["trajectories"].get("write-stride") or 100
    return lambda mode: HistHistory(o, ranges, bins, update, case["n_steps"], pos, mode)


# --- killed programs -----------------------------------------------------------------


def killer(step):
    """Kill the program at the start of a time step, as a batch system or crash would do"""

    def patch(rec):
        from bdld.actions import bussi_parinello_ld, overdamped_ld

        for cls in (bussi_parinello_ld.BussiParinelloLD, overdamped_ld.OverdampedLD):
            def wrap(orig):
                def run(self, *args, **kwargs):
                    self._vf_steps = getattr(self, "_vf_steps", 0) + 1
                    if self._vf_steps >= step:
                        os.kill(os.getpid(), signal.SIGKILL)
                    return orig(self, *args, **kwargs)

                return run

            cls.run = wrap(cls.run)

    return patch


@st.composite
def killed_configs(draw, **kw):
    cfg = draw(configs(**kw))
    return {**cfg, "kill": draw(st.integers(1, cfg["sections"]["ld"]["n_steps"]))}


def check_killed(case, appended=(), numbered=()):
    """Compare the files of a killed run with the ones of a whole run

    :param appended: (file names, steps per row or None, write stride) per kind of file
    :param numbered: (file name, write stride) of files with the step in their name
    :return: number of rows and files that had to be there
    """
    done = case["kill"] - 1  # completed steps
    with ScratchDir() as p1, ScratchDir() as p2:
        write_input(case, p1)
        sim.run_bdld(p1).need_ok()
        write_input(case, p2)
        res = sim.run_bdld(p2, patch=killer(case["kill"]), killed=True)
        require(res.rc == -signal.SIGKILL, f"status {res.rc} of a killed program")
        full, part = outputs(p1), outputs(p2)
    seen = 0
    for names, stride, write_stride in appended:
        last = done // write_stride * write_stride
        want = last // stride
        for name in names:
            require(name in part, f"{name} does not exist after {done} steps")

            def rows(data):
                lines = data.decode().splitlines(keepends=True)
                return ([x for x in lines if x.startswith("#")],
                        [x for x in lines if not x.startswith("#")])

            h1, r1 = rows(full[name])
            h2, r2 = rows(part[name])
            require(h1 == h2, f"{name}: header {h2} instead of {h1}")
            require(
                len(r2) >= want and r2 == r1[:len(r2)],
                f"{name} of a run killed after {done} steps (write stride {write_stride}, one row "
                f"per {stride} steps) has {len(r2)} rows, expected the first {want} of the whole "
                f"run\n{r2[:5]}\n{r1[:5]}",
            )
            seen += want
    for name, write_stride in numbered:
        for s in range(write_stride, done + 1, write_stride):
            f = f"{name}_{s}"
            require(f in part, f"{f} does not exist after {done} steps")
            require(part[f] == full[f], f"{f} differs from the one of the whole run")
            seen += 1
    return seen
