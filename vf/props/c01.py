"""C01: every option of a valid input file takes effect exactly as written"""
import copy
import os
import random

import numpy as np
from hypothesis import strategies as st

import gen
import sim
import whole
from core import Known, Property, ScratchDir, Violation, require

PROP = Property(
    "C01",
    assumptions=[
        "percent signs are written as %% (the configparser syntax the documentation refers to); "
        "the documented single % is a known finding",
        "attributes of the components are only compared if they exist under their present name; "
        "their effect is checked on the output in any case",
    ],
)

FMT = "%14.9f"

# type of every documented option: section -> option -> kind
# f float, i int, b bool, s string, lf / li lists, F float in 1D and list else, I same for int
TYPES = {
    "ld": {"type": "s", "timestep": "f", "n_steps": "i", "seed": "i", "kt": "f", "friction": "f"},
    "potential": {"type": "s", "n_dim": "i", "coeffs": "lf", "coeffs-file": "s", "min": "F",
                  "max": "F", "scaling-factor": "f", "boundary-condition": "s"},
    "particles": {"number": "i", "mass": "f", "seed": "i", "initial-distribution": "s",
                  "fractions": "lf"},
    "birth-death": {"stride": "i", "correction-variant": "s", "approximation-variant": "s",
                    "exponential-factor": "f", "recalculate-probabilities": "b",
                    "stats-stride": "i", "stats-filename": "s", "seed": "i",
                    "kernel-bandwidth": "F"},
    "trajectories": {"filename": "s", "stride": "i", "momentum": "b", "write-stride": "i",
                     "fmt": "s"},
    "histogram": {"stride": "i", "reset": "li", "filename": "s", "write-stride": "i", "fmt": "s",
                  "min": "F", "max": "F", "bins": "I"},
    "fes": {"kt": "f", "stride": "i", "filename": "s", "write-stride": "i", "fmt": "s",
            "plot-stride": "i", "plot-filename": "s", "plot-domain": "lf", "plot-title": "s"},
    "delta-f": {"stride": "i", "filename": "s", "write-stride": "i", "fmt": "s"},
    "particle-distribution": {"stride": "i", "filename": "s", "write-stride": "i", "fmt": "s"},
}
for _i in range(1, 15):
    TYPES["particles"][f"pos{_i}"] = "lf"
for _sec in ("delta-f", "particle-distribution"):
    for _i in range(1, 15):
        TYPES[_sec][f"state{_i}-min"] = "lf"
        TYPES[_sec][f"state{_i}-max"] = "lf"

ATTR = {"ld": "ld", "potential": "potential", "particles": "particles",
        "birth-death": "birth_death", "trajectories": "trajectories", "histogram": "histogram",
        "fes": "fes", "delta-f": "delta_f", "particle-distribution": "particle_distribution"}

# documented defaults of omitted options
DEFAULTS = {
    ("particles", "mass"): 1.0,
    ("birth-death", "recalculate-probabilities"): False,
    ("birth-death", "approximation-variant"): "original",
    ("birth-death", "exponential-factor"): 1.0,
    ("trajectories", "stride"): 1,
    ("trajectories", "write-stride"): 100,
    ("trajectories", "momentum"): False,
    ("trajectories", "fmt"): FMT,
    ("histogram", "stride"): 1,
    ("histogram", "fmt"): FMT,
    ("fes", "fmt"): FMT,
    ("fes", "plot-title"): "",
    ("delta-f", "fmt"): FMT,
    ("particle-distribution", "fmt"): FMT,
    ("potential", "n_dim"): 2,
}

DEFAULT_KEYS = ["kt", "seed", "stride", "fmt", "min", "max", "momentum", "mass", "timestep",
                "n_steps", "friction", "number", "exponential-factor", "bins", "states",
                "recalculate-probabilities", "stats-stride", "kernel-bandwidth", "fractions",
                "reset", "initial-distribution", "boundary-condition", "stats-filename"]

UNKNOWN = [("colour", "blue"), ("strides", "17"), ("kT2", "x, y"), ("pos", "1"), ("timesteps", "2"),
           ("file-name", "no_such_file"), ("state", "4"), ("x-min", "a"), ("write_stride", "3")]


# values that are easily changed by a parser
NAMES = ["Out_{}", "{}.Data.TXT", "{} of run 1", "{}=1", "a:{}", "{}#2", "x;{}", "'{}'", "007{}"]
TITLES = ["my title", "My Title", "F(x), T = 300 K", "a: b", "run # 3; x", "a ; b", "1.50", "true", '"Q"']


def valid(secs):
    """Combinations the components refuse (checked elsewhere)"""
    for name in ("delta-f", "particle-distribution"):
        o = secs.get(name)
        if o and o.get("stride") and o.get("write-stride"):
            if o["write-stride"] % o["stride"] or not o.get("filename"):
                return False
    h = secs.get("histogram")
    if h and h.get("write-stride") and not h.get("filename"):
        return False
    f = secs.get("fes")
    if f and f.get("write-stride") and not (f.get("filename") and f.get("stride")):
        return False
    if f and f.get("plot-stride") and not (f.get("plot-filename") and f.get("stride")):
        return False
    return True


def move_to_default(secs, key):
    """(sections, default, effective sections) with the option moved to [DEFAULT] or None"""
    keys = [key]
    if key == "states":
        keys = [k for k in secs.get("delta-f", {}) if k.startswith("state")]
        src = "delta-f"
    else:
        have = [s for s in secs if key in secs[s]]
        src = have[-1] if have else None
    if not src or not keys:
        return None
    secs = copy.deepcopy(secs)
    default = {k: secs[src][k] for k in keys}
    for s in secs:
        if s == "potential" and secs[s]["type"] == "mueller-brown":
            continue
        for k, v in default.items():
            if k in secs[s] and type(secs[s][k]) is type(v) and secs[s][k] == v:
                del secs[s][k]
    effective = apply_default(secs, default)
    return (secs, default, effective) if valid(effective) else None


def relevant(sec, opts, key):
    if key not in TYPES[sec]:
        return False
    if sec == "potential" and opts.get("type") == "mueller-brown":
        return key in ("scaling-factor", "boundary-condition")
    if sec == "ld" and opts.get("type") == "overdamped":
        return key not in ("kt", "friction")
    if sec == "particles" and key == "fractions":
        return opts.get("initial-distribution") == "fractions-pos"
    return True


def apply_default(secs, default):
    res = copy.deepcopy(secs)
    for s in res:
        for k, v in default.items():
            if k == "initial-distribution" and s == "particles":
                res[s].setdefault(k, v)
        for k, v in default.items():
            if k not in res[s] and relevant(s, res[s], k):
                res[s][k] = v
    return res


# --- rendering in different styles ---------------------------------------------------


def value_text(v, r):
    if isinstance(v, bool):
        return r.choice(["true", "True", "yes", "on", "1"] if v else
                        ["false", "False", "no", "off", "0"])
    if isinstance(v, int):
        return r.choice([str(v), str(v), f"+{v}" if v >= 0 else str(v)])
    if isinstance(v, float):
        forms = [repr(v), repr(v), f"{v:.17e}", f"{v:+.17g}"]
        if v == int(v):
            forms += [str(int(v))]
        return r.choice(forms)
    if isinstance(v, list):
        sep = r.choice([",", ", ", " , ", ",  ", "\t,\t"])
        return sep.join(value_text(x, r) for x in v)
    return str(v).replace("%", "%%")


def render(secs, default, style, seed):
    """Text of the input file in one of many equivalent forms"""
    r = random.Random(seed)
    blocks = []
    groups = list(secs.items())
    if style["order"]:
        r.shuffle(groups)
    if default:
        groups.insert(r.randint(0, len(groups)) if style["order"] else 0, ("DEFAULT", default))
    if style["unknown"]:
        groups.insert(r.randint(0, len(groups)),
                      (r.choice(["output", "birth_death", "deltaf", "Trajectories", "LD"]),
                       {"filename": "no_such_file", "stride": 1, "number": 77}))
    for name, opts in groups:
        items = list(opts.items())
        if style["order"]:
            r.shuffle(items)
        if style["unknown"]:
            for k, v in r.sample(UNKNOWN, r.randint(0, 2)):
                items.insert(r.randint(0, len(items)), (k, v))
        lines = [f"[{name}]"]
        for k, v in items:
            if style["spacing"]:
                sep = r.choice([":", "=", ": ", " = ", " : ", ":   "])
                text = f"{k}{sep}{value_text(v, r)}" + r.choice(["", "", "  "])
            else:
                text = f"{k}: {whole.value_text(v)}"
            if style["comments"]:
                lines += r.choice([[], [], ["# comment: 5"], ["; note = 3"], [""]])
            lines.append(text)
        blocks.append("\n".join(lines))
    return ("\n\n" if style["spacing"] else "\n").join(blocks) + "\n"


styles = st.fixed_dictionaries(
    {k: st.booleans() for k in ("order", "unknown", "spacing", "comments")}
)


@st.composite
def cases(draw, **kw):
    cfg = draw(whole.configs(**kw))
    secs, default = cfg["sections"], {}
    for s in secs:
        for k in ("filename", "stats-filename"):
            if k in secs[s] and draw(st.integers(0, 3)) == 0:
                secs[s][k] = draw(st.sampled_from(NAMES)).format(s)
        if "plot-title" in secs[s]:
            secs[s]["plot-title"] = draw(st.sampled_from(TITLES))
        if "plot-domain" in secs[s] and draw(st.integers(0, 4)) == 0:
            secs[s]["plot-domain"].reverse()
    b = secs.get("birth-death", {})
    if "approximation-variant" in b and draw(st.booleans()):  # documented to have precedence
        b["correction-variant"] = draw(st.sampled_from(
            ["original", "additive", "mult"] if cfg["n_dim"] == 1 else ["original"]))
    for key in draw(st.lists(st.sampled_from(DEFAULT_KEYS), max_size=3, unique=True)):
        moved = move_to_default(secs, key)
        if moved and not any(k in default for k in moved[1]):
            # the effective settings of all sections have to stay valid together
            eff = apply_default(moved[0], {**default, **moved[1]})
            if valid(eff):
                secs = moved[0]
                default.update(moved[1])
    return {
        "written": secs,
        "default": default,
        "effective": apply_default(secs, default),
        "coeffs": cfg["coeffs"],
        "n_dim": cfg["n_dim"],
        "style": draw(styles),
        "seed": draw(st.integers(0, 10**6)),
    }


def write(case, path, text=None):
    cfg = {"sections": case["effective"], "coeffs": case["coeffs"]}
    if text is None:
        text = render(case["written"], case["default"], case["style"], case["seed"])
    whole.write_input(cfg, path, text)


def note(case, rec):
    rec.label(*[k for k, v in case["style"].items() if v], *case["effective"])
    if case["default"]:
        rec.label("DEFAULT")


# --- parsed values -------------------------------------------------------------------


def expected(kind, v, n_dim):
    """Value in the documented type"""
    if kind in ("F", "I"):
        kind = kind.lower() if n_dim == 1 else "l" + kind.lower()
    if kind == "f":
        return float(v)
    if kind == "i":
        return int(v)
    if kind == "b":
        return bool(v)
    if kind == "s":
        return str(v)
    conv = float if kind == "lf" else int
    return [conv(x) for x in (v if isinstance(v, list) else [v])]


def same(got, want):
    if isinstance(want, list):
        return (
            not isinstance(got, (str, bytes))
            and hasattr(got, "__len__")
            and len(got) == len(want)
            and all(same(g, w) for g, w in zip(got, want))
        )
    if isinstance(want, bool):
        return isinstance(got, (bool, np.bool_)) and bool(got) == want
    if isinstance(want, int):
        return isinstance(got, (int, np.integer)) and not isinstance(got, bool) and got == want
    if isinstance(want, float):
        return isinstance(got, (float, np.floating)) and float(got) == want
    return isinstance(got, str) and got == want


@PROP.sub(
    "parsed", cases(plot=True), 700, 20000, shards=3,
    rule="parsed sections of generated input files (options in any order, spacing and notation, "
    "inherited from DEFAULT, unknown options and sections) against the written values in their "
    "documented types; non-trivial: DEFAULT used or not written in canonical form",
)
def parsed(case, rec):
    from bdld import inputparser

    with ScratchDir() as path:
        write(case, path)
        inp = inputparser.Input(os.path.join(path, "input"))
    eff = case["effective"]
    for sec, attr in ATTR.items():
        got = getattr(inp, attr)
        if sec not in eff:
            require(not got, f"section [{sec}] is not in the input but parsed as {got}")
            continue
        require(bool(got), f"section [{sec}] was not parsed")
        for key, kind in TYPES[sec].items():
            if key in eff[sec] and relevant(sec, eff[sec], key):
                want = expected(kind, eff[sec][key], case["n_dim"])
                require(key in got, f"option {key} of [{sec}] was not parsed")
                require(
                    same(got[key], want),
                    f"option {key} of [{sec}] is {got[key]!r}, written as {want!r}",
                )
            elif got.get(key) is not None and relevant(sec, eff[sec], key):
                want = DEFAULTS.get((sec, key))
                require(
                    want is not None and got[key] == want,
                    f"omitted option {key} of [{sec}] is {got[key]!r}",
                )
    note(case, rec)
    return bool(case["default"]) or any(case["style"].values())


# --- components ----------------------------------------------------------------------

GONE = "<no such attribute>"


def plain(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return getattr(v, "name", str(v))


def collect(captured):
    """Public attributes of the constructed components"""
    want = {
        "PolynomialPotential": ["n_dim", "ranges", "boundary_condition"],
        "MuellerBrownPotential": ["n_dim", "ranges", "boundary_condition"],
        "BussiParinelloLD": ["dt", "kt", "friction"],
        "OverdampedLD": ["dt"],
        "BirthDeath": ["stride", "dt", "bw", "kt", "rate_fac", "recalc_probs", "approx_variant",
                       "stats_stride"],
        "TrajectoryAction": ["stride", "write_stride", "filenames", "store_momentum", "write_fmt"],
        "HistogramAction": ["stride", "reset", "write_stride", "write_fmt", "filename"],
        "FesAction": ["kt", "stride", "filename", "write_stride", "write_fmt", "plot_stride",
                      "plot_filename", "plot_domain", "plot_title"],
        "DeltaFAction": ["kt", "dt", "stride", "write_stride", "filename", "write_fmt"],
        "ParticleDistributionAction": ["stride", "write_stride", "filename", "write_fmt", "states"],
    }
    res = {}
    for name, attrs in want.items():
        objs = captured.get(name, [])
        if objs:
            res[name] = {"count": len(objs)}
            for a in attrs:
                res[name][a] = plain(getattr(objs[-1], a, GONE))
    return res


def component_settings(eff, n_dim):
    """Expected attributes by class name, a list of accepted values per attribute"""
    ld, pot = eff["ld"], eff["potential"]
    od = ld["type"] == "overdamped"
    bc = pot.get("boundary-condition")
    lst = whole.as_list
    res = {}
    p = {"n_dim": [n_dim]}
    p["boundary_condition"] = [bc] if bc else [None, "none", "no"]
    if pot["type"] == "polynomial":
        p["ranges"] = [[list(map(float, r)) for r in zip(lst(pot["min"]), lst(pot["max"]))]]
        res["PolynomialPotential"] = p
    else:
        p["ranges"] = [[[-1.5, 1.5], [-0.5, 2.5]]]
        res["MuellerBrownPotential"] = p
    if od:
        res["OverdampedLD"] = {"dt": [ld["timestep"]]}
    else:
        res["BussiParinelloLD"] = {"dt": [ld["timestep"]], "kt": [ld["kt"]],
                                   "friction": [ld["friction"]]}
    b = eff.get("birth-death")
    if b:
        short = {"original": "orig", "additive": "add", "multiplicative": "mult"}
        v = b.get("approximation-variant") or b.get("correction-variant") or "original"
        v = short.get(v, v)
        long = {x: y for y, x in short.items()}[v]
        res["BirthDeath"] = {
            "stride": [b["stride"]],
            "dt": [ld["timestep"] * b["stride"]],
            "bw": [[float(x) for x in lst(b["kernel-bandwidth"])]],
            "kt": [1.0 if od else ld["kt"]],
            "rate_fac": [b.get("exponential-factor") or 1.0],
            "recalc_probs": [bool(b.get("recalculate-probabilities"))]
            + ([] if b.get("recalculate-probabilities") else [None]),
            "approx_variant": [v, long],
            "stats_stride": [b.get("stats-stride")] + ([] if b.get("stats-stride") else [0]),
        }

    def opt(o, key):
        return [o[key]] if o.get(key) else [None, 0, "", []]

    t = eff.get("trajectories")
    if t:
        n = eff["particles"]["number"]
        res["TrajectoryAction"] = {
            "stride": [t.get("stride") or 1],
            "write_stride": [t.get("write-stride") or 100],
            "filenames": [[f"{t['filename']}.{i}" for i in range(n)]] if t.get("filename")
            else [None, []],
            "store_momentum": [True] if t.get("momentum") else [None, False],
            "write_fmt": [t.get("fmt") or FMT] if t.get("filename") else None,
        }
    h = eff.get("histogram")
    if h:
        res["HistogramAction"] = {
            "stride": [h.get("stride") or 1],
            "reset": [lst(h["reset"])] if h.get("reset") else [None, []],
            "write_stride": opt(h, "write-stride"), "filename": opt(h, "filename"),
            "write_fmt": [h.get("fmt") or FMT],
        }
    f = eff.get("fes")
    if f:
        res["FesAction"] = {
            "kt": [f["kt"]], "stride": opt(f, "stride"), "filename": opt(f, "filename"),
            "write_stride": opt(f, "write-stride"), "write_fmt": [f.get("fmt") or FMT],
            "plot_stride": opt(f, "plot-stride"), "plot_filename": opt(f, "plot-filename"),
            "plot_domain": opt(f, "plot-domain"), "plot_title": opt(f, "plot-title"),
        }
    for sec, cls in (("delta-f", "DeltaFAction"),
                     ("particle-distribution", "ParticleDistributionAction")):
        o = eff.get(sec)
        if not o:
            continue
        r = {"stride": opt(o, "stride"), "filename": opt(o, "filename"),
             "write_fmt": [o.get("fmt") or FMT]}
        if o.get("stride"):
            r["write_stride"] = [o.get("write-stride") or 100 * o["stride"]]
        if sec == "delta-f":
            r["kt"], r["dt"] = [f["kt"]], [ld["timestep"]]
        else:
            r["states"] = [[[list(map(float, x)) for x in s] for s in whole.states_of(o)]]
        res[cls] = r
    return res


OPTIONAL = {"birth-death": "BirthDeath", "trajectories": "TrajectoryAction",
            "histogram": "HistogramAction", "fes": "FesAction", "delta-f": "DeltaFAction",
            "particle-distribution": "ParticleDistributionAction"}


def close_to(got, want):
    if isinstance(got, list) and isinstance(want, list):
        return len(got) == len(want) and all(close_to(g, w) for g, w in zip(got, want))
    if isinstance(want, float) and isinstance(got, (int, float)) and not isinstance(got, bool):
        return abs(got - want) <= 1e-12 * abs(want)
    return got == want


def check_components(got, eff, n_dim):
    want = component_settings(eff, n_dim)
    for sec, cls in OPTIONAL.items():
        if sec not in eff:
            require(cls not in got, f"{cls} is active without section [{sec}]")
    for cls, attrs in want.items():
        require(cls in got, f"{cls} was not set up")
        for a, values in attrs.items():
            g = got[cls].get(a, GONE)
            if values is None or g == GONE:
                continue
            if a == "boundary_condition" and isinstance(g, str):
                g = g.rsplit(".", 1)[-1]
            if a == "approx_variant" and isinstance(g, str):
                g = g.rsplit(".", 1)[-1]
                if g not in ("orig", "add", "mult", "original", "additive", "multiplicative"):
                    continue  # named differently
            require(
                any(close_to(g, v) for v in values),
                f"{cls}.{a} is {g!r}, the input file says {values[0]!r}",
            )


@PROP.sub(
    "components", cases(plot=True, max_steps=1), 300, 8000, shards=4,
    rule="settings of all components constructed by the program for generated input files; "
    "non-trivial: at least two optional sections",
)
def components(case, rec):
    with ScratchDir() as path:
        write(case, path)
        res = sim.run_bdld(path, collect=collect)
        res.need_ok()
    check_components(res.rec["collected"], case["effective"], case["n_dim"])
    note(case, rec)
    return sum(s in case["effective"] for s in OPTIONAL) >= 2


# --- effect of the options -----------------------------------------------------------


def expected_files(eff):
    """Names of all files the run has to write"""
    n = eff["ld"]["n_steps"]
    files = set()
    t = eff.get("trajectories", {})
    if t.get("filename"):
        files |= {f"{t['filename']}.{i}" for i in range(eff["particles"]["number"])}
    for sec in ("histogram", "fes"):
        o = eff.get(sec, {})
        if o.get("filename"):
            files.add(o["filename"])
            if o.get("write-stride"):
                w = o["write-stride"]
                files |= {f"{o['filename']}_{s}" for s in range(w, n + 1, w)}
    for sec, key in (("delta-f", "filename"), ("particle-distribution", "filename"),
                     ("birth-death", "stats-filename")):
        o = eff.get(sec, {})
        if o.get(key):
            files.add(o[key])
    return files


@PROP.sub(
    "effect", cases(max_steps=40), 420, 12000, shards=6,
    rule="whole simulations: number of steps, particles and masses, files and their whole content "
    "follow the written options (recomputed from the observed particle states), the dynamics "
    "equals directly constructed integrators with these settings; non-trivial: at least one "
    "output file",
)
def effect(case, rec):
    eff = case["effective"]
    n = eff["ld"]["n_steps"]
    with ScratchDir() as path:
        write(case, path)
        res = sim.run_bdld(path, observe=True)
        res.need_ok()
        require(len(res.states) == n + 1, f"{len(res.states) - 1} steps instead of {n}")
        pos, mom = whole.positions(res), whole.momenta(res)
        require(len(pos[0]) == eff["particles"]["number"], f"{len(pos[0])} particles")
        mass = eff["particles"].get("mass", 1.0)
        require(all(m == mass for m in res.states[0]["mass"]), f"mass {res.states[0]['mass'][0]}")
        files = set(whole.outputs(path))
        want = expected_files(eff)
        require(files == want, f"files {sorted(files)}, expected {sorted(want)}")
        dt = eff["ld"]["timestep"]
        t = eff.get("trajectories")
        if t:
            whole.check_traj(t, case["n_dim"], len(pos[0]), dt, n, pos, mom, path)
        if "histogram" in eff:
            def check(hh):
                whole.check_hist_files(eff["histogram"], hh, path)
                if "fes" in eff:
                    whole.check_fes_files(eff["fes"], hh, n, path)
                if "delta-f" in eff:
                    whole.check_delta_f_file(eff["delta-f"], eff["fes"], hh, dt, n, path)

            whole.any_mode(whole.make_hist({"sections": eff}, pos), check)
        if "particle-distribution" in eff:
            whole.check_pdist_file(eff["particle-distribution"], n, pos, path)
        b = eff.get("birth-death")
        if b:
            steps = [s for s in range(1, n + 1) if s % b["stride"] == 0]
            require(res.rec["bd_steps"] == steps, f"birth-death at {res.rec['bd_steps']}")
            whole.check_stats_file(b, n, res.rec["events"], path)
        else:
            require(not res.rec["bd_steps"], "birth-death without its section")
        check_dynamics(case, res)
    note(case, rec)
    return bool(files)


def check_dynamics(case, res):
    """Directly constructed integrator with the settings of the input and the same seed"""
    eff = case["effective"]
    if "birth-death" in eff or "seed" not in eff["ld"]:
        return
    from bdld.actions.bussi_parinello_ld import BussiParinelloLD
    from bdld.actions.overdamped_ld import OverdampedLD

    p = eff["potential"]
    j = {"type": p["type"], "n_dim": case["n_dim"], "bc": p.get("boundary-condition")}
    if p["type"] == "polynomial":
        j["coeffs"] = case["coeffs"] if "coeffs" not in p else p["coeffs"]
        j["ranges"] = list(zip(whole.as_list(p["min"]), whole.as_list(p["max"])))
    else:
        j["scaling"] = p.get("scaling-factor")
    pot = gen.mk_pot(j)
    o = eff["ld"]
    if o["type"] == "overdamped":
        ld = OverdampedLD(pot, o["timestep"], o["seed"])
    else:
        ld = BussiParinelloLD(pot, o["timestep"], o["friction"], o["kt"], o["seed"])
    for x in res.states[0]["pos"]:
        ld.add_particle(list(x), eff["particles"].get("mass", 1.0))
    for s in range(1, o["n_steps"] + 1):
        ld.run(s)
        x = np.array([q.pos for q in ld.particles])
        ok = np.abs(x - res.states[s]["pos"]) <= 1e-9 * (1 + np.abs(x)) * 1.05 ** s
        require(
            bool(np.all(ok | ~np.isfinite(x))),
            f"positions at step {s} are {res.states[s]['pos'].tolist()[:4]}, an integrator with "
            f"the settings of the input gives {x.tolist()[:4]}",
        )


# --- equivalent input files ----------------------------------------------------------


def add_defaults(eff, seed):
    """Write some omitted options with their documented default"""
    r = random.Random(seed)
    res = copy.deepcopy(eff)
    for (sec, key), v in DEFAULTS.items():
        if sec not in res or key in res[sec] or key == "n_dim" or r.random() < 0.4:
            continue
        if key == "approximation-variant" and "correction-variant" in res[sec]:
            continue
        res[sec][key] = v
    for sec in ("delta-f", "particle-distribution"):
        o = res.get(sec, {})
        if o.get("stride") and o.get("filename") and "write-stride" not in o:
            o["write-stride"] = 100 * o["stride"]
    b = res.get("birth-death")
    if b and r.random() < 0.5:
        if "approximation-variant" in b:  # has precedence
            b["correction-variant"] = r.choice(["original", "add"] if res["potential"].get(
                "n_dim") == 1 else ["original"])
        elif "correction-variant" in b:
            b["approximation-variant"] = b.pop("correction-variant")
    return res


@PROP.sub(
    "equivalent", cases(max_steps=30), 320, 8000, shards=6,
    rule="two input files with the same meaning - canonical versus any order, spacing, notation, "
    "comments, unknown options, DEFAULT, explicitly written defaults - produce byte-identical "
    "files; non-trivial: at least one output file",
)
def equivalent(case, rec):
    eff = case["effective"]
    variants = [
        whole.render(eff),
        render(case["written"], case["default"], case["style"], case["seed"]),
        render(add_defaults(eff, case["seed"]), {}, case["style"], case["seed"] + 1),
    ]
    results = []
    for text in variants:
        with ScratchDir() as path:
            write(case, path, text)
            res = sim.run_bdld(path, observe=True)
            res.need_ok()
            results.append((whole.outputs(path), [s["pos"].tolist() for s in res.states]))
    for text, (files, pos) in list(zip(variants, results))[1:]:
        require(
            set(files) == set(results[0][0]),
            f"files {sorted(files)} instead of {sorted(results[0][0])}\n{text}",
        )
        require(
            repr(pos) == repr(results[0][1]),
            f"particles move differently with the equivalent input\n{text}",
        )
        for f in files:
            require(files[f] == results[0][0][f], f"{f} differs for the equivalent input\n{text}")
    note(case, rec)
    return bool(results[0][0])


# --- extreme but valid values --------------------------------------------------------

EDGE = {
    "ld": {"timestep": [0.0, 1e-12], "friction": [0.0, 1e-9, 1000.0], "n_steps": [1],
           "kt": [1e-6, 1e6], "seed": [0, 2**32, 2**63 + 5]},
    "particles": {"number": [1], "mass": [1e-3, 1e6], "seed": [0, 2**32]},
    "birth-death": {"stride": [1, 1000, 10**6], "exponential-factor": [1e-9, 1e9],
                    "stats-stride": [1, 1000, 10**6], "seed": [0, 2**32]},
    "trajectories": {"stride": [1, 1000, 10**6], "write-stride": [1, 1000]},
    "histogram": {"stride": [1, 1000, 10**6], "bins": [1], "reset": [[1], [10**9], [1, 2, 3]]},
    "fes": {"kt": [1e-6, 1e6], "stride": [1, 1000, 10**6]},
    "delta-f": {},
    "particle-distribution": {},
}


@st.composite
def edge_cases(draw):
    cfg = draw(whole.configs(max_steps=3))
    secs = cfg["sections"]
    used = []
    for s in secs:
        for o, vals in EDGE.get(s, {}).items():
            if relevant(s, secs[s], o) and draw(st.booleans()):
                v = draw(st.sampled_from(vals))
                if o == "bins" and cfg["n_dim"] > 1:
                    v = [v] * cfg["n_dim"]
                secs[s][o] = v
                used.append(f"{s}/{o}={v}")
    if not valid(secs):
        used = []
    return {**cfg, "used": used}


@PROP.sub(
    "accepted", edge_cases(), 200, 5000, shards=2,
    rule="valid values at the limits of the documented constraints (zero time step, friction, "
    "seed; one particle, step, bin; huge strides) are accepted and used; non-trivial: at least "
    "one such value",
)
def accepted(case, rec):
    if not case["used"]:
        return False
    with ScratchDir() as path:
        whole.write_input(case, path)
        res = sim.run_bdld(path, collect=collect, observe=True)
        res.need_ok(f"valid input ({', '.join(case['used'])})")
        n = case["sections"]["ld"]["n_steps"]
        require(len(res.states) == n + 1, f"{len(res.states) - 1} steps instead of {n}")
        check_components(res.rec["collected"], case["sections"], case["n_dim"])
    rec.label(*case["used"])
    return True


# --- documented single percent sign --------------------------------------------------


@PROP.sub(
    "percent", st.fixed_dictionaries({
        "section": st.sampled_from(["trajectories", "histogram", "fes", "delta-f",
                                    "particle-distribution"]),
        "fmt": st.sampled_from(["%14.9f", "%.6f", "%10.3e", "%g"])}),
    6, 40,
    rule="number formats written as documented, with a single percent sign; always non-trivial",
)
def percent(case, rec):
    cfg = {
        "ld": {"type": "overdamped", "timestep": 0.01, "n_steps": 4, "seed": 1},
        "potential": {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.0, 1.0], "min": -2.0,
                      "max": 2.0},
        "particles": {"number": 2, "initial-distribution": "random-pos", "pos1": [0.0]},
        "trajectories": {"filename": "traj"},
        "histogram": {"min": -2.0, "max": 2.0, "bins": 3, "filename": "histo"},
        "fes": {"kt": 1.0, "filename": "fes"},
        "delta-f": {"state1-min": [-2.0], "state1-max": [0.0], "state2-min": [0.0],
                    "state2-max": [2.0], "filename": "df"},
        "particle-distribution": {"state1-min": [-2.0], "state1-max": [0.0], "filename": "pd"},
    }
    text = whole.render(cfg).replace(
        f"[{case['section']}]\n", f"[{case['section']}]\nfmt: {case['fmt']}\n")
    with ScratchDir() as path:
        whole.write_input({"sections": cfg}, path, text)
        res = sim.run_bdld(path)
        if res.rc == 1 and (res.uncaught or "").startswith("InterpolationSyntaxError"):
            raise Known("raw-percent-fmt", f"fmt: {case['fmt']} -> {res.uncaught}")
        res.need_ok()
        cfg[case["section"]]["fmt"] = case["fmt"]
        files = whole.outputs(path)
    with ScratchDir() as path:
        whole.write_input({"sections": cfg}, path)
        sim.run_bdld(path).need_ok()
        other = whole.outputs(path)
    if files != other:
        raise Violation("format with one percent sign gives other files than with two")
    return True
