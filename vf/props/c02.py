"""C02: invalid input is rejected with a clear error before anything is simulated"""
import copy
import re

from hypothesis import strategies as st

import sim
import whole
from core import Property, ScratchDir, require
from props.c01 import TYPES, relevant

PROP = Property(
    "C02",
    assumptions=[
        "the offending option (or section) has to occur as a word in the error output; for states "
        "any state option is accepted, for a missing section also the section that requires it",
    ],
)

POSITIVE = {
    "ld": ["n_steps", "kt"],
    "particles": ["number", "mass"],
    "birth-death": ["stride", "exponential-factor", "stats-stride", "kernel-bandwidth"],
    "trajectories": ["stride", "write-stride"],
    "histogram": ["stride", "write-stride", "bins", "reset"],
    "fes": ["kt", "stride", "write-stride"],
    "delta-f": ["stride", "write-stride"],
    "particle-distribution": ["stride", "write-stride"],
}
NON_NEGATIVE = {"ld": ["timestep", "friction"]}
CHOICES = {
    "ld": ["type"],
    "potential": ["type", "boundary-condition"],
    "particles": ["initial-distribution"],
    "birth-death": ["approximation-variant", "correction-variant"],
}
SECTIONS = ["birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"]
# value used to add an option that is not in the generated input
SAMPLE = {"exponential-factor": 1.0, "stats-stride": 2, "stride": 2, "write-stride": 2,
          "reset": [2, 4], "mass": 1.0, "kt": 1.0, "friction": 1.0}


def required(sec, opts, n_dim):
    if sec == "ld":
        res = ["type", "timestep", "n_steps"]
        return res + (["kt", "friction"] if opts["type"] == "bussi-parinello" else [])
    if sec == "potential":
        if opts["type"] == "mueller-brown":
            return ["type"]
        return ["type", "n_dim", "min", "max"] + [k for k in ("coeffs", "coeffs-file") if k in opts]
    if sec == "particles":
        res = ["number", "initial-distribution"]
        if opts["initial-distribution"] != "random-global":
            res.append("pos1")
        if opts["initial-distribution"] == "fractions-pos":
            res.append("fractions")
        return res
    if sec == "birth-death":
        return ["stride", "kernel-bandwidth"]
    if sec == "histogram":
        return ["min", "max", "bins"]
    if sec == "fes":
        return ["kt"]
    return []


@st.composite
def cases(draw):
    # the wanted sections first, so that every kind of fault is reached
    kind = draw(st.sampled_from(
        ["file", "section", "required", "required", "convert", "convert", "convert", "positive",
         "positive", "positive", "negative", "choice", "choice", "dims", "states", "states",
         "needs", "count"]))
    cfg = draw(whole.configs(
        bd=draw(st.booleans()), max_steps=6, max_particles=3,
        delta_f=True if kind == "needs" else draw(st.sampled_from([True, "maybe"])),
        pdist=True if kind == "states" else "maybe"))
    secs, d = cfg["sections"], cfg["n_dim"]
    secs = copy.deepcopy(secs)
    argv = "input"
    names = []
    what = kind
    if kind == "file":
        argv = draw(st.sampled_from(["missing", "inputs", "no/such/file", "input.txt"]))
        names = [argv]
    elif kind == "section":
        s = draw(st.sampled_from(["ld", "potential", "particles"]))
        del secs[s]
        names = [s]
        what = f"no [{s}]"
    elif kind == "needs":
        s = draw(st.sampled_from(["trajectories", "histogram", "fes"]))
        user = {"trajectories": "histogram", "histogram": "fes", "fes": "delta-f"}[s]
        del secs[s]
        names = [s, user]
        what = f"no [{s}]"
    elif kind == "required":
        s = draw(st.sampled_from([x for x in secs if required(x, secs[x], d)]))
        o = draw(st.sampled_from(required(s, secs[s], d)))
        del secs[s][o]
        names = [o] if o not in ("coeffs", "coeffs-file") else ["coeffs", "coeffs-file"]
        what = f"no {s}/{o}"
    elif kind == "convert":
        opts = [(s, o) for s in secs for o in secs[s]
                if o in TYPES[s] and TYPES[s][o] != "s" and relevant(s, secs[s], o)]
        s, o = draw(st.sampled_from(sorted(opts)))
        t = TYPES[s][o]
        islist = t in ("lf", "li") or (t in ("F", "I") and d > 1)
        num = "i" if "i" in t.lower() else "f"
        bad = ["abc", "1 2", "1.2.3", "--1", "1e", "x5", "5x"] if t != "b" else [
            "maybe", "2", "tru", "yess"]
        if num == "i" and t != "b":
            bad += ["2.5", "1e2", "3.0"]
        if t != "b" and not islist:
            bad += ["1,2", "3, 4", "1;"]
        v = draw(st.sampled_from(bad))
        if islist:
            n = len(whole.as_list(secs[s][o]))
            items = [whole.value_text(x) for x in whole.as_list(secs[s][o])]
            items[draw(st.integers(0, n - 1))] = v
            v = draw(st.sampled_from([", ", ",", " ,"])).join(items)
        elif draw(st.integers(0, 5)) == 0:
            v = ""
        secs[s][o] = v
        names = [o]
        what = f"{s}/{o}={v}"
    elif kind in ("positive", "negative"):
        table = POSITIVE if kind == "positive" else NON_NEGATIVE
        opts = [(s, o) for s in secs for o in table.get(s, []) if relevant(s, secs[s], o)]
        s, o = draw(st.sampled_from(sorted(opts)))
        cur = secs[s].get(o, SAMPLE.get(o))
        integer = TYPES[s][o] in ("i", "li", "I")
        bads = [-1, -3, -100] if integer else [-1.0, -0.5, -1e-9, -250.0]
        if kind == "positive":
            bads += [0, 0] if integer else [0.0, 0.0, -0.0]
        bad = draw(st.sampled_from(bads))
        if isinstance(cur, list):
            cur = list(cur)
            cur[draw(st.integers(0, len(cur) - 1))] = bad
        else:
            cur = bad
        secs[s][o] = cur
        names = [o]
        what = f"{s}/{o}={cur}"
    elif kind == "choice":
        opts = [(s, o) for s in secs for o in CHOICES.get(s, [])]
        s, o = draw(st.sampled_from(sorted(opts)))
        good = {"type": "bussi-parinello" if s == "ld" else "polynomial",
                "boundary-condition": "periodic", "initial-distribution": "random-pos",
                "approximation-variant": "additive", "correction-variant": "mult"}[o]
        bad = draw(st.sampled_from(
            ["unknown", "none", good[:-1], good + "s", good.replace("-", "_") + "_", "0",
             "bussi", "reflect", "random", "additiv", "muller-brown", "fractions"]))
        secs[s][o] = bad
        if o == "correction-variant":  # otherwise the other one would be used
            secs[s].pop("approximation-variant", None)
        names = [o]
        what = f"{s}/{o}={bad}"
    elif kind == "dims":
        if secs["potential"]["type"] != "polynomial":
            secs["potential"] = {"type": "polynomial", "coeffs-file": whole.COEFFS_FILE,
                                 "min": [-1.0, -1.0], "max": [1.0, 1.0]}
            cfg["coeffs"] = [[0.0, 1.0], [1.0, 0.0]]
        secs["potential"]["n_dim"] = draw(st.sampled_from([0, 4, 5, -1, 17]))
        names = ["n_dim"]
        what = f"n_dim={secs['potential']['n_dim']}"
    elif kind == "states":
        s = draw(st.sampled_from([x for x in ("delta-f", "particle-distribution") if x in secs]))
        keys = sorted(k for k in secs[s] if k.startswith("state"))
        how = draw(st.sampled_from(["one", "one", "all", "few", "length", "both", "both"]))
        if how == "one":
            del secs[s][draw(st.sampled_from(keys))]
        elif how == "all":
            for k in keys:
                del secs[s][k]
        elif how == "few":
            if s == "delta-f":
                for k in keys:
                    if not k.startswith("state1-"):
                        del secs[s][k]
            else:  # all bounds of one kind
                end = draw(st.sampled_from(["-min", "-max"]))
                for k in keys:
                    if k.endswith(end):
                        del secs[s][k]
        elif how == "both":  # one state has too many or few dimensions
            k = draw(st.sampled_from(sorted({k.split("-")[0] for k in keys})))
            n = draw(st.sampled_from([x for x in (d - 1, d + 1, d + 2) if x > 0]))
            for b in ("min", "max"):
                secs[s][f"{k}-{b}"] = (secs[s][f"{k}-{b}"] + [0.0, 1.0])[:n]
        else:
            k = draw(st.sampled_from(keys))
            secs[s][k] = secs[s][k] + [1.0]
        names = ["states", "re:[dD]imension"]
        what = f"{s} states {how}"
    else:  # number of values
        if draw(st.booleans()) or secs["potential"].get("n_dim") == 1:
            secs["particles"].update({"initial-distribution": "fractions-pos"})
            secs["particles"].setdefault("pos1", [0.0] * d)
            n_pos = sum(k.startswith("pos") for k in secs["particles"])
            n = draw(st.sampled_from([k for k in range(1, 6) if k != n_pos]))
            secs["particles"]["fractions"] = [0.5] * n
            names = ["fractions"]
            what = f"{n} fractions, {n_pos} positions"
        else:
            n = draw(st.sampled_from([k for k in range(1, 5) if k != d]))
            secs.setdefault("birth-death", {"stride": 1})["kernel-bandwidth"] = [0.3] * n
            names = ["kernel-bandwidth"]
            what = f"{n} bandwidths in {d}d"
    return {"sections": secs, "coeffs": cfg["coeffs"], "argv": argv, "names": names,
            "what": what, "kind": kind}


# --- every option in turn -----------------------------------------------------------------

FULL_SAMPLE = {
    ("ld", "kt"): 0.7, ("ld", "friction"): 2.0, ("ld", "seed"): 5,
    ("potential", "scaling-factor"): 0.1, ("potential", "boundary-condition"): "periodic",
    ("particles", "mass"): 1.5, ("particles", "seed"): 4,
    ("birth-death", "correction-variant"): "add", ("birth-death", "approximation-variant"): "mult",
    ("birth-death", "exponential-factor"): 2.0, ("birth-death", "seed"): 3,
    ("birth-death", "recalculate-probabilities"): True, ("birth-death", "stats-stride"): 2,
    ("trajectories", "stride"): 2, ("trajectories", "momentum"): True,
    ("trajectories", "write-stride"): 4,
    ("histogram", "stride"): 2, ("histogram", "reset"): [2, 4], ("histogram", "write-stride"): 2,
    ("fes", "stride"): 2, ("fes", "write-stride"): 2, ("fes", "plot-stride"): 2,
    ("fes", "plot-domain"): [0.0, 5.0],
    ("delta-f", "stride"): 2, ("delta-f", "write-stride"): 4,
    ("particle-distribution", "stride"): 2, ("particle-distribution", "write-stride"): 4,
}


def catalogue():
    """All (fault, dimension class, section, option)"""
    res = []
    for many in (False, True):
        for sec, types in TYPES.items():
            for opt, t in types.items():
                if opt.startswith("state") and opt.split("-")[0] not in (
                        "state1", "state2", "state11"):
                    continue
                if opt.startswith("pos") and opt not in ("pos1", "pos2", "pos11"):
                    continue
                if (opt == "coeffs" and many):
                    continue
                if t != "s":
                    res.append(("convert", many, sec, opt))
                    if t in ("lf", "li") or (t in ("F", "I") and many):
                        res.append(("convert", many, sec, opt))
                if opt in POSITIVE.get(sec, []):
                    res += [("positive", many, sec, opt)] * 2
                if opt in NON_NEGATIVE.get(sec, []):
                    res.append(("negative", many, sec, opt))
                if opt in CHOICES.get(sec, []):
                    res.append(("choice", many, sec, opt))
                if opt.startswith("state"):
                    res.append(("required", many, sec, opt))
        for sec, opts in {
            "ld": ["type", "timestep", "n_steps", "kt", "friction"],
            "potential": ["type", "n_dim", "min", "max", "coeffs-file"] + ["coeffs"] * (not many),
            "particles": ["number", "initial-distribution", "pos1", "fractions"],
            "birth-death": ["stride", "kernel-bandwidth"],
            "histogram": ["min", "max", "bins"],
            "fes": ["kt"],
        }.items():
            res += [("required", many, sec, o) for o in opts]
    res = [e for e in res if e != ("convert", False, "potential", "scaling-factor")]
    return res


CATALOGUE = catalogue()


@st.composite
def catalogue_cases(draw, entries):
    kind, many, s, o = draw(st.sampled_from(entries))
    mueller = o == "scaling-factor"
    d = 2 if mueller else draw(st.integers(2, 3)) if many else 1
    cfg = draw(whole.configs(
        n_dim=d, bd=True, traj=True, hist=True, fes=True, delta_f=True, pdist=True, max_steps=6,
        max_particles=3, mueller=False, overdamped=False if o in ("kt", "friction") else None))
    secs = copy.deepcopy(cfg["sections"])
    if mueller:
        secs["potential"] = {"type": "mueller-brown"}
    pa = secs["particles"]
    if o.startswith("pos") or o == "fractions":
        n_pos = 12 if o == "pos11" else 2
        for k in [k for k in pa if k.startswith("pos")]:
            del pa[k]
        pa["initial-distribution"] = "fractions-pos"
        if o != "fractions" and draw(st.booleans()):
            pa["initial-distribution"] = "random-pos"
        for k in range(n_pos):
            pa[f"pos{k+1}"] = [0.0] * d
        pa.pop("fractions", None)
        if pa["initial-distribution"] == "fractions-pos":
            pa["fractions"] = [0.5] * n_pos
        if kind == "required" and o == "pos1":  # no position at all
            del pa["pos2"]
    po = secs["potential"]
    if o in ("coeffs", "coeffs-file"):
        c = cfg["coeffs"] if cfg["coeffs"] is not None else po["coeffs"]
        for k in ("coeffs", "coeffs-file"):
            po.pop(k, None)
        if o == "coeffs":
            po["coeffs"] = c
        else:
            po["coeffs-file"] = whole.COEFFS_FILE
            cfg["coeffs"] = c
    if o not in secs[s] and (s, o) in FULL_SAMPLE:
        secs[s][o] = FULL_SAMPLE[s, o]
    if o.startswith("state"):
        for k in range(1, 13 if o.startswith("state11") else 3):
            secs[s].setdefault(f"state{k}-min", [-1.0] * d)
            secs[s].setdefault(f"state{k}-max", [1.0] * d)
    t = TYPES[s][o]
    names = [o]
    if kind == "required":
        del secs[s][o]
        if o in ("coeffs", "coeffs-file"):
            names = ["coeffs", "coeffs-file"]
        if o.startswith("state"):
            names = ["states"]
    elif kind == "convert":
        islist = t in ("lf", "li") or (t in ("F", "I") and d > 1)
        bad = ["abc", "1 2", "1.2.3", "--1", "1e", "x5", "5x", ""] if t != "b" else [
            "maybe", "2", "tru", "yess", ""]
        if "i" in t.lower():
            bad += ["2.5", "1e2", "3.0"]
        if t != "b" and not islist:
            bad += ["1,2", "3, 4", "1;"]
        v = draw(st.sampled_from(bad))
        if islist:
            items = [whole.value_text(x) for x in whole.as_list(secs[s][o])]
            items[draw(st.integers(0, len(items) - 1))] = v
            v = draw(st.sampled_from([", ", ",", " ,"])).join(items)
        secs[s][o] = v
    elif kind in ("positive", "negative"):
        integer = t in ("i", "li", "I")
        bads = [-1, -3, -100] if integer else [-1.0, -0.5, -1e-9, -250.0]
        if kind == "positive":
            bads += [0, 0, 0] if integer else [0.0, 0.0, 0.0, -0.0]
        v = draw(st.sampled_from(bads))
        if isinstance(secs[s][o], list):
            v, bad = list(secs[s][o]), v
            v[draw(st.integers(0, len(v) - 1))] = bad
        secs[s][o] = v
    else:
        secs[s][o] = draw(st.sampled_from(
            ["unknown", "none", str(secs[s].get(o, "periodic"))[:-1], "0", "bussi", "reflect",
             "random", "additiv", "muller-brown", "fractions"]))
        if o == "correction-variant":
            secs[s].pop("approximation-variant", None)
    return {"sections": secs, "coeffs": cfg["coeffs"], "argv": "input", "names": names,
            "what": f"{s}/{o}: {kind} {secs[s].get(o, '')}", "kind": f"{kind} {s}/{o}"}


@st.composite
def misfit_cases(draw):
    """Lists of the wrong length and strides that do not fit together"""
    kind = draw(st.sampled_from(["length", "combination"]))
    d = draw(st.integers(1, 3))
    cfg = draw(whole.configs(
        n_dim=d, traj=True, hist=True, fes=True, delta_f=True, pdist=True, max_steps=8,
        max_particles=3, mueller=False))
    secs = copy.deepcopy(cfg["sections"])
    names = ["re:[dD]imension"]
    if kind == "length":
        n = draw(st.sampled_from([k for k in range(1, 5) if k != d]))
        opts = ["pos", "delta-f", "particle-distribution"]
        if d > 1:
            opts += ["potential/min", "potential/max", "potential", "histogram/min",
                     "histogram/max", "histogram", "histogram/bins"]
        what = draw(st.sampled_from(opts))
        if what == "pos":
            pa = secs["particles"]
            pa.update({"initial-distribution": "random-pos", "pos1": [0.25] * n})
            for k in [k for k in pa if k.startswith("pos") and k != "pos1"] + ["fractions"]:
                pa.pop(k, None)
            names.append("pos1")
        elif what in ("delta-f", "particle-distribution"):
            for k in [k for k in secs[what] if k.startswith("state")]:
                secs[what][k] = [-0.5 if k.endswith("n") else 0.5] * n
            names.append("states")
        elif "/" in what:
            s, o = what.split("/")
            secs[s][o] = [3 if o == "bins" else -2.0 if o == "min" else 2.0] * n
            names.append(o)
        else:
            secs[what]["min"], secs[what]["max"] = [-2.0] * n, [2.0] * n
            names += ["min", "max"]
        what += f" with {n} values in {d}d"
    else:
        s = draw(st.sampled_from(["delta-f", "particle-distribution", "histogram", "fes", "plot"]))
        sec = secs["fes" if s == "plot" else s]
        names = ["re:(?i)write.?stride"]
        if s in ("delta-f", "particle-distribution"):
            if draw(st.booleans()):
                sec["filename"] = "out"
                sec["stride"] = draw(st.integers(2, 6))
                sec["write-stride"] = draw(st.sampled_from(
                    [k for k in range(1, 20) if k % sec["stride"]]))
            else:
                sec["stride"] = draw(st.integers(1, 6))
                sec["write-stride"] = sec["stride"] * draw(st.integers(1, 3))
                sec.pop("filename", None)
        elif s == "plot":
            names = ["re:(?i)plot.?stride"]
            sec.pop("write-stride", None)
            sec["stride"] = draw(st.integers(1, 4))
            sec["plot-stride"] = sec["stride"] * draw(st.integers(1, 3))
            if draw(st.booleans()):
                sec["plot-filename"] = "p.png"
                del sec["stride"]
            else:
                sec.pop("plot-filename", None)
        else:
            sec["filename"] = "out"
            sec["stride"] = draw(st.integers(1, 4))
            sec["write-stride"] = sec["stride"] * draw(st.integers(1, 3))
            del sec["filename" if s == "histogram" or draw(st.booleans()) else "stride"]
        what = f"[{s}] {sec}"
    return {"sections": secs, "coeffs": cfg["coeffs"], "argv": "input", "names": names,
            "what": what, "kind": f"{kind} {what.split()[0]}"}


def named(names, text):
    for n in names:
        if n.startswith("re:"):
            if re.search(n[3:], text):
                return True
            continue
        pat = r"state\w*[-_ ]?(min|max)|\bstates?\b|min/max|minimum and maximum" \
            if n == "states" else r"(?<![\w-])" + re.escape(n) + r"(?![\w-])"
        if re.search(pat, text):
            return True
    return False


for _k in range(4):
    PROP.sub(
        f"catalogue{_k}", catalogue_cases(CATALOGUE[_k::4]), 5 * len(CATALOGUE) // 4, 8000,
        rule="a valid input file with all sections and one fault in a given option, for every "
        "option and kind of fault (part of the catalogue); always non-trivial",
    )(lambda case, rec: reject(case, rec))


@PROP.sub(
    "reject", cases(), 800, 40000, shards=4,
    rule="a valid input file with one fault: missing file, section or option, unconvertible value "
    "or list element, violated constraint, unknown choice, wrong states or dependencies; "
    "always non-trivial",
)
def reject(case, rec):
    rec.label(case["kind"])
    with ScratchDir() as path:
        whole.write_input(case, path)
        res = sim.run_bdld(path, argv=(case["argv"],), observe=True)
        what = case["what"]
        require(res.rc != 0, f"{what}: accepted, the program ended with status 0")
        require(
            res.rec["n_runs"] == 0, f"{what}: {res.rec['n_runs']} steps were simulated before"
        )
        require(res.rc == 1, f"{what}: exit status {res.rc} instead of 1")
        text = res.messages()
        require(
            named(case["names"], text),
            f"{what}: the error message does not name {' or '.join(case['names'])}:\n{text[-800:]}",
        )
        for name, data in whole.outputs(path).items():
            rows = [x for x in data.decode(errors="replace").splitlines()
                    if x.strip() and not x.startswith("#")]
            require(not rows, f"{what}: data was written to {name}")
    return True


@PROP.sub(
    "misfit", misfit_cases(), 240, 8000, shards=2,
    rule="a valid input file with a list whose length does not fit the dimensions, or with "
    "a write or plot stride that does not fit stride and file name; always non-trivial",
)
def misfit(case, rec):
    return reject(case, rec)


@st.composite
def malformed_cases(draw):
    cfg = draw(whole.configs(max_steps=5, max_particles=3))
    lines = whole.render(cfg["sections"]).splitlines()
    how = draw(st.sampled_from(["option", "section", "no delimiter", "no section", "bracket"]))
    heads = [i for i, x in enumerate(lines) if x.startswith("[")]
    opts = [i for i, x in enumerate(lines) if x.strip() and not x.startswith(("[", "#", " ", ";"))]
    if how == "option":  # given twice
        i = draw(st.sampled_from(opts))
        lines.insert(i, lines[i])
        what = f"'{lines[i]}' twice"
    elif how == "section":
        i = draw(st.sampled_from(heads))
        what = f"section {lines[i]} twice"
        lines += [lines[i]] + ([lines[i + 1]] if draw(st.booleans()) and i + 1 in opts else [])
    elif how == "no delimiter":
        i = draw(st.sampled_from(opts))
        what = f"'{lines[i]}' without its delimiter"
        lines[i] = lines[i].replace(":", " ").replace("=", " ")
    elif how == "no section":
        what = "option before the first section"
        lines.insert(0, "timestep: 0.01")
    else:
        i = draw(st.sampled_from(heads))
        what = f"'{lines[i]}' without closing bracket"
        lines[i] = lines[i].replace("]", "")
    return {"sections": cfg["sections"], "coeffs": cfg["coeffs"], "what": what, "how": how,
            "text": "\n".join(lines) + "\n"}


@PROP.sub(
    "malformed", malformed_cases(), 120, 5000, shards=2,
    rule="files with an option or section given twice, or lines that are neither section nor "
    "option: the program ends with an error and no step is simulated; always non-trivial",
)
def malformed(case, rec):
    rec.label(case["how"])
    with ScratchDir() as path:
        whole.write_input(case, path, case["text"])
        res = sim.run_bdld(path, observe=True)
        require(res.rc != 0, f"{case['what']}: accepted, the program ended with status 0")
        require(res.rec["n_runs"] == 0, f"{case['what']}: steps were simulated before the error")
    return True
