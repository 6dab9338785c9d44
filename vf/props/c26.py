"""C26: output never destroys earlier results and headers describe every column"""
import copy
import os
import re

import numpy as np
from hypothesis import strategies as st

import sim
import whole
from core import Property, ScratchDir, require
from props.c01 import expected_files

PROP = Property(
    "C26",
    assumptions=[
        "the backup may have any name that was not in use before",
        "the extent in the header of a free energy file may be the one of the histogram or of "
        "its bin midpoints",
        "the time step in the header of the statistics may be the one of the dynamics or of the "
        "birth-death steps",
    ],
)

NAMES = {"trajectories": "traj", "histogram": "histo", "fes": "fes", "delta-f": "delta_f",
         "particle-distribution": "pdist"}


@st.composite
def cases(draw):
    first = draw(whole.configs(max_steps=14, max_particles=3, plot=True))
    runs = [first]
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 3))
        if k == 0:
            nxt = draw(whole.configs(max_steps=14, max_particles=3, plot=True))
        else:  # again, with other seeds or the same
            nxt = copy.deepcopy(draw(st.sampled_from(runs)))
            if k > 1:
                nxt["sections"]["ld"]["seed"] = draw(st.integers(0, 99))
                nxt["sections"]["ld"]["n_steps"] = draw(st.integers(1, 14))
        nxt["abort"] = draw(st.integers(1, 8)) if draw(st.integers(0, 4)) == 0 else 0
        runs.append(nxt)
    outs = sorted(expected_files(first["sections"])) or ["traj.0"]
    pool = outs + [f"bck.{i}.{f}" for i in range(3) for f in outs[:6]] + [
        f"{f}_{i}" for f in ("histo", "fes") for i in (1, 2, 5)] + ["plot.png", "notes.txt",
                                                                   "bck.0.plot.png", "traj.7"]
    pre = draw(st.lists(st.sampled_from(pool), max_size=5, unique=True))
    return {"runs": runs, "pre": pre}


def plot_files(secs):
    f = secs.get("fes", {})
    if not f.get("plot-filename"):
        return set()
    res = {f["plot-filename"]}
    if f.get("plot-stride"):
        root, ext = os.path.splitext(f["plot-filename"])
        n = secs["ld"]["n_steps"]
        res |= {f"{root}_{s}{ext}" for s in range(f["plot-stride"], n + 1, f["plot-stride"])}
    return res


def aborting(step):
    def patch(rec):
        from bdld.actions import bussi_parinello_ld, overdamped_ld

        for cls in (bussi_parinello_ld.BussiParinelloLD, overdamped_ld.OverdampedLD):
            def wrap(orig):
                def run(self, *args, **kwargs):
                    self._vf_steps = getattr(self, "_vf_steps", 0) + 1
                    if self._vf_steps >= step:
                        raise KeyboardInterrupt
                    return orig(self, *args, **kwargs)

                return run

            cls.run = wrap(cls.run)

    return patch


def kept(before, after, written):
    """Every file of before still exists, files that are written under a new name"""
    new = {}
    for name, data in after.items():
        if name not in before:
            new.setdefault(data, []).append(name)
    moved = 0
    for name, data in sorted(before.items()):
        if after.get(name) == data and name not in written:
            continue
        if name not in written:
            if name in after:
                require(False, f"{name} is not written by this run but was changed")
            require(False, f"{name} is not written by this run but has gone")
        if after.get(name) == data and not new.get(data):
            continue  # not reached by an aborted run
        require(
            bool(new.get(data)),
            f"the previous content of {name} is lost: it is in none of the new files "
            f"{sorted(n for v in new.values() for n in v)}",
        )
        new[data].pop()
        moved += 1
    return moved


@PROP.sub(
    "repeated", cases(), 260, 7000, shards=8,
    rule="2-4 runs (the same or other inputs, some aborted in the middle) in a directory that may "
    "contain files of any of the output and backup names: all previous contents are kept, other "
    "files untouched and the new files equal those of a run in an empty directory; non-trivial: "
    "at least one file had to be backed up",
)
def repeated(case, rec):
    moved = 0
    with ScratchDir() as path:
        for i, name in enumerate(case["pre"]):
            with open(os.path.join(path, name), "w") as f:
                f.write(f"precious {name} {i}\n")
        for cfg in case["runs"]:
            secs = cfg["sections"]
            for f in whole.INPUT_FILES:
                if os.path.exists(os.path.join(path, f)):
                    os.remove(os.path.join(path, f))
            whole.write_input(cfg, path)
            before = sim.listing(path)
            abort = cfg.get("abort")
            if abort and abort <= secs["ld"]["n_steps"]:
                res = sim.run_bdld(path, patch=aborting(abort))
                require(res.rc != 0, "interrupted run ended with status 0")
                rec.label("aborted")
            else:
                abort = 0
                sim.run_bdld(path).need_ok()
            after = sim.listing(path)
            plots = plot_files(secs)
            files = expected_files(secs)
            moved += kept(before, after, files | plots)
            if abort:
                continue
            with ScratchDir() as clean:
                whole.write_input(cfg, clean)
                sim.run_bdld(clean).need_ok()
                fresh = whole.outputs(clean)
            require(
                set(fresh) == files | plots,
                f"files {sorted(fresh)}, expected {sorted(files | plots)}",
            )
            for f, data in fresh.items():
                require(f in after, f"{f} was not written in a directory with older files")
                if f in plots:
                    require(len(after[f]) > 100, f"{f} is no plot")
                    require(after[f] != before.get(f) or data == before.get(f), f"{f}: old plot")
                else:
                    require(
                        after[f] == data,
                        f"{f} differs from the one of the same run in an empty directory:\n"
                        f"{after[f][:300]!r}\n{data[:300]!r}",
                    )
    rec.label(f"{len(case['runs'])} runs", "moved" if moved else "nothing moved")
    return moved > 0


# --- headers -------------------------------------------------------------------------


def parse_header(path, name):
    """(fields, constants, number of header lines); the header comes first and once"""
    require(os.path.exists(os.path.join(path, name)), f"{name} was not written")
    with open(os.path.join(path, name)) as f:
        lines = f.read().split("\n")
    n = 0
    while n < len(lines) and lines[n].startswith("#"):
        n += 1
    require(n > 0, f"{name} has no header, it starts with {lines[:1]}")
    m = re.fullmatch(r"#!\s*FIELDS\s+(.*)", lines[0])
    require(bool(m), f"{name}: first line is {lines[0]!r} and no list of fields")
    const = {}
    for x in lines[1:n]:
        c = re.fullmatch(r"#!\s*SET\s+(\S+)\s+(.*)", x)
        require(bool(c), f"{name}: header line {x!r}")
        require(c.group(1) not in const, f"{name}: constant {c.group(1)} twice")
        const[c.group(1)] = c.group(2)
    rest = [x for x in lines[n:] if x.startswith("#")]
    require(not rest, f"{name}: header lines between the data: {rest[:2]}")
    rows = [x.split() for x in lines[n:] if x.strip()]
    fields = m.group(1).split()
    require(len(set(fields)) == len(fields), f"{name}: fields {fields} are not distinct")
    for r in rows:
        require(
            len(r) == len(fields), f"{name}: row {r} does not match the fields {fields}"
        )
    return fields, const, len(rows)


def nums(text):
    return [float(x) for x in re.findall(r"(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", text)]


def equal(text, values, rtol=1e-7):
    got = nums(text)
    return len(got) == len(values) and all(
        abs(g - v) <= rtol * abs(v) + 1e-9 for g, v in zip(got, values)
    )


def check_const(name, const, key, *accepted):
    require(key in const, f"{name}: no constant {key} in the header, only {sorted(const)}")
    require(
        any(equal(const[key], a if isinstance(a, list) else [a]) for a in accepted),
        f"{name}: header says {key} {const[key]}, the setting is {accepted}",
    )


def check_fields(name, got, want):
    require(got == want, f"{name}: fields {got}, the columns are {want}")


@PROP.sub(
    "headers", whole.configs(max_steps=20, max_particles=4), 420, 12000, shards=7,
    rule="headers of all files of whole simulations: names of all columns in order, rows of this "
    "length, constants equal to the settings; non-trivial: at least one file",
)
def headers(case, rec):
    secs = case["sections"]
    d = case["n_dim"]
    xyz = ["x", "y", "z"][:d]
    with ScratchDir() as path:
        whole.run(case, path)
        files = expected_files(secs)
        for f in sorted(files):
            kind = next((s for s in NAMES if re.match(
                re.escape(secs.get(s, {}).get("filename") or "-") + r"([._]\d+)?$", f)),
                "birth-death")
            o = secs[kind]
            fields, const, rows = parse_header(path, f)
            rec.label(kind)
            if kind == "trajectories":
                i = f.rsplit(".", 1)[1]
                want = ["time"] + [f"pos_{x}.{i}" for x in xyz]
                if o.get("momentum"):
                    want += [f"mom_{x}.{i}" for x in xyz]
                check_fields(f, fields, want)
            elif kind in ("histogram", "fes"):
                h = secs["histogram"]
                check_fields(f, fields, xyz + ["histo_count" if kind == "histogram" else "fes"])
                bins, ranges = whole.hist_setup(h)
                for x, n, (lo, hi) in zip(xyz, bins, ranges):
                    w = (hi - lo) / n
                    if kind == "histogram":
                        check_const(f, const, f"{x}_min", lo)
                        check_const(f, const, f"{x}_max", hi)
                    else:
                        check_const(f, const, f"{x}_min", lo, lo + w / 2)
                        check_const(f, const, f"{x}_max", hi, hi - w / 2)
                    check_const(f, const, f"{x}_n_bins", n)
                require(rows == int(np.prod(bins)), f"{f}: {rows} rows for {bins} bins")
            elif kind == "delta-f":
                n = len(whole.states_of(o))
                check_fields(f, fields, ["time"] + [f"delta_f.1-{i}" for i in range(2, n + 1)])
                check_const(f, const, "kt", secs["fes"]["kt"])
            elif kind == "particle-distribution":
                states = whole.states_of(o)
                check_fields(f, fields, ["timestep"] + [f"n_particles_{i}" for i in
                                                        range(len(states))])
                for i, s in enumerate(states):
                    check_const(f, const, f"state_{i}", [x for b in s for x in b])
            else:
                check_fields(f, fields, ["timestep", "dup_succ", "dup_attempts", "kill_succ",
                                         "kill_attempts"])
                dt = secs["ld"]["timestep"]
                check_const(f, const, "timestep", dt, dt * o["stride"])
                check_const(f, const, "kernel_bandwidth", whole.as_list(o["kernel-bandwidth"]))
                check_const(f, const, "kt", secs["ld"].get("kt", 1.0))
    return bool(files)
