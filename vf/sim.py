"""Whole-program runs of bdld in forked children

The child changes into a scratch directory, redirects its standard streams and calls
bdld.main.main() exactly as `python -m bdld input` does. With observe=True it also
records (through the public run() methods, without changing them) the state of all
particles after every time step, i.e. when the next step starts or the program ends, and
the objects that were constructed.
"""
import io
import os
import pickle
import resource
import signal
import subprocess
import sys
import time
import traceback

import numpy as np

import bdld.main  # noqa: F401  loaded once, before the children are forked
import matplotlib.figure  # noqa: F401
import scipy.spatial.distance  # noqa: F401

from boot import REPO, VERIF
from core import Violation

CPU_LIMIT = 90


class Result:
    def __init__(self, rc, out, err, rec, uncaught):
        self.rc = rc
        self.out = out
        self.err = err
        self.rec = rec  # None or dict, see _observe
        self.uncaught = uncaught  # exception text if main() did not handle it

    @property
    def states(self):
        """List over time steps 0..n of dicts with pos, mom, mass, energy, forces"""
        return self.rec["states"]

    def messages(self):
        """Lines of stderr that are messages, i.e. no parts of a traceback"""
        lines = []
        for line in self.err.splitlines():
            if line.startswith(("Traceback", " ", "\t", "During handling", "The above")):
                continue
            lines.append(line)
        return "\n".join(lines)

    def need_ok(self, what="valid input"):
        if self.rc != 0:
            raise Violation(
                f"{what}: program ended with status {self.rc}\n{self.err[-2500:]}"
            )
        return self


def snapshot(ld):
    ps = list(ld.particles)
    return {
        "pos": np.array([np.array(p.pos, dtype=float) for p in ps]),
        "mom": np.array([np.array(p.mom, dtype=float) for p in ps]),
        "mass": [float(p.mass) for p in ps],
        "energy": [float(p.energy) for p in ps],
        "forces": np.array([np.array(p.forces, dtype=float) for p in ps]),
    }


def _observe(rec):
    """Wrap the public methods of the integrators and of birth-death"""
    from bdld.actions import birth_death, bussi_parinello_ld, overdamped_ld

    rec["states"] = []
    rec["n_runs"] = 0
    rec["run_steps"] = []
    rec["events"] = []  # (step, list of (dup, kill))
    rec["bd_steps"] = []
    rec["bd_states"] = []  # (snapshot before, snapshot after)
    rec["lds"] = []
    rec["objects"] = {}

    def wrap_ld(cls):
        orig_run = cls.run
        orig_init = cls.__init__

        def run(self, *args, **kwargs):
            if not rec["lds"] or rec["lds"][0] is not self:
                rec["lds"].insert(0, self)
            rec["states"].append(snapshot(self))
            rec["n_runs"] += 1
            step = args[0] if args else kwargs.get("step")
            rec["run_steps"].append(step)
            return orig_run(self, *args, **kwargs)

        def init(self, *args, **kwargs):
            orig_init(self, *args, **kwargs)
            rec["lds"].insert(0, self)

        cls.run = run
        cls.__init__ = init

    wrap_ld(bussi_parinello_ld.BussiParinelloLD)
    wrap_ld(overdamped_ld.OverdampedLD)

    bd = birth_death.BirthDeath
    orig_do = bd.do_birth_death

    def do_birth_death(self, *args, **kwargs):
        before = snapshot(self)
        events = orig_do(self, *args, **kwargs)
        rec["bd_states"].append((before, snapshot(self)))
        rec["bd_steps"].append(rec["n_runs"])
        rec["events"].append(
            (rec["n_runs"], [(int(d), int(k)) for d, k in (events or [])])
        )
        return events

    bd.do_birth_death = do_birth_death


def _finish(rec):
    """State after the last step"""
    if rec.get("lds"):
        rec["states"].append(snapshot(rec["lds"][0]))
    rec["objects"] = {}
    del rec["lds"]


def run_bdld(cwd, argv=("input",), observe=False, collect=None, patch=None, killed=False):
    """Run bdld.main.main() in a forked child

    :param collect: function called in the child after main() with the dict of captured
                    constructed objects by class name; its result is rec["collected"]
    :param patch: function called in the child before main()
    :param killed: the patch kills the program, returns its exit status only
    """
    tag = f"{os.getpid()}-{time.monotonic_ns()}"
    base = os.path.join(os.path.dirname(cwd), f"run-{tag}")
    f_out, f_err, f_rec = base + ".out", base + ".err", base + ".rec"
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            code = _child_main(cwd, argv, observe, collect, patch, f_out, f_err, f_rec)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    rc = os.waitstatus_to_exitcode(status)
    if killed and rc == -signal.SIGKILL:
        for f in (f_out, f_err):
            os.remove(f)
        return Result(rc, "", "", None, None)
    with open(f_out, "rb") as f:
        out = f.read().decode(errors="replace")
    with open(f_err, "rb") as f:
        err = f.read().decode(errors="replace")
    rec, uncaught = None, None
    if os.path.exists(f_rec):
        with open(f_rec, "rb") as f:
            data = pickle.load(f)
        rec, uncaught = data["rec"], data["uncaught"]
        if data.get("harness"):
            raise RuntimeError("harness error in child: " + data["harness"])
        os.remove(f_rec)
    elif rc >= 0:
        raise RuntimeError(f"child left no record, status {rc}: {err[-2000:]}")
    os.remove(f_out)
    os.remove(f_err)
    if rc == -signal.SIGXCPU:
        v = Violation(f"the program does not end ({CPU_LIMIT} s of CPU time)")
        v.hang = True
        raise v
    if rc == -signal.SIGKILL:
        raise RuntimeError("child was killed")  # inconclusive
    return Result(rc, out, err, rec, uncaught)


def _child_main(cwd, argv, observe, collect, patch, f_out, f_err, f_rec):
    resource.setrlimit(resource.RLIMIT_CPU, (CPU_LIMIT, CPU_LIMIT + 5))
    os.chdir(cwd)
    null = os.open(os.devnull, os.O_RDONLY)
    os.dup2(null, 0)
    fo = os.open(f_out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    fe = os.open(f_err, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    os.dup2(fo, 1)
    os.dup2(fe, 2)
    sys.stdin = os.fdopen(0, "r")
    sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb"), encoding="utf-8")
    sys.stderr = io.TextIOWrapper(
        os.fdopen(2, "wb"), encoding="utf-8", line_buffering=True
    )
    import logging
    import warnings

    logging.disable(logging.NOTSET)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    warnings.simplefilter("ignore")
    np.seterr(all="warn")
    sys.argv = ["bdld"] + list(argv)
    rec = {}
    captured = {}
    harness = None
    if observe:
        _observe(rec)
    if collect:
        _capture(captured)
    if patch:
        patch(rec)
    from bdld import main as bdmain

    uncaught = None
    code = 0
    try:
        bdmain.main()
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 0xFF
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException as e:
        uncaught = f"{type(e).__name__}: {e}"
        traceback.print_exc()
        code = 1
    try:
        if observe:
            _finish(rec)
        if collect:
            rec["collected"] = collect(captured)
    except Exception:
        harness = traceback.format_exc()
    rec.pop("lds", None)
    with open(f_rec + ".tmp", "wb") as f:
        pickle.dump({"rec": rec, "uncaught": uncaught, "harness": harness}, f)
    os.rename(f_rec + ".tmp", f_rec)
    sys.stdout.flush()
    sys.stderr.flush()
    return code


def _capture(captured):
    """Remember every constructed component, by class name"""
    from bdld import potential
    from bdld.actions import (
        birth_death,
        bussi_parinello_ld,
        delta_f_action,
        fes_action,
        histogram_action,
        overdamped_ld,
        particle_distribution,
        trajectory_action,
    )

    classes = [
        potential.polynomial.PolynomialPotential,
        potential.mueller_brown.MuellerBrownPotential,
        birth_death.BirthDeath,
        bussi_parinello_ld.BussiParinelloLD,
        overdamped_ld.OverdampedLD,
        trajectory_action.TrajectoryAction,
        histogram_action.HistogramAction,
        fes_action.FesAction,
        delta_f_action.DeltaFAction,
        particle_distribution.ParticleDistributionAction,
    ]

    def wrap(cls):
        orig = cls.__init__

        def init(self, *args, **kwargs):
            orig(self, *args, **kwargs)
            if type(self).__name__ == cls.__name__:
                captured.setdefault(cls.__name__, []).append(self)

        cls.__init__ = init

    for cls in classes:
        wrap(cls)


WRAPPER = """
import sys, runpy
sys.dont_write_bytecode = True
repo, vendor, how = sys.argv[1:4]
sys.path.insert(0, repo)
import bdld
bdld.__path__.append(vendor)
sys.argv = ["bdld"] + sys.argv[4:]
if how == "module":
    runpy.run_module("bdld", run_name="__main__", alter_sys=True)
else:
    runpy.run_path(how, run_name="__main__")
"""


def run_process(cwd, argv=("input",), how="module"):
    """Run the real entry points (python -m bdld, bin/bdld_run) in a new interpreter"""
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", WRAPPER, REPO,
             os.path.join(VERIF, "vendor", "bdld"), how, *argv],
            cwd=cwd, env=env, stdin=subprocess.DEVNULL, capture_output=True, timeout=90,
        )
    except subprocess.TimeoutExpired as e:
        v = Violation(f"the program does not end: {e}")
        v.hang = True
        raise v from e
    return Result(
        p.returncode,
        p.stdout.decode(errors="replace"),
        p.stderr.decode(errors="replace"),
        None,
        None,
    )


def listing(path):
    """All files below path with their content"""
    res = {}
    for root, _, files in os.walk(path):
        for f in files:
            full = os.path.join(root, f)
            with open(full, "rb") as fh:
                res[os.path.relpath(full, path)] = fh.read()
    return res
