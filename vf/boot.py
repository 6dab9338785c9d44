"""Paths and imports: the code under test from /repo, hypothesis from the wheelhouse

* /repo is first on sys.path, nothing is ever cached from it (no pyc is read or written)
* bdld.helpers is a git submodule that is empty in /repo. If it is populated it is used,
  otherwise the copy shipped in the project's own 0.3.2 release (vendor/) stands in
* hypothesis is unpacked from the offline wheelhouse into .deps (or taken from the
  tooling venv as a fall-back)
"""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"


def _unpack_deps():
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    wheels = "/opt/veriftools/wheels"
    want = []
    for pat in (f"hypothesis-*-{tag}-*.whl", "hypothesis-*-py3-none-any.whl"):
        want = want or sorted(glob.glob(os.path.join(wheels, pat)))[-1:]
    if not want:
        return False
    for dep in ("sortedcontainers", "attrs"):
        want += sorted(glob.glob(os.path.join(wheels, f"{dep}-*.whl")))[-1:]
    tmp = tempfile.mkdtemp(prefix=".deps-", dir=VERIF)
    try:
        for whl in want:
            with zipfile.ZipFile(whl) as z:
                z.extractall(tmp)
        try:
            os.rename(tmp, DEPS)
        except OSError:  # somebody else was faster
            shutil.rmtree(tmp, ignore_errors=True)
    except Exception:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return True


def setup():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        try:
            _unpack_deps()
        except Exception:
            pass
    if os.path.isdir(os.path.join(DEPS, "hypothesis")):
        sys.path.append(DEPS)
    else:
        sys.path.append(TOOL_SITE)
    import bdld

    got = os.path.dirname(os.path.abspath(bdld.__file__))
    want = os.path.join(REPO, "bdld")
    if got != want:
        raise RuntimeError(f"bdld is imported from {got} and not from {want}")
    # /repo/bdld/helpers wins if it is a real package, else the vendored release copy
    bdld.__path__.append(os.path.join(VERIF, "vendor", "bdld"))
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        if TOOL_SITE not in sys.path:
            sys.path.append(TOOL_SITE)
        import hypothesis  # noqa: F401
