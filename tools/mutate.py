"""Sensitivity sweep: mutate /repo's sources (in copies) and see which checks notice

usage: mutate.py OUT.jsonl [--workers N] [--scale S] [--files a.py,b.py] [--every K] [--again PREV]
Nothing here is used by the registered checks.
"""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import threading
import time

MAP = {
    "inputparser.py": ["C01", "C02"],
    "main.py": ["C01", "C02", "C25", "C23", "C21", "C11", "C12", "C20", "C03"],
    "grid.py": ["C16", "C17", "C27", "C15", "C05"],
    "histogram.py": ["C19", "C16", "C27"],
    "particle.py": ["C09", "C10", "C25"],
    "tools.py": ["C22", "C21"],
    "action.py": ["C18", "C19", "C22"],
    "birth_death.py": ["C10", "C13", "C14", "C15", "C11", "C12", "C26", "C23"],
    "bussi_parinello_ld.py": ["C07", "C09", "C06", "C23"],
    "overdamped_ld.py": ["C08", "C09", "C06", "C23"],
    "delta_f_action.py": ["C21", "C26", "C01"],
    "fes_action.py": ["C20", "C26", "C21", "C01"],
    "histogram_action.py": ["C19", "C26", "C01"],
    "particle_distribution.py": ["C22", "C26", "C01"],
    "trajectory_action.py": ["C18", "C26", "C19", "C01"],
    "mueller_brown.py": ["C04", "C05", "C01"],
    "polynomial.py": ["C03", "C05", "C01"],
    "potential.py": ["C05", "C06", "C03"],
}

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE],
       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn],
       ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult],
       ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}


def is_print(node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and (
        ast.unparse(node.value.func) in ("print",) or ast.unparse(node.value.func).startswith(
            ("logging.", "log.")))


def mutants(src):
    """Yield (description, source)"""
    tree = ast.parse(src)
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and \
                isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            skip.add(id(node.body[0]))
        if isinstance(node, (ast.AnnAssign, ast.arg)) and node.annotation is not None:
            for x in ast.walk(node.annotation):
                skip.add(id(x))
        if isinstance(node, ast.FunctionDef) and node.returns is not None:
            for x in ast.walk(node.returns):
                skip.add(id(x))
        if is_print(node) or isinstance(node, (ast.JoinedStr, ast.Import, ast.ImportFrom, ast.Raise)):
            for x in ast.walk(node):
                skip.add(id(x))
    nodes = [n for n in ast.walk(tree) if id(n) not in skip]

    def emit(desc, node):
        return f"line {getattr(node, 'lineno', 0)}: {desc}", ast.unparse(tree)

    for n in nodes:
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    old = ast.unparse(n)
                    n.ops[i] = new()
                    yield emit(f"{old} -> {ast.unparse(n)}", n)
                    n.ops[i] = op
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for new in BIN.get(type(n.op), []):
                old, op = ast.unparse(n), n.op
                n.op = new()
                yield emit(f"{old} -> {ast.unparse(n)}", n)
                n.op = op
        elif isinstance(n, ast.BoolOp):
            old, op = ast.unparse(n), n.op
            n.op = ast.Or() if isinstance(op, ast.And) else ast.And()
            yield emit(f"{old} -> {ast.unparse(n)}", n)
            n.op = op
            vals = n.values
            for i in range(len(vals)):
                n.values = vals[:i] + vals[i + 1:] + ([vals[1 - i]] if len(vals) == 2 else [])
                yield emit(f"{old} without operand {i}", n)
            n.values = vals
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            if isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant) and False:
                continue
            old, op = ast.unparse(n), n.op
            n.op = ast.UAdd() if isinstance(op, ast.USub) else ast.Not()
            if isinstance(op, ast.Not):
                operand = n.operand
                n.operand = ast.UnaryOp(ast.Not(), operand)
                yield emit(f"{old} -> negated", n)
                n.operand = operand
            else:
                yield emit(f"{old} -> sign", n)
            n.op = op
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                alt = [not v]
            elif isinstance(v, int):
                alt = [v + 1] + ([v - 1] if v > 0 else [])
            elif isinstance(v, float):
                alt = [v * 1.1 + (0.1 if v == 0 else 0)]
            else:
                continue
            for a in alt:
                n.value = a
                yield emit(f"constant {v!r} -> {a!r}", n)
            n.value = v
        elif isinstance(n, ast.If):
            t = n.test
            n.test = ast.UnaryOp(ast.Not(), t)
            yield emit(f"if not {ast.unparse(t)}", n)
            n.test = t
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            a = n.args
            n.args = [a[1], a[0]] + a[2:]
            yield emit(f"{ast.unparse(n)}: swapped arguments", n)
            n.args = a
    # statement deletion
    for parent in ast.walk(tree):
        for field in ("body", "orelse"):
            body = getattr(parent, field, None)
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if id(s) in skip or is_print(s):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign)) or (
                        isinstance(s, (ast.Break, ast.Continue))):
                    if isinstance(parent, (ast.Module, ast.ClassDef)):
                        continue
                    body[i] = ast.Pass()
                    yield emit(f"deleted: {ast.unparse(s)[:100]}", s)
                    body[i] = s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--scale", type=float, default=0.4)
    ap.add_argument("--files")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--again", help="only the survivors of this result file")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    repo = "/repo"
    todo = []
    again = None
    if a.again:
        with open(a.again) as f:
            again = {(r["file"], r["what"]) for r in map(json.loads, f) if r["killed_by"] is None}
    for root, _, files in os.walk(os.path.join(repo, "bdld")):
        for fn in sorted(files):
            if fn not in MAP or (a.files and fn not in a.files.split(",")):
                continue
            path = os.path.join(root, fn)
            with open(path) as f:
                src = f.read()
            k = 0
            for desc, text in mutants(src):
                k += 1
                if k % a.every:
                    continue
                rel = os.path.relpath(path, repo)
                if again is not None and (rel, desc) not in again:
                    continue
                todo.append((rel, fn, desc, text))
    print(len(todo), "mutants", flush=True)
    if a.list:
        for t in todo:
            print(t[0], t[2])
        return
    lock = threading.Lock()
    base = f"/tmp/mut-{os.getpid()}"
    out = open(a.out, "a")
    done = set()
    if os.path.getsize(a.out):
        with open(a.out) as f:
            done = {(r["file"], r["what"]) for r in map(json.loads, f)}
    queue = [t for t in todo if (t[0], t[2]) not in done]

    def worker(k):
        w = os.path.join(base, f"w{k}")
        os.makedirs(w)
        shutil.copytree(repo, f"{w}/repo", ignore=shutil.ignore_patterns(".git"))
        shutil.copytree("/verif", f"{w}/verif", ignore=shutil.ignore_patterns(
            ".git", "evidence", "replays", "seeded"))
        env = dict(os.environ, VF_REPO=f"{w}/repo", VF_FAST="1", VERIF_SEED="11", TMPDIR=w)
        while True:
            with lock:
                if not queue:
                    return
                rel, fn, desc, text = queue.pop(0)
            target = f"{w}/repo/{rel}"
            with open(target) as f:
                orig = f.read()
            killed, codes = None, {}
            t0 = time.time()
            try:
                with open(target, "w") as f:
                    f.write(text)
                p = subprocess.run(
                    ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                     "test/test_particle.py"],
                    cwd=f"{w}/repo", capture_output=True, env=env)
                if p.returncode:
                    killed = "tests"
                else:
                    for pid in MAP[fn]:
                        try:
                            p = subprocess.run(
                                ["bash", f"{w}/verif/run.sh", pid, "--jobs", str(a.jobs), "--scale",
                                 str(a.scale)], capture_output=True, text=True, env=env,
                                timeout=400)
                            codes[pid] = p.returncode
                        except subprocess.TimeoutExpired:
                            codes[pid] = "timeout"
                            subprocess.run(["pkill", "-f", f"{w}/verif"])
                        if codes[pid] == 1:
                            killed = pid
                            break
            finally:
                with open(target, "w") as f:
                    f.write(orig)
            with lock:
                out.write(json.dumps({"file": rel, "what": desc, "killed_by": killed,
                                      "codes": codes, "s": round(time.time() - t0, 1)}) + "\n")
                out.flush()

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
