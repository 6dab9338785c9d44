"""Run checks against the planted bugs (in copies of /repo) and print which catch which

usage: seeded.py [--all] [--workers N] [--jobs J] [ID...]
--all runs every check against every bug, otherwise only the one of its property.
Nothing here is used by the registered checks.
"""
import argparse
import json
import os
import shutil
import subprocess
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--scale", default="1", help="of the checks of other properties")
    ap.add_argument("--fast", action="store_true")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(f"{VERIF}/seeded"))
    base = f"/tmp/seeded-{os.getpid()}"
    queue, lock = list(ids), threading.Lock()

    def worker(k):
        w = f"{base}/w{k}"
        os.makedirs(w)
        shutil.copytree(VERIF, f"{w}/verif", ignore=shutil.ignore_patterns(
            ".git", "evidence", "replays", "seeded"))
        while True:
            with lock:
                if not queue:
                    return
                sid = queue.pop(0)
            subprocess.run(["git", "clone", "-q", "/repo", f"{w}/repo"], check=True)
            subprocess.run(["git", "-C", f"{w}/repo", "apply", f"{VERIF}/seeded/{sid}/patch.diff"],
                           check=True)
            prop = json.load(open(f"{VERIF}/seeded/{sid}/meta.json"))["property"]
            pids = [f"C{i:02d}" for i in range(1, 28)] if a.all else [prop]
            env = dict(os.environ, VF_REPO=f"{w}/repo", VERIF_SEED="1", TMPDIR=w)
            if a.fast:
                env["VF_FAST"] = "1"
            caught, other, t0 = [], [], time.time()
            for pid in pids:
                p = subprocess.run(["bash", f"{w}/verif/run.sh", pid, "--jobs", str(a.jobs),
                                    "--scale", "1" if pid == prop else a.scale],
                                   env=env, capture_output=True, text=True)
                if p.returncode == 1 and f"VIOLATION property={pid}" in p.stdout:
                    caught.append(pid)
                elif p.returncode:
                    other.append((pid, p.returncode, p.stderr[-500:]))
            shutil.rmtree(f"{w}/repo")
            with lock:
                print("caught" if prop in caught else "MISSED", sid, prop, "by", *caught,
                      f"{time.time() - t0:.0f}s", *other, flush=True)

    ts = [threading.Thread(target=worker, args=(k,)) for k in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    shutil.rmtree(base)


if __name__ == "__main__":
    main()
