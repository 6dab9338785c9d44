"""Entry point: decide one property, replay a case, or self-test the installation"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import boot  # noqa: E402

IDS = [f"C{i:02d}" for i in range(1, 28)]


def load_known():
    path = os.path.join(boot.VERIF, "known_findings.jsonl")
    known = {}
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line:
                e = json.loads(line)
                if e["status"] == "known":
                    known[(e["property"], e["key"])] = e
    return known


def write_replay(pid, payload):
    d = os.path.join(boot.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    js = json.dumps(payload, indent=1, sort_keys=True)
    name = f"{pid}-{payload.get('sub', 'import')}-{hashlib.blake2b(js.encode(), digest_size=4).hexdigest()}.json"
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(js + "\n")
    return path


def load_property(pid):
    return importlib.import_module(f"props.{pid.lower()}").PROP


def report_import_failure(pid, e):
    from core import through_repo

    tb = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    if through_repo(e):
        path = write_replay(pid, {"property": pid, "sub": "import", "message": tb})
        print(f"code under test cannot be imported:\n{tb}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(tb, file=sys.stderr)
    return 2


def decide(pid, tier, seed, jobs, scale, only):
    t0 = time.monotonic()
    try:
        prop = load_property(pid)
    except Exception as e:
        return report_import_failure(pid, e)
    import core

    results = core.run_all(prop, seed, tier, jobs, scale, only)
    known = load_known()
    evaluations = sum(r["evaluations"] for r in results)
    hashes = {(r["sub"], h) for r in results for h in r["hashes"]}
    samples = []
    per_sub = {}
    for r in results:
        d = per_sub.setdefault(
            r["sub"], {"evaluations": 0, "distinct_nontrivial": 0, "labels": {}}
        )
        d["evaluations"] += r["evaluations"]
        for k, v in r["labels"].items():
            d["labels"][k] = d["labels"].get(k, 0) + v
        for s in r["samples"][:2]:
            if sum(1 for x in samples if x["sub"] == r["sub"]) < 2:
                samples.append({"sub": r["sub"], "case": s})
    for sname in per_sub:
        per_sub[sname]["distinct_nontrivial"] = sum(1 for s, _ in hashes if s == sname)
    violations, errors, seen = [], [], set()
    known_hit = {}
    for r in results:
        if r["fail"]:
            if r["sub"] not in seen:  # one report per sub-check
                seen.add(r["sub"])
                violations.append(r)
        elif r["error"]:
            errors.append(r)
        for key, msg in r["known"].items():
            if (pid, key) in known:
                known_hit[key] = msg
            else:
                violations.append(
                    {"sub": r["sub"], "fail": ({"known-key": key}, msg), "shard": 0}
                )
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " | ".join(f"{s.name}: {s.rule}" for s in prop.subs),
            "samples": samples,
            "per_subcheck": per_sub,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    epath = os.path.join(boot.VERIF, "evidence", f"{pid}.json")
    with open(epath + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
    os.replace(epath + ".tmp", epath)

    for key, msg in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={pid} {known[(pid, key)]['what']}")
    for r in violations:
        case, msg = r["fail"]
        path = write_replay(
            pid,
            {"property": pid, "sub": r["sub"], "seed": seed, "message": msg, "case": case},
        )
        print(f"--- {pid}/{r['sub']}: {msg[:3000]}\ncase: {json.dumps(case)[:3000]}")
        print(f"VIOLATION property={pid} replay={path}")
    for r in errors:
        print(f"HARNESS ERROR in {pid}/{r['sub']}:\n{r['error']}", file=sys.stderr)
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct "
        f"non-trivial, {len(violations)} violation(s), {len(errors)} error(s), "
        f"{time.monotonic() - t0:.1f} s"
    )
    if violations:
        return 1
    return 2 if errors else 0


def replay(path):
    with open(path) as f:
        data = json.load(f)
    pid = data["property"]
    try:
        prop = load_property(pid)
    except Exception as e:
        return report_import_failure(pid, e)
    import contextlib
    import core

    for sub in prop.subs:
        if sub.name == data["sub"]:
            out = sys.stdout
            try:
                with open(os.devnull, "w") as null, contextlib.redirect_stdout(null):
                    core.execute(sub, data["case"], core.Rec())
            except core.Violation as e:
                print(e, file=out)
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            except core.Known as e:
                print(f"KNOWN-FINDING: property={pid} {e}")
                return 0
            print("case passes")
            return 0
    print("unknown sub-check", file=sys.stderr)
    return 2


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    import warnings

    warnings.simplefilter("ignore")
    try:
        boot.setup()
    except Exception as e:
        from core import through_repo

        if a.property and through_repo(e):
            return report_import_failure(a.property, e)
        raise
    import numpy as np

    np.seterr(all="ignore")
    if a.selftest:
        for pid in IDS:
            load_property(pid)
        print("ok")
        return 0
    if a.replay:
        return replay(a.replay)
    return decide(a.property, a.tier, a.seed, a.jobs, a.scale, a.only)


if __name__ == "__main__":
    sys.exit(main())
