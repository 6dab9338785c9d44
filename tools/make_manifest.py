"""Write MANIFEST.json (run by hand when the set of checks changes)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "C01": "generated input files (grammar over all documented options, DEFAULT, notation) against a model of every option; differential and metamorphic whole-program runs",
    "C02": "single-fault mutation of generated valid input files; oracle: exit status, message, no step",
    "C03": "generated coefficients, files and positions against an exact reference polynomial",
    "C04": "generated positions and instance histories against the closed form; metamorphic scaling",
    "C05": "generated potentials and grids against exp(-E/kT) per coordinate",
    "C06": "generated coordinates and whole runs against a per-coordinate model of the boundary",
    "C07": "recovery of the integrator's random numbers from generated runs, statistical tests; exact deterministic limits and paired runs",
    "C08": "recovery of the integrator's random numbers from generated runs, statistical tests; paired runs",
    "C09": "stateful model-based generation of operation histories against a list model",
    "C10": "generated particle sets and histories; replay of reported events on a snapshot",
    "C11": "generated particle sets against an independent rate formula; metamorphic relations",
    "C12": "generated situations x many random outcomes against exactly enumerated event distributions",
    "C13": "generated strides and run lengths; recount of attempts and events",
    "C14": "generated walkers and bandwidths against direct kernel sums; metamorphic relations",
    "C15": "generated densities and bandwidths against direct convolution sums",
    "C16": "generated grids and operations against per-index models",
    "C17": "generated ranges, steps, data against direct reference computations",
    "C18": "generated strides/write strides/flushes; files against the full position history",
    "C19": "generated histories; files and counts against a recount of all positions",
    "C20": "generated histories; surfaces and intercepted plots against -kT log(counts)",
    "C21": "generated histories and states; files against recomputed probability ratios",
    "C22": "generated histories and states; files against recounts",
    "C23": "paired whole-program runs of generated inputs, byte comparison; changed seeds",
    "C24": "paired whole-program runs of generated inputs that differ only in output, bitwise comparison",
    "C25": "generated placements against exact rational shares and statistical tests",
    "C26": "generated sequences of (also interrupted) runs in one directory; header model",
    "C27": "generated grids written and read back",
}
NOTE = (
    "Search over generated cases: no violation found within the case counts of the evidence file. "
    "Trusts the reference models in vf/, Hypothesis, numpy/scipy and (as bdld/helpers is an empty "
    "submodule in /repo) the helpers of the project's own release in vendor/."
)
STAT = " Random outcomes are judged by tests that reject only at p < 1e-9 each."

checks = []
for pid in sorted(TECH):
    checks.append({
        "property": pid,
        "quick_cmd": f"bash run.sh {pid}",
        "thorough_cmd": f"bash run.sh {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": "property-based testing: " + TECH[pid],
        "level": "exploration",
        "level_note": NOTE + (STAT if pid in ("C07", "C08", "C12", "C25") else ""),
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed through public functions, wrapped in "
        "the checking process. Repairs of defects are the fix: commits in /repo, listed in "
        "known_findings.jsonl.",
    }, f, indent=1)
    f.write("\n")
