"""
Writes /verif/MANIFEST.json: every property of properties.jsonl that has a check in the harness is claimed.
"""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -B run.py"
NOTES = {
    "default": "Random search: it shows the absence of violations only among the generated cases. It trusts the reference model "
               "in harness/, numpy and scipy; the bounds and tolerances are in the evidence file's assumptions and DESIGN.md.",
}
TECHNIQUE = {
    "C": "property-based testing against a reference table model",
    "C07": "stateful property-based testing: dense, sparse and reference tables run the same histories",
    "G": "property-based testing against closed form log potentials and moments",
    "M": "property-based testing against sums of reference Gaussians",
    "F": "stateful property-based testing against the joint distribution",
    "N": "property-based testing against a reference sigma point transform and linear Gaussian models",
    "K": "property-based testing of generated models against exact inference",
    "K02": "stateful property-based testing of message schedules with a joint distribution invariant",
    "K07": "stateful property-based testing of single clusters against the belief update algebra",
    "K08": "property-based testing of loopy models against a reference belief propagation and calibration invariants",
    "X": "property-based testing with snapshots, corruptions and statistics as oracles",
}


def main():
    listed = subprocess.run(f"{PY} list", shell=True, cwd=ROOT, capture_output=True, text=True, check=True).stdout
    built = {line.split()[0] for line in listed.strip().split("\n") if line}
    checks, missing = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as handle:
        for line in handle:
            pid = json.loads(line)["id"]
            if pid not in built:
                missing.append({"property": pid, "reason": "the check is not built yet"})
                continue
            checks.append({
                "property": pid,
                "quick_cmd": f"{PY} check {pid}",
                "thorough_cmd": f"env VERIF_TIER=thorough {PY} check {pid}",
                "technique": TECHNIQUE.get(pid, TECHNIQUE[pid[0]]),
                "level": "exploration",
                "level_note": NOTES.get(pid, NOTES["default"]),
            })
    manifest = {
        "version": 1,
        "setup_cmd": f"{PY} list",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Pure Python: nothing is built; every run imports veroku from /repo's working tree. VERIF_TIER=thorough selects "
                 "the deeper exploration of the same command. No hooks in /repo are needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


if __name__ == "__main__":
    main()
