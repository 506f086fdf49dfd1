"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json

from sim import info

NA = {
    "N01": "Whether accepted proofs are logically sound is a function of the proof text alone: no schedule, clock, fault or history enters, so simulation would only dress input generation. (C08 covers what does depend on schedules and histories, and that corrupted steps are never accepted.)",
    "N02": "Whether operands may be combined is a function of the operands alone; nothing in it depends on a schedule, fault or history.",
    "N03": "Equivalence-preservation of the simplifications is a function of the operand list alone; the simulated checks compare against a model of the documented simplifications but do not decide this property.",
    "N04": "Which strings are accepted as atoms is a function of the string alone; no schedule, fault or history enters.",
    "N05": "What the abbreviations denote on traces is a fixed fact about a handful of constant formulas; the library has no temporal semantics to run, and nothing depends on schedules or faults.",
    "N06": "Does not hold by design and no documentation promises it: operator classes build a new object before the registry is consulted and copies made by pickling are never interned, so there is no guarantee to check. The registry's observable contract is C02.",
}
checks = []
for pid, inf in info.INFO.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
        "technique": "deterministic simulation with fault injection",
        "level": inf["level"],
        "level_note": inf["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 setup_check.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: every seam is installed from outside (see DESIGN.md). check.py <ID> --replay <file> replays a violation.",
}
with open("MANIFEST.json", "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
