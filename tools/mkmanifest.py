""" Writes MANIFEST.json from properties.jsonl and the registered checks. """
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from astaverify import cli  # noqa: E402
from astaverify.checks import common  # noqa: E402

TECH = ("path-sensitive abstract interpretation of the source (custom Python engine: syntax "
        "tree, abstract heap, facts, widening)")
NOTE = ("Every abstract path of the listed entry functions is judged by the stated rules; inputs "
        "are abstract (unknown sizes, elements, results). Bounded by the enumerated shapes of "
        "scenarios recorded in the evidence; trusts the models of numpy, sympy, torch, tensorflow, "
        "oxentiel and the standard library. Undecided scenarios are listed, never reported.")
REASONS = {}


def main():
    cli.load_checks()
    props = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, missing = [], []
    for p in props:
        if p in common.REGISTRY:
            doc = " ".join(" ".join(f.__doc__ or "" for f in common.REGISTRY[p]).split())
            checks.append({
                "property": p,
                "quick_cmd": f"python3 -m astaverify check {p}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 -m astaverify check {p}",
                "technique": TECH,
                "level": "other",
                "level_note": (doc + " " if doc else "") + NOTE,
            })
        else:
            missing.append({"property": p, "reason": REASONS.get(p, "No check is claimed yet.")})
    data = {"version": 1, "setup_cmd": "python3 -c 'import astaverify.cli as c; c.load_checks()'",
            "checks": checks, "not_applicable": missing,
            "notes": "No hooks in /repo. Standard library Python 3.12 only."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as handle:
        json.dump(data, handle, indent=1)
        handle.write("\n")


main()
