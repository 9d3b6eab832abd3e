#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from table import PROPS, NOT_APPLICABLE  # noqa: E402

PY = "python3-vt"
TECH = "path-wise symbolic execution of the real Python source, assertions decided by z3 over exact reals"
NOTE = ("Within the stated bounds the solver (or exact polynomial normal form, re-confirmed by the solver) decides "
        "every assertion for all inputs; numbers are exact reals, so double rounding is outside the claim. Trusted: "
        "the executor in /verif/sx (validated by replaying solver-chosen inputs on the real code), z3. Every reported "
        "violation is replayed on the unmodified code first.")

checks = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        rec = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        f.write(json.dumps(rec, ensure_ascii=False) + "\n")
        if p["id"] in {n["property"] for n in NOT_APPLICABLE}:
            continue
        if not os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            print("no harness for", p["id"])
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} run.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": TECH,
            "level": "model_checking",
            "level_note": (p.get("note", "") + " " + NOTE).strip(),
        })
man = {
    "version": 1,
    "setup_cmd": f"{PY} tools/selftest.py",
    "hooks": {"guard": "PATHLIB_VERIF", "enable": "no hooks: the checks load the source files of /repo directly",
              "source_commits": []},
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": "See DESIGN.md. known_findings.json lists the recorded and the repaired defects.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
