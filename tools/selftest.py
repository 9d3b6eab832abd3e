#!/usr/bin/env python3
"""Setup step: checks that the solver, the executor and the replayer work in this sandbox."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import z3  # noqa: E402

from sx import engine as E  # noqa: E402
from sx.engine import Engine, Stats  # noqa: E402

E.CUR = e = Engine([], {}, Stats())
x, y = e.input_real("x"), e.input_real("y")
assert e.solve([E.cmp_f((x + y) * (x + y), x * x + y * y - 1, "lt")], 5000)[0] == "sat"
assert e.solve([E.cmp_f(x * x + y * y, E.ZERO_N, "lt")], 5000)[0] == "unsat"
h = e.sqrt(x * x + y * y + 1)
assert E.cmp_f(h * h, x * x + y * y + 1, "eq")[0] == "T"
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
