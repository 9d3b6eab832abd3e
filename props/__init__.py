"""Harness modules, one per property: props/<id>.py."""
import importlib
import json
import os

LOADED = set()
HERE = os.path.dirname(os.path.abspath(__file__))


def load(pid):
    if pid in LOADED:
        return
    LOADED.add(pid)
    importlib.import_module("props." + pid.lower())
    again(pid)


def again(pid):
    """Harnesses run a second time after a first time with inputs of its own, in the same world: what was asked before must
    make no difference.  again.json lists [harness, first case, second case]."""
    from sx.api import REG, H
    with open(os.path.join(HERE, "again.json")) as f:
        pairs = json.load(f).get(pid, [])
    for h in list(REG[pid]):
        cases = [(i, j) for name, i, j in pairs if name == h.name]
        if cases:
            REG[pid].append(H(pid, twice(h), cases, [], dict(h.opts, again=True, witnesses=1)))
            REG[pid][-1].name = h.name + "_again"


def twice(h):
    def fn(S, case):
        i, j = case
        S.prefix, S.quiet = "first.", True
        h.fn(S, h.cases[i])
        S.prefix, S.quiet = "", False
        h.fn(S, h.cases[j])
    fn.__name__ = h.name + "_again"
    return fn


def all_ids():
    return sorted(f[:-3].upper() for f in os.listdir(HERE) if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py"))
