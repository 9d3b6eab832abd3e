#!/usr/bin/env python3
"""Decide one property:  python3-vt run.py C01  [--harness NAME] [--case N] [-v]
                         python3-vt run.py --replay evidence/replays/FILE.json
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: no verdict.
"""
import argparse
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

REAL_PY = os.environ.get("REAL_PYTHON") or ("/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python")
                                            else sys.executable)


class Replayer:
    """Runs inputs on the real code in a separate interpreter."""

    def __init__(self):
        self.p = None
        self.n = 0
        self.busy = False

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen([REAL_PY, os.path.join(HERE, "sx", "replay.py")], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=HERE)

    def __call__(self, job):
        self.busy = True
        try:
            return self.ask(job)
        finally:
            self.busy = False

    def ask(self, job):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.n += 1
        self.p.stdin.write(json.dumps(job) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            return {"outcome": "error", "detail": "replayer died"}
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def worker(pid, name, ci, tier, seed, budget, path):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from sx.api import REG
    from sx.symbolic import Task
    import props
    props.load(pid)
    h = next(x for x in REG[pid] if x.name == name)
    rep = Replayer()
    t = Task(pid, h, ci, rep, tier, seed, budget)
    try:
        t.run()
        res = t.result()
    except MemoryError:
        res = {"harness": name, "case": ci, "fatal": "out of memory"}
    except BaseException as e:
        import traceback
        res = {"harness": name, "case": ci, "fatal": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]}
    with open(path + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(path + ".tmp", path)
    rep.close()
    os._exit(0)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--harness")
    ap.add_argument("--case", type=int)
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        rep = Replayer()
        res = rep(rec["job"])
        print(json.dumps(res))
        sys.exit(1 if res["outcome"] == "fail" else 0)
    pid = a.pid.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import props
    from sx.api import REG
    props.load(pid)
    mod = sys.modules["props." + pid.lower()]
    tasks = []
    for h in REG[pid]:
        if a.harness and h.name != a.harness:
            continue
        n = len(h.cases) + (len(h.thorough) if tier == "thorough" else 0)
        for ci in range(n):
            if a.case is not None and ci != a.case:
                continue
            tasks.append((h, ci))
    tasks.sort(key=lambda t: -t[0].opts.get("weight", 1))
    limit = 780 if tier == "quick" else 6 * 3600
    budget = (getattr(mod, "BUDGET", 300) if tier == "quick" else getattr(mod, "THOROUGH_BUDGET", 3600))
    tmp = os.path.join(HERE, "evidence", f".work-{pid}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    ctx = mp.get_context("fork")
    running = {}
    results = []
    queue = list(enumerate(tasks))
    stop = False
    try:
        while queue or running:
            while queue and len(running) < a.jobs and not stop:
                i, (h, ci) = queue.pop(0)
                path = os.path.join(tmp, f"{i}.json")
                p = ctx.Process(target=worker, args=(pid, h.name, ci, tier, seed, budget, path), daemon=True)
                p.start()
                running[i] = (p, h, ci, path, time.time())
            for i in list(running):
                p, h, ci, path, st = running[i]
                if os.path.exists(path):
                    with open(path) as f:
                        r = json.load(f)
                    p.join(5)
                elif not p.is_alive():
                    time.sleep(0.05)
                    if os.path.exists(path):
                        continue
                    r = {"harness": h.name, "case": ci, "fatal": f"worker ended with {p.exitcode}"}
                elif time.time() - st > budget + 60 or time.time() - t0 > limit:
                    p.kill()
                    p.join()
                    r = {"harness": h.name, "case": ci, "fatal": "time limit"}
                else:
                    continue
                results.append(r)
                del running[i]
                if a.v:
                    report(r)
                if r.get("violation") and not os.environ.get("SX_ALL"):
                    stop = True
            if stop or time.time() - t0 > limit:
                if time.time() - t0 > limit:
                    for _, (h, ci) in queue:
                        results.append({"harness": h.name, "case": ci, "fatal": "time limit"})
                for i in list(running):
                    running[i][0].kill()
                    running[i][0].join()
                queue = []
                if not stop:
                    for i in running:
                        results.append({"harness": running[i][1].name, "case": running[i][2], "fatal": "time limit"})
                running = {}
            time.sleep(0.01)
    finally:
        for i in list(running):
            running[i][0].kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)
    finish(pid, tier, seed, t0, mod, results, len(tasks), partial=bool(a.harness or a.case is not None))


def report(r):
    if "fatal" in r:
        print(f"  {r['harness']}[{r['case']}] FATAL {r['fatal']}\n{r.get('tb', '')}")
        return
    s = r["stats"]
    print(f"  {r['harness']}[{r['case_repr']}] paths={s['paths']} forks={s['forks']} obl={s['obligations']} "
          f"triv={s['trivial']}({s['confirmed']}) q={s['queries']} feas={s['feas']} solver={s['solver_s']}s wall={r['wall_s']}s "
          f"valid={r['validated']}/{s['witness']}")
    if r["violation"]:
        print("    VIOL", json.dumps(r["violation"])[:1500])
    for k in ("unconfirmed", "inconclusive", "unwitnessed"):
        if r[k]:
            print("   ", k, r[k])
    for m in r["mismatch"]:
        print("    mismatch", json.dumps(m)[:700])


def finish(pid, tier, seed, t0, mod, results, ntasks, partial):
    ok = [r for r in results if "fatal" not in r]
    fatal = [r for r in results if "fatal" in r]
    tot = {k: sum(r["stats"][k] for r in ok) for k in
           ("paths", "forks", "queries", "feas", "solver_s", "obligations", "discharged", "trivial", "unknown",
            "witness", "confirmed")} if ok else {}
    viol = [r for r in ok if r["violation"]]
    incon = [(r["harness"], r["case"], x) for r in ok for x in r["inconclusive"]]
    unconf = [(r["harness"], r["case"], x) for r in ok for x in r["unconfirmed"]]
    vac = []
    labels = {}
    reached = set()
    for r in ok:
        for l, d in r["labels"].items():
            key = r["harness"] + ":" + l
            e = labels.setdefault(key, {"obligations": 0, "discharged": 0, "paths": 0})
            for k in e:
                e[k] += d[k]
            if l not in r["unwitnessed"]:
                reached.add(key)
    vac = sorted(set(labels) - reached)
    mism = sum(r["nmismatch"] for r in ok)
    funcs = sorted({f for r in ok for f in r["funcs"]})
    samples = [s for r in ok for s in r["samples"]][:12]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("paths", 0), "transitions": tot.get("forks", 0),
            "traces_validated_against_impl": sum(r["validated"] for r in ok),
            "samples": samples or ["none"],
            "tasks": ntasks, "obligations": tot.get("obligations", 0), "discharged": tot.get("discharged", 0),
            "closed_by_polynomial_normal_form": tot.get("trivial", 0),
            "of_those_reconfirmed_by_the_solver": tot.get("confirmed", 0),
            "solver_queries": tot.get("queries", 0), "feasibility_queries": tot.get("feas", 0),
            "solver_s": round(tot.get("solver_s", 0), 2), "unknown": tot.get("unknown", 0),
            "longest_path_s": max([r["longest_path_s"] for r in ok] or [0]),
            "reachability_witnesses": tot.get("witness", 0), "trace_mismatches": mism,
            "assertions": dict(list(labels.items())[:150]),
            "functions_encoded": funcs[:150],
            "bounds": getattr(mod, "BOUNDS", ""),
            "inconclusive": [list(map(str, x)) for x in (incon + unconf)[:20]]
                            + [[r["harness"], str(r["case"]), r["fatal"]] for r in fatal[:20]],
            "meaning": "states = symbolic paths completed or cut, transitions = branch decisions explored; "
                       "every obligation is a solver query over all inputs of its path (or closed by exact "
                       "polynomial normalisation)",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "numbers are exact reals: rounding of double arithmetic is outside the claim",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not partial:
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    code = 0
    for k in known_findings():
        if k["property"] == pid and k.get("status") == "known":
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if viol:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for n, r in enumerate(viol):
            path = os.path.join(d, f"{pid}-{n}.json")
            with open(path, "w") as f:
                json.dump(r["violation"], f, indent=1)
            v = r["violation"]
            print(f"{pid}: {r['harness']} [{r['case_repr']}] assertion {v['label']!r} fails on the real code: "
                  f"{v['result'].get('detail')}")
            print(f"  inputs: {json.dumps(v['job']['values'])} choices: {json.dumps(v['job']['choices'])}")
            print(f"VIOLATION property={pid} replay={path}")
        code = 1
    elif fatal or incon or unconf or (vac and not partial) or not ok:
        # Parts without a verdict are listed here and in the evidence.  The exit code is 2 when they are the
        # larger part (or in strict mode, which is how the unchanged tree is checked), else 0: what was
        # explored held.
        bad = {(r["harness"], r["case"]) for r in fatal} | {(h, c) for h, c, _ in incon + unconf}
        # a task cut short by its bound on paths or time still decided everything up to there
        cut = {(r["harness"], r["case"]) for r in ok if r["inconclusive"] and not r["unconfirmed"]
               and set(r["inconclusive"]) <= {"path bound reached", "time budget reached"} and r["stats"]["discharged"]}
        # (runs of a harness after another run of it come on top)
        bad = {x for x in bad if not x[0].endswith("_again")}
        nfirst = ntasks - sum(h["harness"].endswith("_again") for h in results)
        weak = len(bad - cut) * 2 >= max(nfirst, 1) or not ok or not tot.get("discharged")
        for r in fatal:
            print(f"{pid}: NO VERDICT {r['harness']}[{r['case']}] {r['fatal']} {r.get('tb', '')[-600:]}")
        for x in incon + unconf:
            print(f"{pid}: NO VERDICT {x[0]}[{x[1]}] {x[2]}")
        for x in vac:
            print(f"{pid}: NO VERDICT assertion never shown reachable: {x}")
        code = 2 if weak or os.environ.get("SX_STRICT") else 0
    print(f"{pid}: tasks={ntasks} paths={tot.get('paths', 0)} obligations={tot.get('obligations', 0)} "
          f"discharged={tot.get('discharged', 0)} queries={tot.get('queries', 0)}+{tot.get('feas', 0)} "
          f"solver={tot.get('solver_s', 0):.1f}s validated={ev['coverage']['traces_validated_against_impl']} "
          f"mismatches={mism} wall={ev['wall_s']}s exit={code}")
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
