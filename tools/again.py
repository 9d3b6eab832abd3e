"""Chooses the harnesses that are also run after another run of themselves (props/again.json): those that stay small.
python3-vt tools/again.py [ids]   (takes a while; the file is committed)"""
import json
import os
import re
import subprocess
import sys
import concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import props  # noqa: E402
from sx.api import REG  # noqa: E402

OUT = os.path.join(HERE, "props", "again.json")
J = int(os.environ.get("J", "6"))


def task(pid, name, ci, timeout):
    env = dict(os.environ, SX_STRICT="1", SX_JOBS="1")
    try:
        r = subprocess.run(["python3-vt", "run.py", pid, "-v", "--harness", name, "--case", str(ci)], cwd=HERE, env=env,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    m = re.search(r"paths=(\d+) .*?wall=([\d.]+)s valid", r.stdout)
    return (r.returncode, int(m[1]), float(m[2]), r.stdout[-600:]) if m else None


def main():
    ids = sys.argv[1:] or props.all_ids()
    done = json.load(open(OUT)) if os.path.exists(OUT) else {}
    for pid in ids:
        done[pid] = []
        with open(OUT, "w") as f:
            json.dump(done, f)
        props.load(pid)
        hs = [h for h in REG[pid] if not h.opts.get("again")]
        first = [(h, i) for h in hs for i in range(len(h.cases))]
        pairs = []
        with cf.ThreadPoolExecutor(J) as ex:
            cost = dict(zip([(h.name, i) for h, i in first], ex.map(lambda t: task(pid, t[0].name, t[1], 30), first)))
        for h in hs:
            n = len(h.cases)
            small = [i for i in range(n) if cost[h.name, i] and cost[h.name, i][1] <= 16
                     and cost[h.name, i][1] * cost[h.name, i][2] <= 30]
            take = small if len(small) <= 5 else [small[k * (len(small) - 1) // 4] for k in range(5)]
            for i in take:
                pairs.append([h.name, i, i])
                j = small[(small.index(i) + 1) % len(small)]
                if j != i:
                    pairs.append([h.name, j, i])
        done[pid] = pairs
        with open(OUT, "w") as f:
            json.dump(done, f)
        idx, seen = [], {}
        for p in pairs:
            idx.append((p, seen.setdefault(p[0], 0)))
            seen[p[0]] += 1
        with cf.ThreadPoolExecutor(J) as ex:
            res = list(ex.map(lambda t: task(pid, t[0][0] + "_again", t[1], 40), idx))
        keep = []
        for (p, _), r in zip(idx, res):
            if r and r[0] == 0 and r[2] <= 15:
                keep.append((r[2], p))
            elif r and r[0] == 1:
                print("FAILS", pid, p, r[3].replace("\n", "\n   "))
            elif r and r[0] == 2 and r[2] <= 15:
                print("no verdict", pid, p, [l for l in r[3].splitlines() if "NO VERDICT" in l][:1])
        keep.sort(key=lambda x: x[0])
        total, out = 0, []
        for w, p in keep:
            if total + w > 160:
                break
            total += w
            out.append(p)
        done[pid] = sorted(out)
        with open(OUT, "w") as f:
            json.dump(done, f)
        print(pid, "candidates", len(pairs), "kept", len(out), f"cpu {total:.0f}s", flush=True)
    with open(OUT, "w") as f:
        f.write("{\n" + ",\n".join(f' "{k}": ' + json.dumps(v) for k, v in sorted(done.items())) + "\n}\n")


main()
