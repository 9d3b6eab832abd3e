"""Replay concrete inputs on the real code: reads jobs as JSON lines on stdin, answers on stdout."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from sx import concrete  # noqa: E402
from sx.api import REG  # noqa: E402
import props  # noqa: E402


def main():
    concrete.setup_path()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        job = json.loads(line)
        props.load(job["property"])
        h = next(x for x in REG[job["property"]] if x.name == job["harness"])
        cases = h.cases + h.thorough
        case = cases[job["case"]]
        pid = os.fork()
        if pid == 0:
            r, w = None, None
            import signal
            signal.alarm(int(job.get("timeout", 60)))
            try:
                if "search" in job:
                    q = job["search"]
                    res = concrete.search(h, case, q["starts"], job["choices"], q["seed"], q["seconds"], q["tries"])
                elif "persist" in job:
                    ok = concrete.persists(h, case, dict(job, label=job["persist"]))
                    res = {"outcome": "fail" if ok else "pass"}
                else:
                    res = concrete.run_concrete(h, case, job["values"], job["choices"], job.get("tol", 1e-6),
                                                job.get("fill"))
            except BaseException as e:  # noqa
                res = {"outcome": "error", "detail": repr(e)}
            out.write(json.dumps(res) + "\n")
            out.flush()
            os._exit(0)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            out.write(json.dumps({"outcome": "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == 14 else "error",
                                  "detail": f"status {st}"}) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
