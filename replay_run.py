"""Evaluate the run-time contracts of one property on the real code.

    replay_run.py PID --repo R --tier T --seed N --budget S --out DIR
    replay_run.py PID --repo R --case FILE        (exit 1 when the case fails)
"""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
CASE_SECONDS = 120


class CaseTimeout(Exception):
    pass


def setup(repo, hints=()):
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from replay import common
    common.load_hints(repo, hints)
    return common.Skip


def run_case(m, case):
    """None when the contract holds, else a message."""
    import numpy as np
    from replay.common import Skip

    def alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(CASE_SECONDS)
    cwd = os.getcwd()
    try:
        with tempfile.TemporaryDirectory(prefix="tkreplay") as d, contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            os.chdir(d)
            try:
                np.random.seed(case.get("seed", 0) % (2 ** 32))
                m.check(case)
            finally:
                os.chdir(cwd)
        return None
    except CaseTimeout:
        return f"the call did not terminate within {CASE_SECONDS} s"
    except Skip:
        return "skip"
    except AssertionError as e:
        return "contract violated: " + str(e)
    except Exception as e:
        return f"unexpected {type(e).__name__}: {e} | " + traceback.format_exc().strip().splitlines()[-3].strip()
    finally:
        signal.alarm(0)


def stream(m, tier, seed):
    """(index, case): the fixed cases, then random ones."""
    import numpy as np
    k = 0
    for c in m.fixed(tier):
        c.setdefault("seed", k + 1)
        yield k, c
        k += 1
    if not hasattr(m, "random_case"):
        return
    while True:
        rng = np.random.default_rng([seed, k])
        c = m.random_case(rng, tier)
        c.setdefault("seed", int(rng.integers(1, 2 ** 31)))
        yield k, c
        k += 1


def worker(pid, repo, tier, seed, deadline, w, n, cap, q, hints=()):
    setup(repo, hints)
    res = {"tried": 0, "kinds": {}, "found": False, "skipped": 0}
    try:
        m = importlib.import_module("replay." + pid.lower())
        for k, c in stream(m, tier, seed):
            if k >= cap or time.time() > deadline:
                break
            if k % n != w:
                continue
            msg = run_case(m, c)
            if msg == "skip":
                res["skipped"] += 1
                continue
            res["tried"] += 1
            res["kinds"][c["kind"]] = res["kinds"].get(c["kind"], 0) + 1
            if msg is not None:
                res.update(found=True, case=c, message=msg, index=k)
                break
    except Exception:
        res["crash"] = traceback.format_exc()[-1500:]
    q.put(res)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=15)
    ap.add_argument("--cap", type=int, default=None)
    ap.add_argument("--out", default=".")
    ap.add_argument("--case")
    ap.add_argument("--hints", type=int, nargs="*", default=[])
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    if a.case:
        setup(a.repo)
        m = importlib.import_module("replay." + a.pid.lower())
        with open(a.case) as f:
            c = json.load(f)["case"]
        msg = run_case(m, c)
        print(json.dumps(c))
        print("contract holds" if msg in (None, "skip") else msg)
        sys.exit(0 if msg in (None, "skip") else 1)
    cap = a.cap or {"quick": 1500, "thorough": 100000}[a.tier]
    deadline = time.time() + a.budget
    q = mp.Queue()
    ps = [mp.Process(target=worker, args=(a.pid, a.repo, a.tier, a.seed, deadline, w, a.jobs, cap, q, a.hints)) for w in range(a.jobs)]
    for p in ps:
        p.start()
    rs = []
    for _ in ps:
        try:
            rs.append(q.get(timeout=max(1, deadline - time.time()) + CASE_SECONDS + 30))
        except Exception:
            break
    for p in ps:
        p.join(2)
        if p.is_alive():
            p.terminate()
    tot = {"found": False, "tried": sum(r["tried"] for r in rs), "kinds": {}, "note": ""}
    for r in rs:
        for k, v in r["kinds"].items():
            tot["kinds"][k] = tot["kinds"].get(k, 0) + v
    crash = [r["crash"] for r in rs if "crash" in r]
    if crash:
        tot["note"] = "run-time contracts crashed: " + crash[0]
    fs = sorted((r for r in rs if r["found"]), key=lambda r: r["index"])
    if fs:
        f = fs[0]
        os.makedirs(a.out, exist_ok=True)
        path = os.path.join(a.out, "failing_case.json")
        with open(path, "w") as fh:
            json.dump({"property": a.pid, "case": f["case"], "message": f["message"]}, fh, indent=1)
        tot.update(found=True, case_name=f["case"]["kind"] + " " + json.dumps(f["case"]), case_file=path, message=f["message"])
    print(json.dumps(tot))


if __name__ == "__main__":
    main()
