#!/opt/veriftools/pyvenv/bin/python
"""Decide one property:  check.py <ID> [--tier quick|thorough]

1. Every goal (contract) of the property is verified against the present source of
   /repo: the real function bodies are executed symbolically and every obligation
   is discharged by the term normaliser or z3.
2. The same contracts are evaluated at run time on the real code with concrete
   inputs (bounded; replay/<id>.py).  When an obligation failed this is the search
   for a failing input; when the verifier could not decide an obligation it is the
   bounded stand-in; otherwise it cross-checks the verifier against CPython.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import re
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("TENKIT_REPO", "/repo")
RUNPY = "/opt/venv/bin/python"
OUT = os.environ.get("VERIF_OUT") or os.path.join(HERE, "out")
EVIDENCE = os.path.join(OUT, "evidence") if os.environ.get("VERIF_OUT") else os.path.join(HERE, "evidence")


def run_one(args):
    modname, gi, tier = args
    from pyver import verify, interp
    m = importlib.import_module("specs." + modname)
    g = goals_of(m, tier)[gi]
    t0 = time.time()

    def on_alarm(*_):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(int(g.timeout if tier == "quick" else 4 * g.timeout))
    try:
        r = verify.run_goal(g.name, g.fn, interp.Repo(REPO), contracts=g.contracts, limit=g.limit)
        d = dict(name=g.name, obligations=[{k: str(o[k]) if k == "model" and o[k] is not None else o[k] for k in ("name", "ok", "how", "cond", "model")}
                                           for o in r.obligations],
                 paths=r.paths, infeasible=r.infeasible, vacuous=r.vacuous, unsupported=sorted(set(r.unsupported)),
                 definedness=sorted({f"{a} at {b}: {c}" for a, b, c in r.definedness}), definedness_ok=r.definedness_ok,
                 executed=sorted(r.executed), externals=sorted(r.externals), contracts=sorted(r.used_contracts),
                 assumed=sorted(set(map(str, r.assumed))), time=r.time, solver=r.solver_time)
    except TimeoutError:
        d = failed_goal(g, "time limit of the goal", t0)
    except Exception as e:           # an engine defect must not look like a violation
        d = failed_goal(g, f"engine error {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", t0)
    finally:
        signal.alarm(0)
    return d


def failed_goal(g, why, t0):
    return dict(name=g.name, obligations=[], paths=0, infeasible=0, vacuous=0, unsupported=[why], definedness=[], definedness_ok=0,
                executed=[], externals=[], contracts=[], assumed=[], time=time.time() - t0, solver=0.0)


def _child(conn, task):
    conn.send(run_one(task))
    conn.close()


def run_goals(order, goals, tier, jobs):
    """Every goal in a process of its own, which is ended when the goal's time is up (Z3 does not always honour its
    resource limit); goals not reached within the time of the whole check are undecided."""
    from pyver import verify, interp, z3back  # noqa: loaded once, before the forks
    ctx = mp.get_context("fork")
    t0, total = time.time(), {"quick": 540, "thorough": 3000}[tier]
    pending, running, res = list(order), {}, []
    while pending or running:
        while pending and len(running) < jobs and time.time() - t0 < total:
            task = pending.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, task), daemon=True)
            p.start()
            w.close()
            running[r] = (p, goals[task[1]], time.time())
        if time.time() - t0 >= total:
            res += [failed_goal(goals[t[1]], "time limit of the check", time.time()) for t in pending]
            pending = []
        for r in mpc.wait(list(running), timeout=1):
            p, g, t1 = running.pop(r)
            try:
                res.append(r.recv())
                if tier == "quick" and any(not o["ok"] for o in res[-1]["obligations"]):
                    total = min(total, 300)      # the verdict needs no more goals
            except EOFError:
                res.append(failed_goal(g, "the process of the goal ended without a result", t1))
            r.close()
            p.join()
        for r, (p, g, t1) in list(running.items()):
            if time.time() - t1 > (1 if tier == "quick" else 4) * g.timeout + 10 or time.time() - t0 > total + 5:
                p.kill()
                p.join()
                r.close()
                del running[r]
                res.append(failed_goal(g, "time limit of the goal", t1))
    return res


def goals_of(m, tier):
    return [g for g in m.spec.goals if tier == "thorough" or not g.thorough]


def run_replay(pid, tier, seed, budget, out):
    """Evaluate the contracts on the real code.  Returns the report of replay_run.py."""
    path = os.path.join(HERE, "replay", pid.lower() + ".py")
    if not os.path.exists(path):
        return {"found": False, "tried": 0, "note": "no run-time contracts for this property"}
    cmd = [RUNPY, "-B", os.path.join(HERE, "replay_run.py"), pid, "--repo", REPO, "--tier", tier, "--seed", str(seed),
           "--budget", str(budget), "--out", out]
    env = dict(os.environ, OPENBLAS_NUM_THREADS="2", OMP_NUM_THREADS="2", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=budget + 120, env=env)
    except subprocess.TimeoutExpired:
        return {"found": False, "tried": 0, "note": "run-time contracts: time limit"}
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return {"found": False, "tried": 0, "note": "run-time contracts crashed: " + (p.stderr or p.stdout)[-800:]}


def known_findings():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) obligation=/(.*?)/ case=/(.*?)/ (.*)", line.strip())
            if m:
                r.append(m.groups())
    return r


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":      # the same proof search on every run
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--no-replay", action="store_true")
    a = ap.parse_args()
    pid, tier = a.pid, a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    m = importlib.import_module("specs." + pid.lower())
    goals = goals_of(m, tier)
    tasks = [(pid.lower(), k, tier) for k in range(len(goals))]
    order = sorted(tasks, key=lambda t: -goals[t[1]].weight)
    out = os.path.join(OUT, pid)
    os.makedirs(out, exist_ok=True)
    res = run_goals(order, goals, tier, a.jobs)
    res.sort(key=lambda d: [g.name for g in goals].index(d["name"]))
    t_verify = time.time() - t0
    known = [k for k in known_findings() if k[0] == pid]
    failed, undecided, knownhits = [], [], []
    for d in res:
        for o in d["obligations"]:
            if not o["ok"]:
                nm = f"{d['name']} :: {o['name']}"
                k = next((k for k in known if k[1] and re.search(k[1], nm)), None)
                (knownhits.append(k[3]) if k else failed.append((nm, o)))
        if d["unsupported"]:
            undecided.append((d["name"], d["unsupported"]))
        elif not d["obligations"] or d["paths"] == 0:
            undecided.append((d["name"], ["no obligation was generated"]))
    # ---- run-time evaluation of the contracts on the real code
    budget = {"quick": 15, "thorough": 240}[tier]
    if failed or undecided:
        budget = {"quick": 60, "thorough": 400}[tier]
    rep = {"found": False, "tried": 0, "note": "skipped"} if a.no_replay else run_replay(pid, tier, a.seed, budget, out)
    if rep.get("found"):
        k = next((k for k in known if k[2] and re.search(k[2], rep.get("case_name", ""))), None)
        if k:
            knownhits.append(k[3])
            rep["found"] = False
    nob = sum(len(d["obligations"]) for d in res)
    nok = sum(o["ok"] for d in res for o in d["obligations"])
    violation = bool(failed) or bool(rep.get("found"))
    lines = []
    for k in sorted(set(knownhits)):
        lines.append(f"KNOWN-FINDING: property={pid} {k}")
    replay_file = None
    if violation:
        replay_file = os.path.join(out, "violation.json")
        with open(replay_file, "w") as f:
            json.dump({"property": pid, "failed_obligations": [{"obligation": n, "back_end": o["how"], "condition": o["cond"], "model": o["model"]} for n, o in failed],
                       "undecided": undecided, "failing_input": rep if rep.get("found") else None,
                       "replay": f"{RUNPY} {HERE}/replay_run.py {pid} --repo {REPO} --case {rep.get('case_file')}" if rep.get("found") else None,
                       "verifier_goals": [{"goal": d["name"], "obligations": [o["name"] + (": ok" if o["ok"] else ": FAILED") for o in d["obligations"]]} for d in res]},
                      f, indent=1, default=str)
        lines.append(f"VIOLATION property={pid} replay={replay_file}" + ("" if rep.get("found") else " no-failing-input-found"))
    write_evidence(pid, tier, a.seed, m, res, rep, failed, undecided, nob, nok, t_verify, time.time() - t0, violation, replay_file, knownhits)
    if a.v or violation or undecided:
        for n, o in failed[:20]:
            print(f"  failed obligation: {n} [{o['how']}] {str(o['cond'])[:300]}")
        for n, u in undecided[:20]:
            print(f"  undecided goal (bounded stand-in used): {n}: {u[0][:300]}")
        if rep.get("found"):
            print(f"  failing input: {rep.get('case_name')}: {str(rep.get('message'))[:400]}")
    if a.v:
        for d in res:
            print(f"  {d['name']}: {sum(o['ok'] for o in d['obligations'])}/{len(d['obligations'])} obligations, {d['paths']} paths, {d['time']:.2f}s"
                  + (f", undischarged definedness {len(d['definedness'])}" if d["definedness"] else ""))
            for x in d["definedness"]:
                print("      definedness:", x[:200])
    print(f"{pid} [{tier}]: {nok}/{nob} obligations discharged in {len(res)} goals, {len(undecided)} goals undecided, "
          f"{rep.get('tried', 0)} concrete cases{' (' + rep['note'] + ')' if rep.get('note') else ''}, {time.time() - t0:.1f}s")
    for x in lines:
        print(x)
    sys.exit(1 if violation else 0)


def write_evidence(pid, tier, seed, m, res, rep, failed, undecided, nob, nok, tv, wall, violation, rf, knownhits):
    from pyver import trusted
    by = {}
    for d in res:
        for o in d["obligations"]:
            if o["ok"]:
                by[o["how"]] = by.get(o["how"], 0) + 1
    ex = sorted({e for d in res for e in d["executed"]})
    exts = sorted({e for d in res for e in d["externals"]})
    cons = sorted({e for d in res for e in d["contracts"]})
    defd = sorted({x for d in res for x in d["definedness"]})
    bounded = [n for n, _ in undecided]
    level = "proof" if res and not undecided else "bounded" if not res or len(undecided) == len(res) else "mixed"
    assumptions = list(m.spec.assumptions) + trusted.GENERAL + [f"external contract: {trusted.EXTERNALS.get(e, e)}" for e in exts]
    assumptions += [f"undischarged definedness side condition: {x}" for x in defd[:40]]
    assumptions += sorted({x for d in res for x in d["assumed"]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": nob, "discharged": nok, "discharged_by": by,
              "goals": len(res), "goals_undecided": bounded,
              "goals_decided_level": level,
              "functions_under_contract": ex, "callee_contracts_used": cons, "external_functions": exts,
              "paths": sum(d["paths"] for d in res), "vacuous_or_infeasible_paths": sum(d["infeasible"] + d["vacuous"] for d in res),
              "definedness_discharged": sum(d["definedness_ok"] for d in res), "definedness_undischarged": len(defd),
              "solver_seconds": round(sum(d["solver"] for d in res), 3),
              "verifier_cpu_seconds": round(sum(d["time"] for d in res), 3),
              "verifier_wall_seconds": round(tv, 3),
              "checker_cmd": f"cd /verif && python3-vt check.py {pid} --tier {tier}",
              "trusted_base": trusted.BASE,
              "bounded_runtime_contracts": {"cases": rep.get("tried", 0), "kinds": rep.get("kinds", {}), "note": rep.get("note", ""),
                                            "role": "failing input search" if failed else "bounded stand-in for undecided goals (not counted as proved)" if undecided
                                            else "cross-check of the verifier against CPython (not counted as proved)"},
              "goal_list": [{"goal": d["name"], "obligations": len(d["obligations"]), "discharged": sum(o["ok"] for o in d["obligations"]),
                             "seconds": round(d["time"], 3), "undecided": d["unsupported"]} for d in res]},
          "assumptions": assumptions, "wall_s": round(wall, 2),
          "violations": len(failed) + int(bool(rep.get("found")))}
    if violation:
        ev["violation"] = {"replay": rf, "failed_obligations": [n for n, _ in failed], "failing_input": rep.get("case_name") if rep.get("found") else None}
    if knownhits:
        ev["known_findings"] = sorted(set(knownhits))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    main()
