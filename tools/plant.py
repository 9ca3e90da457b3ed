"""Plant a bug:  plant.py DEF.py ...   Each DEF defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).

Builds the patch in a scratch copy, checks that it applies, that the demonstration passes
before and fails after, and that the stable tests still pass; then writes seeded/<ID>/.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# cwd: the repository; exit 0 when the property holds in the demonstrated case
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
PYTHONPATH="$PWD/src" SCRATCH="$S" /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def run(d, cwd):
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd, capture_output=True, text=True, timeout=280)


def plant(path, fast):
    g = runpy.run_path(path)
    i = g["ID"]
    sc = tempfile.mkdtemp(prefix="plant")
    repo = os.path.join(sc, "repo")
    try:
        shutil.copytree("/repo", repo, symlinks=True)
        d = os.path.join(sc, "seed")
        os.makedirs(d)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        open(os.path.join(d, "demo.py"), "w").write(g["DEMO"].lstrip("\n"))
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = run(d, repo)
        if r.returncode:
            return f"{i}: demo fails on the unchanged tree: {(r.stdout + r.stderr)[-600:]}"
        for f, old, new in g["EDITS"]:
            p = os.path.join(repo, "src/tenkit", f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return f"{i}: {f}: {s.count(old)} matches for {old!r}"
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        r = run(d, repo)
        if r.returncode == 0:
            return f"{i}: demo passes with the patch"
        msg = (r.stdout + r.stderr).strip().splitlines()[-1:]
        if not fast:
            x = os.path.join(sc, "j.xml")
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=os.path.join(repo, "src"))
            subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "-n", "4", "--randomly-seed=0",
                            "--randomly-dont-reorganize", "-o", "junit_family=xunit2", "--junitxml=" + x, "src"], cwd=repo, env=env, capture_output=True, text=True)
            out = os.path.join(sc, "o.json")
            subprocess.run(["python3", "/opt/vp/results.py", out, "junit:" + x], capture_output=True)
            res = json.load(open(out))
            passed = set(res.get("passed", res if isinstance(res, list) else []))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            bad = [t for t in stable if t not in passed]
            if bad:
                return f"{i}: stable tests fail: {bad[:5]} of {len(bad)}"
        dst = os.path.join(HERE, "seeded", i)
        if os.path.isdir(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return f"{i}: ok ({msg})"
    finally:
        shutil.rmtree(sc)


if __name__ == "__main__":
    fast = "--fast" in sys.argv
    from concurrent.futures import ThreadPoolExecutor
    fs = [a for a in sys.argv[1:] if not a.startswith("--")]
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(lambda f: plant(f, fast), fs):
            print(r, flush=True)
