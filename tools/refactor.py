"""refactor.py DEF.py ... [--checks C01,C02] [--tests]: behaviour-preserving edits (EDITS as in plant.py) on which every check has to stay quiet."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), [f"C{k:02d}" for k in range(1, 24)])
for path in args:
    sc = tempfile.mkdtemp(prefix="refac")
    repo = os.path.join(sc, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    ok = True
    for f, old, new in runpy.run_path(path)["EDITS"]:
        p = os.path.join(repo, "src/tenkit", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(path, f, s.count(old), "matches for", repr(old[:80]), flush=True)
            ok = False
            continue
        open(p, "w", newline="").write(s.replace(old, new))
    if not ok:
        shutil.rmtree(sc)
        continue
    if "--tests" in sys.argv:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=os.path.join(repo, "src"))
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "4", "--randomly-seed=0", "src"], cwd=repo, env=env, capture_output=True, text=True)
        print(path, "tests:", r.stdout.strip().splitlines()[-1][:200], flush=True)
    for p in checks:
        r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), p], env=dict(os.environ, TENKIT_REPO=repo, VERIF_OUT=sc), capture_output=True, text=True)
        ls = r.stdout.strip().splitlines()
        tag = "quiet" if r.returncode == 0 else f"ALARM rc={r.returncode}"
        print(os.path.basename(path), p, tag, (ls or [r.stderr[-200:]])[-1][:160] if tag == "quiet" else "", flush=True)
        for l in ls:
            if l.startswith(("failed", "undecided", "  failing", "failing", "VIOL")) or "obligation:" in l or "undecided goal" in l:
                print("     ", l.strip()[:230], flush=True)
    shutil.rmtree(sc)
