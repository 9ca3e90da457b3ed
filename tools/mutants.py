"""mutants.py DEF.py ...: quick mutation runs.  MUTANTS = [(properties, file, old, new) or (properties, [(file, old, new), ...]), ...]; every named check must report."""
import os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(job):
    n, m = job
    props, edits = m[0], m[1] if isinstance(m[1], list) else [m[1:]]
    sc = tempfile.mkdtemp(prefix="mutant")
    repo = os.path.join(sc, "repo")
    shutil.copytree("/repo/src", os.path.join(repo, "src"), symlinks=True)
    for f, old, new in edits:
        p = os.path.join(repo, "src/tenkit", f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            shutil.rmtree(sc)
            return n, f"{s.count(old)} matches", old[:60]
        open(p, "w", newline="").write(s.replace(old, new))
    out = []
    for q in props.split(","):
        r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), q], env=dict(os.environ, TENKIT_REPO=repo, VERIF_OUT=sc), capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        und = sum("undecided goal" in l for l in r.stdout.splitlines())
        tag = ("caught, no input" if v and v[0].endswith("found") else "caught") if r.returncode == 1 and v else f"MISSED rc={r.returncode} {r.stderr[-100:]}"
        out.append(f"{q} {tag}" + (f" ({und} undecided)" if und else ""))
    shutil.rmtree(sc)
    return n, "; ".join(out), new.strip().splitlines()[0][:70] if new.strip() else "(removed)"


if __name__ == "__main__":
    for path in sys.argv[1:]:
        ms = runpy.run_path(path)["MUTANTS"]
        with ThreadPoolExecutor(3) as ex:
            for n, res, what in ex.map(one, enumerate(ms)):
                print(n, ms[n][1] if isinstance(ms[n][1], str) else ms[n][1][0][0], "|", what, "|", res, flush=True)
