"""catch.py ID ...: run the property's check against seeded/<ID> in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded"))):
    sc = tempfile.mkdtemp(prefix="catch")
    repo = os.path.join(sc, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    subprocess.run(["git", "-C", repo, "apply", os.path.join(HERE, "seeded", i, "patch.diff")], check=True)
    p = json.load(open(os.path.join(HERE, "seeded", i, "meta.json")))["property"]
    r = subprocess.run(["python3-vt", os.path.join(HERE, "check.py"), p], env=dict(os.environ, TENKIT_REPO=repo, VERIF_OUT=sc), capture_output=True, text=True)
    ls = r.stdout.strip().splitlines()
    print(i, p, "CAUGHT" if r.returncode == 1 and any(l.startswith("VIOLATION") for l in ls) else "MISSED", flush=True)
    for l in ls[:2] + ls[-3:]:
        if not l.startswith(("KNOWN",)):
            print("     ", l[:200], flush=True)
    shutil.rmtree(sc)
