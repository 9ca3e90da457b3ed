"""Writes known_findings.txt from the fix commits of /repo (property ids by subject)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [("flip_factors refused", "C16"), ("integer factor matrices truncated", "C05"), ("create_data and create_non_neg", "C21"), ("non_negative_rightsolve with a one", "C04"), ("refitting a CP model", "C06"), ("SSE of a fitted CP", "C06"), ("final checkpoint was", "C12"),
       ("continuing from a checkpoint repeated", "C12"), ("Parafac2 fit_transform", "C14"), ("Parafac2 CP initialisation shared", "C21"),
       ("orthonormal initialisation detached", "C07"), ("loading an EvolvingTensor", "C11"), ("number of elements", "C08"),
       ("Parafac2Tensor.get_single", "C23"), ("Parafac2Tensor.factor_match", "C15"), ("mode-wise factor match", "C15"),
       ("converting a Kruskal", "C23"), ("KruskalTensor.core_consistency", "C22"), ("Parafac2 SVD init", "C21"), ("KruskalTensor.get_signs", "C16"),
       ("initial decompositions with the wrong", "C17"), ("constrained and regularised CP", "C05"), ("non-negative CMTF", "C18"), ("CMTF MSE", "C18"),
       ("CMTF ignored all", "C18"), ("CMTF initialisation moved", "C18"), ("CMTF loss", "C18"), ("weights of an initial", "C21"),
       ("continue_fit of a CMTF", "C18"), ("continue_fit of a CP model", "C05"), ("fitting PARAFAC2 with print_frequency", "C14"), ("(re)starting a fit flipped", "C09"), ("rightsolve inverted", "C04"), ("initial PARAFAC2 decompositions", "C17"), ("PARAFAC2 SVD initialisation with", "C17")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = ["# Findings of the checks.  'known:' lines name a violation that is recorded, not repaired; 'fixed:' lines suppress nothing.",
       "# known: property=<id> obligation=/<regex>/ case=/<regex>/ <what fails>"]
extra = os.path.join(HERE, "tools", "known_open.txt")
if os.path.exists(extra):
    out += [l.rstrip("\n") for l in open(extra)]
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        i = [i for k, i in IDS if s[5:].startswith(k)]
        assert i, s
        out.append(f"fixed: property={i[0]} {h} {s[5:]}")
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(out) + "\n")
