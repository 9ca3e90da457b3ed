#!/opt/veriftools/pyvenv/bin/python
"""Setup: check that the tools are present and that the verifier accepts a true and
refutes a false obligation (so that a silent engine failure is noticed); compare the trusted
symbolic semantics with the installed NumPy (pyver/numcheck.py)."""
import os
import subprocess
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("TENKIT_REPO", "/repo")


def main():
    from pyver import verify, interp
    from pyver.spec import call, dims, param_arr, oblige_array, app
    repo = interp.Repo(REPO)

    def goal(sign):
        def g(I):
            I_, J, K = dims("I J K")
            A = param_arr("A", (I_, J)); B = param_arr("B", (J, K))
            from pyver import ops
            import ast
            C = ops.binop(I, ast.MatMult(), A, B)
            from pyver.alg import ssum
            oblige_array(I, "product", C, (I_, K), lambda i, k: ssum("j", J, lambda j: app("A", (i, j)) * app("B", (j, k)) * sign))
        return g
    assert verify.run_goal("true", goal(1), repo).ok, "a true obligation is not discharged"
    assert verify.run_goal("false", goal(2), repo).failed, "a false obligation is discharged"
    r = subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, h5py, sys; print(sys.version, numpy.__version__)"], capture_output=True, text=True)
    assert r.returncode == 0, r.stderr
    from pyver import numcheck
    seed = int(os.environ.get("VERIF_SEED", "1"))
    n = numcheck.main(seed=seed)
    assert not n["bad"], f"the symbolic semantics disagrees with NumPy: {n['bad'][:3]}"
    bad = numcheck.externals(seed=seed)
    assert not bad, f"an assumed contract of an external function does not hold: {bad}"
    print(f"symbolic semantics compared with NumPy/CPython: {n['snippets']} snippets, {n['comparisons']} comparisons, no disagreement; "
          f"{len(n['unsupported'])} refused as not modelled")
    print("verifier ready;", r.stdout.strip())


if __name__ == "__main__":
    main()
