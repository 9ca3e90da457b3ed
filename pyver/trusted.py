"""What the verifier takes on trust (copied into every evidence file)."""

GENERAL = [
    "machine floats are treated as mathematical reals (rounding, overflow, inf and nan are not modelled)",
    "array dimensions, ranks and slice counts are arbitrary positive integers; the tensor order is enumerated per goal",
    "the symbolic semantics of the Python subset and of the NumPy operations (pyver/) is trusted; it is cross-checked "
    "against CPython and NumPy by differential testing (pyver/numcheck.py, run by selfcheck.py at set-up) and by the run-time contracts of replay/",
    "arrays given as inputs do not share memory with each other",
]

EXTERNALS = {
    "svd": "numpy.linalg.svd(A): A = U diag(S) Vh, U^T U = I, Vh Vh^T = I, S nonincreasing and >= 0",
    "svd_full": "numpy.linalg.svd(A, full_matrices=True): as svd, with square orthogonal U and Vh",
    "qr": "numpy.linalg.qr(A): Q^T Q = I, A = Q R, R upper triangular",
    "nnls": "scipy.optimize.nnls(A, b): x >= 0 minimises ||A x - b|| over x >= 0 (KKT)",
    "lstsq": "numpy.linalg.lstsq / scipy lstsq: A^T A x = A^T b",
    "solve": "numpy.linalg.solve(A, b): A x = b for nonsingular A",
    "inv": "numpy.linalg.inv(A): A^-1 for nonsingular A",
    "pinv": "numpy.linalg.pinv(A): the Moore-Penrose inverse",
    "random": "numpy.random: arbitrary values in the range of the distribution (rand/uniform in [0, 1))",
    "h5py": "h5py files behave as a tree of groups, data sets and attributes held on disk between openings",
}

BASE = ["pyver (symbolic executor, term normaliser; /verif/pyver)", "z3 (python binding of the tooling venv)",
        "CPython 3.12 ast module", "contracts of external functions listed under assumptions"]
