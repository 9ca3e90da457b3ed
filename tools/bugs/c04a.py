ID, PROP = "c04-polar-tolerance", "C04"
NEEDS = "an orthogonal solve whose singular values differ by more than a factor of ten thousand (still full rank)"
BREAKS = "small but nonzero singular values are dropped, so the solution is not orthonormal"
EDITS = [("base.py", "S_tol = max(U.shape) * S[0] * (1e-16)", "S_tol = max(U.shape) * S[0] * (1e-5)")]
DEMO = """
import numpy as np
from tenkit import base
r = np.random.default_rng(0)
Q = np.linalg.qr(r.standard_normal((5, 2)))[0]
A = r.standard_normal((7, 2)) * np.array([1., 1e-6])
X = base.orthogonal_solve(A, A @ Q.T)
assert np.allclose(X @ X.T, np.eye(2))
"""
