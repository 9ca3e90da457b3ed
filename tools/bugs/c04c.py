ID, PROP = "c04-ridge-on-rows", "C04"
NEEDS = "a ridge penalised solve with more rows in B than unknowns per row (p >= 80 n)"
BREAKS = "the ridge rows are scaled with the aspect ratio of B, so another penalty is used"
EDITS = [("base.py", """            [A, np.sqrt(ridge_penalty)*np.identity(n)],""", """            [A, np.sqrt(ridge_penalty*max(1, p//(40*n)))*np.identity(n)],""")]
DEMO = """
import numpy as np
from tenkit import base
r = np.random.default_rng(0)
A, B = r.standard_normal((2, 5)), r.standard_normal((200, 5))
X = base.add_rightsolve_ridge(base.rightsolve, .7)(A, B)
assert np.allclose(X @ (A @ A.T + .7*np.eye(2)), B @ A.T)
"""
