ID, PROP = "c07-zero-penalty", "C07"
NEEDS = "a non-negative mode in a regularised fit whose own ridge penalty is zero"
BREAKS = "a mode without penalty is solved with the unconstrained solver"
EDITS = [("decomposition/cp.py", """            rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty)#/fm_shape)
""", """            rightsolve = base.add_rightsolve_ridge(rightsolve, ridge_penalty) if ridge_penalty else base.rightsolve
""")]
DEMO = """
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
m = CP_ALS(2, max_its=5, non_negativity_constraints=[True, False, False], ridge_penalties=[0, 1., 1.])
m.fit(X)
assert (m.factor_matrices[0] >= 0).all()
"""
