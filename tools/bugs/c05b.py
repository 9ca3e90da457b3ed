ID, PROP = "c05-ridge-normal-eq", "C05"
NEEDS = "ridge penalties with a zero for the updated mode and a rank deficient problem, non-negativity in no mode; or penalties longer than ..."
NEEDS = "ridge penalties where the penalty of the last mode differs from that of the first mode, and four or more modes"
BREAKS = "a higher order mode is regularised with the penalty of the third mode"
EDITS = [("decomposition/cp.py", """            ridge_penalty = self.ridge_penalties[mode]
""", """            ridge_penalty = self.ridge_penalties[min(mode, 2)]
""")]
DEMO = """
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.randn(3, 4, 3, 4)
m = CP_ALS(2, max_its=1, convergence_tol=0, ridge_penalties=[0.1, 0.1, 20., 0.])
m.fit(X)
l = [m.loss]
for mode in range(4):
    m._update_als_factor(mode)
    l.append(m.loss)
F = m.factor_matrices
X3 = np.moveaxis(X, 3, 0).reshape(4, -1)
from tenkit import base
K = base.khatri_rao(*F, skip=3)
assert np.allclose(F[3] @ (K.T @ K), X3 @ K)
"""
