ID, PROP = "c18-constraint-index", "C18"
NEEDS = "non-negativity constraints that differ between modes and matrices coupled in another order than the modes"
BREAKS = "the constraint of mode number <index of the matrix> is used for an uncoupled factor"
EDITS = [("decomposition/cmtf.py", """            if self.non_negativity_constraints[mode]:
                new_fm""", """            if self.non_negativity_constraints[cm_idx]:
                new_fm""")]
DEMO = """
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
Y = [np.random.randn(5, 7)]
m = CMTF_ALS(2, max_its=3, convergence_tol=0, non_negativity_constraints=[True, False, False])
m.fit(X, Y, [1])
U, V = m.factor_matrices[1], m.uncoupled_factor_matrices[0]
assert np.allclose(V, np.linalg.lstsq(U, Y[0], rcond=None)[0].T)
"""
