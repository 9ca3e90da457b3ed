ID, PROP = "c18-coupling-overwrite", "C18"
NEEDS = "two matrices coupled to the same mode"
BREAKS = "only the last matrix coupled to a mode takes part in the update of that mode"
EDITS = [("decomposition/cmtf.py", """            if cm in mode_to_cm_idx:
                mode_to_cm_idx[cm].append(i)
            else:
                mode_to_cm_idx[cm] = [i]""", """            mode_to_cm_idx[cm] = [i]""")]
DEMO = """
import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
Y = [5*np.random.randn(4, 7), np.random.randn(4, 3)]
m = CMTF_ALS(2, max_its=1, convergence_tol=0)
m._init_fit(X, Y, [0, 0], 1, None)
for _ in range(5):
    a = m.loss
    m._update_als_factor(0)
    b = m.loss
    assert b <= a*(1 + 1e-10), (a, b)
    m._update_als_factors()
"""
