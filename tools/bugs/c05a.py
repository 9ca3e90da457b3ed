ID, PROP = "c05-singleton-mode", "C05"
NEEDS = "a tensor with a mode of length one, unconstrained and unregularised fit"
BREAKS = "the Gram matrix leaves out modes of length one although the MTTKRP does not, so the update is no minimiser"
EDITS = [("decomposition/cp.py", """            if i == skip_mode:
                continue
            V *= factor.T @ factor""", """            if i == skip_mode or len(factor) == 1:
                continue
            V *= factor.T @ factor""")]
DEMO = """
import numpy as np
from tenkit import base
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 1, 5)
for s in range(5):
    m = CP_ALS(2, max_its=0)
    m.fit(X)
    m._update_als_factor(0)
    K = base.khatri_rao(*m.factor_matrices, skip=0)
    assert np.allclose(m.factor_matrices[0] @ K.T @ K, base.unfold(X, 0) @ K)
"""
