ID, PROP = "c07-parafac2-orthonormal-c", "C07"
NEEDS = "a PARAFAC2 model with an orthonormality constraint on C only (third mode)"
BREAKS = "the constraint on the last mode is not passed on to the inner CP updates"
EDITS = [("decomposition/parafac2.py", """            orthonormality_constraints=self.orthonormality_constraints,
            init='precomputed'""", """            orthonormality_constraints=self.orthonormality_constraints and [*self.orthonormality_constraints[:2], False],
            init='precomputed'""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, 5) for _ in range(6)]
m = Parafac2_ALS(2, max_its=3, print_frequency=-1, orthonormality_constraints=[False, False, True])
m.fit(X)
C = m.decomposition.C
assert np.allclose(C.T @ C, np.eye(2))
"""
