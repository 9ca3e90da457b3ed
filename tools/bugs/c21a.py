ID, PROP = "c21-shared-projections", "C21"
NEEDS = "PARAFAC2 with CP initialisation, two or more slices"
BREAKS = "all slices share one projection matrix, so updating one changes all"
EDITS = [("decomposition/parafac2.py", """        A = get_pca_loadings(Y, self.rank)""", """        A = get_pca_loadings(Y, self.rank)[:, :self.rank]"""), ]
EDITS = [("decomposition/parafac2.py", """        P = [np.eye(J_k, self.rank) for J_k in J]""", """        eyes = {J_k: np.eye(J_k, self.rank) for J_k in J}
        P = [eyes[J_k] for J_k in J]""")]
NEEDS = "PARAFAC2 with SVD initialisation and two slices of equal width"
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, 5) for _ in range(3)]
m = Parafac2_ALS(2, init='svd', print_frequency=-1, max_its=2)
m._init_fit(X=X, max_its=2, initial_decomposition=None)
P = m.decomposition.projection_matrices
assert not any(np.shares_memory(P[0], p) for p in P[1:])
"""
