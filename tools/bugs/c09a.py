ID, PROP = "c09-abs-c", "C09"
NEEDS = "a PARAFAC2 fit where an entry of C becomes negative"
BREAKS = "the projection of a slice is found for |c_k|, so it no longer minimises that slice's residual"
EDITS = [("decomposition/parafac2.py", """                (C[k]*A)@blueprint_B.T,""", """                (np.abs(C[k])*A)@blueprint_B.T,""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
r = np.random.default_rng(1)
C = r.standard_normal((5, 2)); C[0] = [-1, 2]
P = [np.linalg.qr(r.standard_normal((6, 2)))[0] for _ in range(5)]
t = Parafac2Tensor(r.standard_normal((4, 2)), np.eye(2), C, P)
X = [r.standard_normal((4, 6)) for _ in range(5)]
m = Parafac2_ALS(2, init='precomputed', print_frequency=-1)
m._init_fit(X=X, max_its=1, initial_decomposition=t)
l0 = m.SSE
m._update_projection_matrices(); l1 = m.SSE
for k in range(5):
    U, s, Vt = np.linalg.svd(X[k].T @ ((C[k]*t.A) @ t.blueprint_B.T), full_matrices=False)
    P[k] = U @ Vt
best = sum(np.sum((X[k] - (C[k]*t.A) @ (P[k] @ t.blueprint_B).T)**2) for k in range(5))
assert np.isclose(l1, best)
"""
