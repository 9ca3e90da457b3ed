ID, PROP = "c17-long-factor", "C17"
NEEDS = "a precomputed PARAFAC2 start whose C has more rows than there are slices"
BREAKS = "too long factor matrices are accepted, and the fit runs on uninitialised memory"
EDITS = [("decomposition/parafac2.py", """            if factor_matrix.shape[0] != self.X_shape[i]:""", """            if factor_matrix.shape[0] < self.X_shape[i]:""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
r = np.random.default_rng(1)
P = [np.linalg.qr(r.standard_normal((6, 2)))[0] for _ in range(3)]
t = Parafac2Tensor(r.standard_normal((4, 2)), np.eye(2), r.random((4, 2)), P)
X = [r.standard_normal((4, 6)) for _ in range(3)]
m = Parafac2_ALS(2, init='precomputed', print_frequency=-1, max_its=0)
try:
    m.fit(X, initial_decomposition=t)
except Exception:
    pass
else:
    raise AssertionError
"""
