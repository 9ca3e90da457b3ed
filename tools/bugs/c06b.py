ID, PROP = "c06-stale-norm", "C06"
NEEDS = "refitting a PARAFAC2 model on other data of the same shape, then reading the explained variance"
BREAKS = "the norm of the previous target is reused"
EDITS = [("decomposition/parafac2.py", """        self.X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
        self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
""", """        X_shape = [len(X[0]), [Xk.shape[1] for Xk in X], len(X)]    # len(A), len(Bk), len(C)
        if getattr(self, 'X_shape', None) != X_shape:
            self.X_norm = np.sqrt(sum(np.linalg.norm(Xk)**2 for Xk in X))
        self.X_shape = X_shape
""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, 5) for _ in range(3)]
m = Parafac2_ALS(2, max_its=3, print_frequency=-1)
m.fit(X)
m.fit([3*x for x in X])
assert np.isclose(m.explained_variance, 1 - m.SSE/sum(np.sum((3*x)**2) for x in X))
"""
