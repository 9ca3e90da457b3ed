ID, PROP = "c01-matrix-weights", "C01"
NEEDS = "a Kruskal tensor with exactly two modes and weights different from one"
BREAKS = "construct_tensor of a two-mode Kruskal tensor takes a shortcut that ignores the weights"
EDITS = [("decomposition/decompositions.py", """        shape = [f.shape[0] for f in self.factor_matrices]
        tensor = (self""", """        shape = [f.shape[0] for f in self.factor_matrices]
        if len(shape) == 2:
            return self.factor_matrices[0] @ self.factor_matrices[1].T
        tensor = (self""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
A, B, w = r.standard_normal((4, 2)), r.standard_normal((3, 2)), np.array([2., 5.])
assert np.allclose(KruskalTensor([A, B], w).construct_tensor(), (A * w) @ B.T)
"""
