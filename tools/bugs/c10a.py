ID, PROP = "c10-short-columns", "C10"
NEEDS = "a factor column whose length is tiny but not zero"
BREAKS = "columns shorter than 1e-6 are treated as zero columns and keep their length"
EDITS = [("decomposition/decompositions.py", """            norms = np.linalg.norm(factor_matrix, axis=0)
            self""", """            norms = np.linalg.norm(factor_matrix, axis=0)
            norms = np.where(norms < 1e-6, 1, norms)
            self""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
fs = [r.standard_normal((d, 2)) for d in (3, 4, 5)]
fs[1][:, 1] *= 1e-8
K = KruskalTensor(fs).normalize_components()
for f in K.factor_matrices:
    assert np.allclose(np.linalg.norm(f, axis=0), 1)
"""
