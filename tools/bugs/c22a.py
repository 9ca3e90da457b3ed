ID, PROP = "c22-memory-order", "C22"
NEEDS = "core consistency of a Fortran-ordered data tensor"
BREAKS = "the data tensor is vectorised in memory order"
EDITS = [("metrics.py", """    vec_X = X.reshape((-1, 1))""", """    vec_X = X.ravel(order='K')[:, np.newaxis]""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
k = KruskalTensor([r.standard_normal((d, 2)) for d in (3, 4, 5)])
X = np.asfortranarray(k.construct_tensor())
assert np.isclose(k.core_consistency(X), 100)
"""
