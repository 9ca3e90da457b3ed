ID, PROP = "c23-permute-weights", "C23"
NEEDS = "a permutation that is not its own inverse (a 3-cycle)"
BREAKS = "the weights are permuted with the inverse permutation"
EDITS = [("utils.py", """    permuted_weights = weights[list(permutation)]""", """    permuted_weights = weights[np.argsort(permutation)]""")]
DEMO = """
import numpy as np
from tenkit import utils
r = np.random.default_rng(0)
F = [r.standard_normal((d, 3)) for d in (3, 4, 5)]
w = np.array([1., 2., 3.])
G, v = utils.permute_factors_and_weights((1, 2, 0), F, w)
f = lambda F, w: np.einsum('r,ir,jr,kr->ijk', w, *F)
assert np.allclose(f(F, w), f(G, v))
"""
