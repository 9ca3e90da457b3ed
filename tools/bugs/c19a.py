ID, PROP = "c19-unit-norm-alias", "C19"
NEEDS = "prepare_for_comparison of factors whose columns already have unit length (up to eps)"
BREAKS = "already normalised factors are returned as they are, and then sign flipped in place"
EDITS = [("utils.py", """    norms = np.linalg.norm(factor, axis=0, keepdims=True)
    return factor / (norms + eps), norms""", """    norms = np.linalg.norm(factor, axis=0, keepdims=True)
    if np.all(norms == 1):
        return factor, norms
    return factor / (norms + eps), norms""")]
DEMO = """
import numpy as np
from tenkit import utils
F = [np.array([[-1., 0.], [0., 1.]])]
utils.prepare_for_comparison(F)
assert F[0][0, 0] == -1
"""
