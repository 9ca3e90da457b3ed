ID, PROP = "c02-fold-swapaxes", "C02"
NEEDS = "folding along the third or a later mode"
BREAKS = "fold swaps two axes instead of moving the first one, which differs from mode 2 on"
EDITS = [("base.py", "return np.moveaxis(np.reshape(M, newshape), 0, n)", "return np.swapaxes(np.reshape(M, newshape), 0, n)")]
DEMO = """
import numpy as np
from tenkit import base
X = np.random.default_rng(0).standard_normal((3, 3, 3))
for n in range(3):
    assert np.array_equal(base.fold(base.unfold(X, n), n, X.shape), X), n
"""
