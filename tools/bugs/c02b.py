ID, PROP = "c02-unfold-order-a", "C02"
NEEDS = "a Fortran-contiguous tensor unfolded along its first mode"
BREAKS = "the unfolding follows the memory layout, so the order of the columns is not the documented one"
EDITS = [("base.py", """    M = np.moveaxis(A, n, 0).reshape(A.shape[n], -1)
    return M""", """    M = np.moveaxis(A, n, 0).reshape((A.shape[n], -1), order='A')
    return M""")]
DEMO = """
import numpy as np
from tenkit import base
X = np.asfortranarray(np.arange(24.).reshape(2, 3, 4))
M = base.unfold(X, 0)
assert np.array_equal(M, [[X[i, j, k] for j in range(3) for k in range(4)] for i in range(2)])
"""
