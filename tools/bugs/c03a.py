ID, PROP = "c03-int-mttkrp", "C03"
NEEDS = "a third order tensor with an integer dtype and mode 1"
BREAKS = "the mode-1 MTTKRP accumulates in the dtype of the tensor, truncating the products"
EDITS = [("base.py", """    for i in range(shape[0]):
        idx = i % shape[0]
        product += tensor[idx] @ krp[i * block_size : (i + 1) * block_size]""", """    product = product.astype(tensor.dtype)
    for i in range(shape[0]):
        idx = i % shape[0]
        product = product + (tensor[idx] @ krp[i * block_size : (i + 1) * block_size]).astype(tensor.dtype)""")]
DEMO = """
import numpy as np
from tenkit import base
r = np.random.default_rng(0)
X = r.integers(-3, 4, size=(3, 4, 5))
F = [r.standard_normal((d, 2)) for d in X.shape]
assert np.allclose(base.matrix_khatri_rao_product(X, F, 1), np.einsum('ijk,ir,kr->jr', X, F[0], F[2]))
"""
