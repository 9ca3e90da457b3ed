ID, PROP = "c08-same-size", "C08"
NEEDS = "irregular slices whose first and last width agree"
BREAKS = "such tensors are reported as regular, so no warning about the zero padding is raised"
EDITS = [("decomposition/decompositions.py", """        size = matrices[0].shape[0]
        for matrix in matrices:
            if size != matrix.shape[0]:
                return False
        return True""", """        return matrices[0].shape[0] == matrices[len(matrices) - 1].shape[0]""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor
r = np.random.default_rng(0)
t = EvolvingTensor(r.standard_normal((3, 2)), [r.standard_normal((j, 2)) for j in (4, 5, 4)], r.standard_normal((3, 2)))
try:
    t.construct_tensor()
except Warning:
    pass
else:
    raise AssertionError
"""
