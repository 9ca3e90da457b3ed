ID, PROP = "c11-warning-flag", "C11"
NEEDS = "an irregular PARAFAC2 tensor that was told not to warn"
BREAKS = "the stored warning setting is that of the shapes, so it comes back as True/False regardless of the setting"
EDITS = [("decomposition/decompositions.py", """        C = group['C'][...]
        warning = group.attrs['warning']

        projection_matrices""", """        C = group['C'][...]
        warning = not group.attrs['all_same_size'] or group.attrs['warning']

        projection_matrices""")]
DEMO = """
import os, numpy as np
from tenkit.decomposition.decompositions import Parafac2Tensor
r = np.random.default_rng(0)
P = [np.linalg.qr(r.standard_normal((j, 2)))[0] for j in (4, 5)]
t = Parafac2Tensor(r.standard_normal((3, 2)), np.eye(2), r.standard_normal((2, 2)), P, warning=False)
f = os.path.join(os.environ['SCRATCH'], 't.h5')
t.store(f)
assert not Parafac2Tensor.from_file(f).warning
"""
