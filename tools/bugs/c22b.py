ID, PROP = "c22-core-denominator", "C22"
NEEDS = "normalised core consistency of a model whose least-squares core has squared norm below the rank"
BREAKS = "the normalisation uses the rank instead of the squared norm of the core"
EDITS = [("metrics.py", """    denom = np.linalg.norm(vec_G)**2 if normalized else F""", """    denom = max(np.linalg.norm(vec_G)**2, F) if normalized else F""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
k = KruskalTensor([r.standard_normal((d, 2)) for d in (3, 4, 5)])
X = .1*k.construct_tensor()
assert np.isclose(k.core_consistency(X, normalized=True), 100*(1 - 2*.9**2/(2*.1**2)))
"""
