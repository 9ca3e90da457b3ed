ID, PROP = "c08-unfolded-order", "C08"
NEEDS = "eleven or more slices given as a PARAFAC2 tensor"
BREAKS = "the stacked evolving factor lists the slices in lexicographic order"
EDITS = [("decomposition/decompositions.py", """        return np.concatenate(list(self.B), axis=0)
""", """        return np.concatenate([self.B[k] for k in sorted(range(len(self.B)), key=str)], axis=0)
""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor
r = np.random.default_rng(0)
B = [r.standard_normal((4, 2)) for j in range(12)]
t = EvolvingTensor(r.standard_normal((3, 2)), B, r.standard_normal((12, 2)))
assert np.array_equal(t.B_unfolded, np.vstack(B))
"""
