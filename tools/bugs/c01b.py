ID, PROP = "c01-reset-nan", "C01"
NEEDS = "a Kruskal tensor some of whose weights are zero (a vanished component), then reset_weights"
BREAKS = "zero weights stay zero when the weights are reset to one, so the component stays lost"
EDITS = [("decomposition/decompositions.py", """        self.weights *= 0
        self.weights += 1
""", """        self.weights /= np.where(self.weights == 0, 1, self.weights)
""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
k = KruskalTensor([r.standard_normal((d, 2)) for d in (3, 4, 5)], np.array([2., 0.]))
k.reset_weights()
assert np.allclose(k.weights, 1)
"""
