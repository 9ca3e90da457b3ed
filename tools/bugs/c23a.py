ID, PROP = "c23-component-weights", "C23"
NEEDS = "a single component of a Kruskal tensor with a negative weight"
BREAKS = "the single component gets the magnitude of the weight"
EDITS = [("decomposition/decompositions.py", """        single_component_weights = [weights[component]]
""", """        single_component_weights = np.linalg.norm(weights[component, np.newaxis], axis=0, keepdims=True)
""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
r = np.random.default_rng(0)
k = KruskalTensor([r.standard_normal((d, 2)) for d in (3, 4, 5)], np.array([-2., 3.]))
s = sum(k.get_single_component_decomposition(c).construct_tensor() for c in range(2))
assert np.allclose(s, k.construct_tensor())
"""
