ID, PROP = "c06-parafac2-mse", "C06"
NEEDS = "PARAFAC2 slices of different widths"
BREAKS = "the MSE divides by the number of elements of equally wide slices"
EDITS = [("decomposition/parafac2.py", """        return self.SSE/self.decomposition.num_elements
""", """        return self.SSE/np.prod(self.decomposition.shape)
""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, j) for j in (3, 5, 6)]
m = Parafac2_ALS(2, max_its=3, print_frequency=-1)
m.fit(X)
assert np.isclose(m.MSE, m.SSE/sum(x.size for x in X))
"""
