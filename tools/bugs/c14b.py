ID, PROP = "c14-signed-change", "C14"
NEEDS = "a PARAFAC2 fit in which the loss once increases (for example non-negative C in the first iterations)"
BREAKS = "the stopping rule compares the signed relative change, so any increase stops the fit"
EDITS = [("decomposition/parafac2.py", """            if abs(self._rel_function_change) < self.convergence_tol:
                break""", """            if self._rel_function_change < self.convergence_tol:
                break""")]
DEMO = """
import numpy as np
from tenkit.decomposition import Parafac2_ALS
np.random.seed(0)
X = [np.random.randn(4, 5) for _ in range(5)]
class M(Parafac2_ALS):
    def _update_parafac2_factors(self):
        super()._update_parafac2_factors()
        if self.current_iteration == 1:
            self.decomposition.A[...] *= 1.5
m = M(2, max_its=6, convergence_tol=1e-12, print_frequency=-1)
m.fit(X)
assert m.current_iteration == 6
"""
