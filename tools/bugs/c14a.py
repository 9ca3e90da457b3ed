ID, PROP = "c14-zero-budget", "C14"
NEEDS = "continue_fit with a budget of zero"
BREAKS = "a zero budget counts as not given, so iterations are made"
EDITS = [("decomposition/base_decomposer.py", """            Ignored""", """            Ignored"""), ]
EDITS = [("decomposition/base_decomposer.py", """            If set, then this will override the class's max_its. s
        \"\"\"
        if max_its is not None:
            self.max_its = max_its""", """            If set, then this will override the class's max_its. s
        \"\"\"
        self.max_its = max_its or self.max_its""")]
DEMO = """
import numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
m = CP_ALS(2, max_its=10, convergence_tol=0)
m.fit(X, max_its=0)
F = [f.copy() for f in m.factor_matrices]
m.max_its = 10
m.continue_fit(max_its=0)
assert all(np.array_equal(a, b) for a, b in zip(F, m.factor_matrices)) and m.current_iteration == 0
"""
