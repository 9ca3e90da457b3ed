ID, PROP = "c12-load-first", "C12"
NEEDS = "loading checkpoint 0 (the first iteration) explicitly from a file with later checkpoints"
BREAKS = "iteration 0 counts as not given, so the latest checkpoint is loaded"
EDITS = [("decomposition/base_decomposer.py", """            if load_it is None:
                load_it""", """            if not load_it:
                load_it""")]
DEMO = """
import os, numpy as np
from tenkit.decomposition import CP_ALS
np.random.seed(0)
X = np.random.randn(4, 5, 6)
f = os.path.join(os.environ['SCRATCH'], 'c.h5')
m = CP_ALS(2, max_its=3, convergence_tol=0, checkpoint_path=f, checkpoint_frequency=1)
m.fit(X)
m.load_checkpoint(f, load_it=0)
assert m.current_iteration == 1
"""
