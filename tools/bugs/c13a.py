ID, PROP = "c13-checkpoint-offset", "C13"
NEEDS = "three or more checkpoints in one run with a logger"
BREAKS = "the offset of what is already on disk forgets all but the last checkpoint, so entries are repeated"
EDITS = [("decomposition/logging/logger.py", """        self.prev_checkpoint_it += len(self.latest_log_iterations)""", """        self.prev_checkpoint_it = len(self.latest_log_iterations)""")]
DEMO = """
import os, h5py, numpy as np
from tenkit.decomposition import CP_ALS
from tenkit.decomposition.logging.logger import LossLogger
np.random.seed(0)
X = np.random.randn(4, 5, 6)
f = os.path.join(os.environ['SCRATCH'], 'c.h5')
l = LossLogger()
m = CP_ALS(2, max_its=8, convergence_tol=0, checkpoint_path=f, checkpoint_frequency=2, loggers=[l])
m.fit(X)
with h5py.File(f, 'r') as h:
    assert list(h['LossLogger/iterations'][...]) == list(range(8))
"""
