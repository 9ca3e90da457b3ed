ID, PROP = "c20-continued-offset", "C20"
NEEDS = "continuing an old experiment log and storing more than once in the continued run"
BREAKS = "the values kept in memory are sliced with the offset on disk, so later values are lost or wrong"
EDITS = [("log.py", """                g[target][self._prev_write_it:] = values[self._prev_write_it-self._first_write_it:] 
""", """                g[target][self._prev_write_it:] = values[-self.store_frequency:][:self._it_num-self._prev_write_it]
""")]
DEMO = """
import os, h5py, numpy as np
from tenkit.log import HDF5Logger
f = os.path.join(os.environ['SCRATCH'], 'l.h5')
l = HDF5Logger(f, 'e', 3, (), v=lambda p: p)
for i in range(4):
    l.log(i)
l.save_logs()
with h5py.File(f, 'r') as h:
    assert list(h['e/v'][...]) == [0, 1, 2, 3]
"""
