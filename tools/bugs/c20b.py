ID, PROP = "c20-metadata-lost", "C20"
NEEDS = "a second experiment with metadata in a file that already has metadata of another experiment"
BREAKS = "the metadata of the earlier experiment is removed"
EDITS = [("log.py", """        else:
            g = h5['metadata']
""", """        else:
            g = h5['metadata']
            g.clear()
""")]
DEMO = """
import os, h5py
from tenkit.log import Experiment
f = os.path.join(os.environ['SCRATCH'], 'l.h5')
Experiment(f, 'a', metadata={'x': 1})
Experiment(f, 'b', metadata={'y': 2})
with h5py.File(f, 'r') as h:
    assert h['metadata/x'][()] == 1 and h['metadata/y'][()] == 2
"""
