ID, PROP = "c11-sorted-names", "C11"
NEEDS = "an evolving tensor with more than 1000 slices"
BREAKS = "the datasets are read in alphabetical order, in which B_1000 comes before B_101"
EDITS = [("decomposition/decompositions.py", """        B = [group[cls.B_template.format(k)][...] for k in range(group.attrs['num_Bs'])]
""", """        B = [group[name][...] for name in sorted(group) if name.startswith('B_')]
""")]
DEMO = """
import os, numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor
B = [np.full((1, 1), float(k)) for k in range(1003)]
t = EvolvingTensor(np.ones((2, 1)), B, np.ones((1003, 1)))
f = os.path.join(os.environ['SCRATCH'], 't.h5')
t.store(f)
u = EvolvingTensor.from_file(f)
assert len(u.B) == 1003 and all(np.array_equal(a, b) for a, b in zip(B, u.B))
"""
