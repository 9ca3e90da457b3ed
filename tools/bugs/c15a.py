ID, PROP = "c15-subset", "C15"
NEEDS = "a second model with more components than the first whose best match is among the extra ones"
BREAKS = "only the first components of the second model are paired"
EDITS = [("metrics.py", """    max_fms = -1
    best_permutation = None

    for permutation in itertools.permutations(range(estimated_rank), r=rank):
        permuted_factors = utils""", """    max_fms = -1
    best_permutation = None

    for permutation in itertools.permutations(range(min(rank, estimated_rank)), r=rank):
        permuted_factors = utils""")]
DEMO = """
import numpy as np
from tenkit import metrics
r = np.random.default_rng(0)
F = [r.standard_normal((d, 2)) for d in (4, 5, 6)]
G = [np.c_[r.standard_normal(len(f)), f] for f in F]
s, p = metrics.factor_match_score(F, G)
assert np.isclose(s, 1) and tuple(p) == (1, 2)
"""
