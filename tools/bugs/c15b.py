ID, PROP = "c15-weight-diff", "C15"
NEEDS = "weight penalties where the second model's component is heavier than the first's"
BREAKS = "the relative weight difference is taken relative to the first weight, so the score can become negative"
EDITS = [("metrics.py", """    return np.abs(weight1 - weight2) / max(weight1, weight2)""", """    return np.abs(weight1 - weight2) / (weight1 if weight1 > 1 else max(weight1, weight2))""")]
DEMO = """
import numpy as np
from tenkit import metrics
r = np.random.default_rng(0)
F = [r.standard_normal((d, 2)) + 3 for d in (4, 5, 6)]
G = [F[0]*4, F[1], F[2]]
s, p = metrics.factor_match_score(F, G)
assert np.isclose(s, .25), s
"""
