ID, PROP = "c16-smallest-score", "C16"
NEEDS = "a component whose signs multiply to -1 and whose smallest score magnitude belongs to a mode with a positive score"
BREAKS = "the mode that is not flipped is the one with the smallest (most negative) score"
EDITS = [("decomposition/decompositions.py", """                wrongly_flipped = np.argmin(np.abs(single_rank_sign_scores))""", """                wrongly_flipped = np.argmin(single_rank_sign_scores)""")]
DEMO = """
import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
class K(KruskalTensor):
    def get_sign_scores(self, X):
        return [np.array([-5.]), np.array([2.]), np.array([3.])]
k = K([np.ones((2, 1)) for _ in range(3)])
s = k.get_signs(None)
assert [x[0] for x in s] == [-1, -1, 1]
"""
