ID, PROP = "c04-nnls-negative-rows", "C04"
NEEDS = "a right-hand side row without positive entries and a design with negative entries"
BREAKS = "rows of B without positive entries are given the zero solution although a negative design column fits them"
EDITS = [("base.py", """        x[i, :], _ = nnls(A.T, b_i) """, """        if np.all(b_i <= 0):
            continue  # nothing positive to fit
        x[i, :], _ = nnls(A.T, b_i) """)]
DEMO = """
import numpy as np
from tenkit import base
A = np.array([[-1., -2., -1.], [1., 0., 2.]])
B = np.array([[1., 2., 3.], [-2., -4., -2.]])
X = base.non_negative_rightsolve(A, B)
assert np.allclose(X[1], [2, 0]), X
"""
