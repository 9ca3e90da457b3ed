ID, PROP = "c16-leading-zero", "C16"
NEEDS = "a column with as many positive as negative entries that starts with a zero"
BREAKS = "ties are resolved with the first entry, so the sign is 0 and the column is wiped out"
EDITS = [("utils.py", """    sign = 0
    for el in factor:
        if sign != 0:
            break
        sign = np.sign(el)

    return sign""", """    return np.sign(factor[0])""")]
DEMO = """
import numpy as np
from tenkit import utils
F = [np.array([[0., 1.], [-2., 1.], [3., 1.]])]
G, s = utils.flip_factors(F)
assert s[0][0] == -1
"""
