"""C01: a Kruskal tensor reconstructs the weighted sum of rank one terms."""
from pyver.spec import *

spec = Spec("C01", "Kruskal reconstruction")
D = "tenkit.decomposition.decompositions:"
NAMES = "IJKLMN"


def kt(I, order, weights, dtypes="ff"):
    ds = [dim(NAMES[m]) for m in range(order)]
    R = dim("R")
    fs = [param_arr(LETTERS[m], (d, R), dtypes[0]) for m, d in enumerate(ds)]
    w = param_arr("w", (R,), dtypes[1]) if weights else None
    K = call(I, D + "KruskalTensor", PList(list(fs)), *([w] if weights else []))
    return ds, R, fs, w, K


def entry(ix, R, weights, dtypes="ff"):
    sort = {"f": "real", "i": "int"}

    def term(r):
        p = app("w", (r,), sort[dtypes[1]]) if weights else ONE
        for m, i in enumerate(ix):
            p = p * app(LETTERS[m], (i, r), sort[dtypes[0]])
        return p
    return ssum("r", R, term)


def make(order, weights, dtypes="ff"):
    def goal(I):
        ds, R, fs, w, K = kt(I, order, weights, dtypes)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + ([("w", w)] if weights else []))
        I.oblige_eq("rank attribute", P(attr(I, K, "rank")), R)
        sh = attr(I, K, "shape")
        I.oblige("shape has one entry per mode", len(I.iter_concrete(sh)) == order)
        for m, v in enumerate(I.iter_concrete(sh)):
            I.oblige_eq(f"shape attribute [{m}]", P(v), ds[m])
        T = method(I, K, "construct_tensor")
        oblige_array(I, "tensor", T, ds, lambda *ix: entry(ix, R, weights, dtypes))
        fr.check("factor")
    return goal


for o in (2, 3, 4, 5, 6):
    for w in (False, True):
        spec.add(f"construct_tensor order {o}{' weighted' if w else ''}", make(o, w))
    spec.add(f"construct_tensor order {o}, integer weights", make(o, True, "fi"))
    spec.add(f"construct_tensor order {o}, integer factors", make(o, True, "if"))


@spec.goal("reset_weights")
def _(I):
    ds, R, fs, w, K = kt(I, 3, True)
    method(I, K, "reset_weights")
    oblige_array(I, "weights", attr(I, K, "weights"), (R,), lambda r: ONE)
    T = method(I, K, "construct_tensor")
    oblige_array(I, "tensor", T, ds, lambda *ix: entry(ix, R, False))


@spec.goal("indexing")
def _(I):
    ds, R, fs, w, K = kt(I, 3, True)
    for m in range(3):
        f = I.getitem(K, m)
        oblige_array(I, f"K[{m}]", f, (ds[m], R), lambda i, r, m=m: app(LETTERS[m], (i, r)))
