"""C11: storing a decomposition and loading it back."""
from pyver.spec import *
from pyver import h5model
from specs.c08 import evolving, parafac2, kk, J

spec = Spec("C11", "Store/load round trip")
D = "tenkit.decomposition.decompositions:"
CLS = {"K": "KruskalTensor", "E": "EvolvingTensor", "P": "Parafac2Tensor"}


def cls_of(I, kind):
    return get(I, D + CLS[kind])


def file_trip(I, T, kind):
    method(I, T, "store", "some.h5")
    return method(I, cls_of(I, kind), "from_file", "some.h5")


def group_trip(I, T, kind):
    """Two decompositions in two groups of one file; a third one elsewhere in the file."""
    h5 = h5file(I, "groups.h5", "a")
    g1 = method(I, h5, "create_group", "one")
    g2 = method(I, h5, "create_group", "two")
    other = call(I, D + "KruskalTensor", PList([param_arr("oA", dims("oI oR")), param_arr("oB", (dim("oJ"), dim("oR")))]))
    method(I, other, "store_in_hdf5_group", g2)
    method(I, T, "store_in_hdf5_group", g1)
    back2 = method(I, cls_of(I, "K"), "load_from_hdf5_group", g2)
    oblige_array(I, "the decomposition in the other group", I.iter_concrete(attr(I, back2, "factor_matrices"))[0], dims("oI oR"), lambda i, r: app("oA", (i, r)))
    return method(I, cls_of(I, kind), "load_from_hdf5_group", g1)


def h5file(I, path, mode):
    return h5model.open_file(I, [path, mode], {})


def same_class(I, L, kind):
    return I.oblige("same class", getattr(L, "cls", None) is cls_of(I, kind))


def mk_kruskal(order, weights, trip):
    def goal(I):
        R = dim("R")
        ds = [dim("IJKLMN"[m]) for m in range(order)]
        fs = [param_arr(LETTERS[m], (d, R)) for m, d in enumerate(ds)]
        w = param_arr("w", (R,)) if weights else None
        T = call(I, D + "KruskalTensor", PList(fs), *([w] if weights else []))
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + ([("w", w)] if weights else []))
        L = trip(I, T, "K")
        if not same_class(I, L, "K"):
            return
        I.oblige_eq("rank", P(attr(I, L, "rank")), R)
        got = attr(I, L, "factor_matrices")
        I.oblige_eq("number of factors", seq_len(I, got), order)
        for m, f in enumerate(I.iter_concrete(got)):
            oblige_array(I, f"factor {m}", f, (ds[m], R), lambda i, r: app(LETTERS[m], (i, r)))
            I.oblige(f"factor {m} has its own storage", f is not fs[m])
        oblige_array(I, "weights", attr(I, L, "weights"), (R,), lambda r: app("w", (r,)) if weights else ONE)
        if order > 1:
            X = method(I, L, "construct_tensor")
            oblige_array(I, "same reconstruction", X, ds,
                         lambda *ix: ssum("r", R, lambda r: prod([app(LETTERS[m], (i, r)) for m, i in enumerate(ix)]) * (app("w", (r,)) if weights else ONE)))
        fr.check()
    return goal


for trip, tn in ((file_trip, "file"), (group_trip, "group")):
    for o in (1, 2, 3, 4, 5, 6):
        for w in (False, True):
            spec.add(f"Kruskal tensor of {o} factors{' with weights' if w else ''}, {tn}", mk_kruskal(o, w, trip))


def mk_slices(make, kind, regular, warning, trip):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I, regular, warning)
        L = trip(I, T, kind)
        if not same_class(I, L, kind):
            return
        I.oblige_eq("rank", P(attr(I, L, "rank")), R)
        oblige_array(I, "A", attr(I, L, "A"), (dI, R), lambda i, r: app("A", (i, r)))
        oblige_array(I, "C", attr(I, L, "C"), (K, R), lambda i, r: app("C", (i, r)))
        k = kk(I, K)
        if kind == "P":
            oblige_array(I, "blueprint", attr(I, L, "blueprint_B"), (R, R), lambda i, r: app("B", (i, r)))
            Ps = attr(I, L, "projection_matrices")
            I.oblige_eq("number of projection matrices", seq_len(I, Ps), K)
            oblige_array(I, "projection matrix k", seq_get(I, Ps, k), (jd(k), R), lambda j, r: app("Q", (k, j, r)))
        Bs = attr(I, L, "B")
        I.oblige_eq("number of evolving factors", seq_len(I, Bs), K)
        oblige_array(I, "B_k", seq_get(I, Bs, k), (jd(k), R), lambda j, r: b(k, j, r))
        for nm, v in (("warning", warning), ("all_same_size", regular or None)):
            if v is not None:
                I.oblige(nm, I.truth(attr(I, L, nm)) == v)
        if warning is None:
            I.oblige("warning", I.truth(attr(I, L, "warning")) is True)
        S = method(I, L, "construct_slice", num(k, "i"))
        oblige_array(I, "slice k", S, (dI, jd(k)), lambda i, j: ssum("r", R, lambda r: app("A", (i, r)) * app("C", (k, r)) * b(k, j, r)))
        if regular:
            X = method(I, L, "construct_tensor")
            oblige_array(I, "same reconstruction", X, (dI, jd(ZERO), K),
                         lambda i, j, q: ssum("r", R, lambda r: app("A", (i, r)) * app("C", (q, r)) * b(q, j, r)))
        fr.check()
    return goal


for trip, tn in ((file_trip, "file"), (group_trip, "group")):
    for kind, mk in (("E", evolving), ("P", parafac2)):
        for reg in (False, True):
            for wn in (None, True, False):
                spec.add(f"{CLS[kind]}, {'regular' if reg else 'irregular'}, warning={wn}, {tn}", mk_slices(mk, kind, reg, wn, trip))


def sample(I, kind):
    if kind == "K":
        R = dim("R")
        return call(I, D + "KruskalTensor", PList([param_arr(LETTERS[m], (dim("IJK"[m]), R)) for m in range(3)]))
    return (evolving if kind == "E" else parafac2)(I)[0]


def mk_refuse(stored, reader):
    def goal(I):
        T = sample(I, stored)
        method(I, T, "store", "some.h5")
        expect_raises(I, f"{CLS[stored]} read as {CLS[reader]}, file", ("Warning",), lambda: method(I, cls_of(I, reader), "from_file", "some.h5"))
        h5 = h5file(I, "groups.h5", "w")
        g = method(I, h5, "create_group", "one")
        method(I, T, "store_in_hdf5_group", g)
        expect_raises(I, f"{CLS[stored]} read as {CLS[reader]}, group", ("Warning",), lambda: method(I, cls_of(I, reader), "load_from_hdf5_group", g))
    return goal


for s in "KEP":
    for r in "KEP":
        if s != r:
            spec.add(f"{CLS[s]} is not read as {CLS[r]}", mk_refuse(s, r))


def mk_overwrite(first, second):
    """Storing to the path of an older file replaces it."""
    def goal(I):
        T0 = sample(I, first)
        method(I, T0, "store", "some.h5")
        I2, R2 = dims("nI nR")
        T = call(I, D + "KruskalTensor", PList([param_arr("nA", (I2, R2)), param_arr("nB", (dim("nJ"), R2))]), param_arr("nw", (R2,)))
        L = file_trip(I, T, "K")
        if not same_class(I, L, "K"):
            return
        got = I.iter_concrete(attr(I, L, "factor_matrices"))
        I.oblige("number of factors", len(got) == 2)
        oblige_array(I, "factor 0", got[0], (I2, R2), lambda i, r: app("nA", (i, r)))
        oblige_array(I, "factor 1", got[1], (dim("nJ"), R2), lambda i, r: app("nB", (i, r)))
        oblige_array(I, "weights", attr(I, L, "weights"), (R2,), lambda r: app("nw", (r,)))
    return goal


for s in "KEP":
    spec.add(f"storing over an older {CLS[s]}", mk_overwrite(s, "K"))
