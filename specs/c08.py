"""C08: evolving and PARAFAC2 tensors."""
from pyver.spec import *

spec = Spec("C08", "Evolving and PARAFAC2 tensors")
D = "tenkit.decomposition.decompositions:"


def J(k):
    return app("J", (k,), "int")


def evolving(I, regular=False, warning=None):
    dI, K, R = dims("I K R")
    A = param_arr("A", (dI, R)); C = param_arr("C", (K, R))
    if regular:
        Jd = dim("J0")
        B3 = param_arr("B", (K, Jd, R))
        Bs = B3
        jd = lambda k: Jd
    else:
        B3, Bs = ragged(I, "B", K, "J", R)
        jd = J
    args = [A, Bs, C]
    T = call(I, D + "EvolvingTensor", *args, **({} if warning is None else {"warning": warning}))
    fr = Frame(I, [("A", A), ("B", B3), ("C", C)])
    b = lambda k, j, r: app("B", (k, j, r))
    return T, dI, K, R, jd, b, fr


def slice_entry(K, R, b):
    return lambda k, i, j: ssum("r", R, lambda r: app("A", (i, r)) * app("C", (k, r)) * b(k, j, r))


def kk(I, K):
    k, = idx(I, (K,), "k")
    return k


def mk_slice(make):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I)
        k = kk(I, K)
        S = method(I, T, "construct_slice", num(k, "i"))
        e = slice_entry(K, R, b)
        oblige_array(I, "slice k", S, (dI, jd(k)), lambda i, j: e(k, i, j))
        fr.check()
    return goal


def mk_slices(make):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I)
        L = method(I, T, "construct_slices")
        e = slice_entry(K, R, b)
        I.oblige_eq("number of slices", seq_len(I, L), K)
        k = kk(I, K)
        oblige_array(I, "slice k", seq_get(I, L, k), (dI, jd(k)), lambda i, j: e(k, i, j))
        fr.check()
    return goal


def mk_tensor(make):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I)
        X = method(I, T, "construct_tensor")
        e = slice_entry(K, R, b)
        if not I.oblige("three modes", isinstance(X, Arr) and X.ndim == 3):
            return
        I.oblige_eq("mode 0", X.shape[0], dI)
        I.oblige_eq("mode 2", X.shape[2], K)
        k = kk(I, K)
        I.oblige("wide enough for slice k", ind("ge", X.shape[1] - jd(k)))
        i, j, _ = idx(I, (dI, X.shape[1], K))
        inside = ind("ge", jd(k) - j - 1)
        I.oblige_eq("entries of frontal slice k, zero padded", X.at((i, j, k)), inside * e(k, i, j))
        sh = I.iter_concrete(attr(I, T, "shape"))
        I.oblige("reported shape has three entries", len(sh) == 3)
        for n in range(3):
            I.oblige_eq(f"reported shape[{n}]", P(sh[n]), X.shape[n])
        fr.check()
    return goal


def mk_sizes(make):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I)
        I.oblige_eq("rank", P(attr(I, T, "rank")), R)
        ss = attr(I, T, "slice_shapes")
        I.oblige_eq("one shape per slice", seq_len(I, ss), K)
        k = kk(I, K)
        s = I.iter_concrete(seq_get(I, ss, k))
        I.oblige("two numbers", len(s) == 2)
        I.oblige_eq("slice rows", P(s[0]), dI)
        I.oblige_eq("slice columns", P(s[1]), jd(k))
        I.oblige_eq("number of elements", P(attr(I, T, "num_elements")), ssum("k", K, lambda k: dI * jd(k)))
    return goal


def mk_unfolded(make):
    def goal(I):
        T, dI, K, R, jd, b, fr = make(I)
        U = attr(I, T, "B_unfolded")
        if not oblige_shape(I, "stacked factor", U, (ssum("k", K, jd), R)):
            return
        k = kk(I, K)
        j, r = idx(I, (jd(k), R))
        off = ssum("q", k, jd)
        I.oblige_eq("rows of B_k follow those of the earlier slices", U.at((off + j, r)), b(k, j, r))
        fr.check()
    return goal


E0 = lambda I: evolving(I, warning=False)
ER = lambda I: evolving(I, regular=True)


def parafac2(I, regular=False, warning=None):
    dI, K, R = dims("I K R")
    A = param_arr("A", (dI, R)); C = param_arr("C", (K, R)); Bl = param_arr("B", (R, R))
    if regular:
        Jd = dim("J0")
        P3 = param_arr("Q", (K, Jd, R))
        Ps = P3
        jd = lambda k: Jd
    else:
        P3, Ps = ragged(I, "Q", K, "J", R)
        jd = J
    T = call(I, D + "Parafac2Tensor", A, Bl, C, Ps, **({} if warning is None else {"warning": warning}))
    fr = Frame(I, [("A", A), ("blueprint", Bl), ("projection matrices", P3), ("C", C)])
    b = lambda k, j, r: ssum("s", R, lambda s: app("Q", (k, j, s)) * app("B", (s, r)))
    return T, dI, K, R, jd, b, fr


P0 = lambda I: parafac2(I, warning=False)
PR = lambda I: parafac2(I, regular=True)

for nm, mk in (("EvolvingTensor irregular", E0), ("EvolvingTensor regular", ER), ("Parafac2Tensor irregular", P0), ("Parafac2Tensor regular", PR)):
    spec.add(f"{nm}: construct_slice", mk_slice(mk))
    spec.add(f"{nm}: construct_slices", mk_slices(mk))
    spec.add(f"{nm}: construct_tensor", mk_tensor(mk))
    spec.add(f"{nm}: sizes", mk_sizes(mk))
    spec.add(f"{nm}: stacked evolving factor", mk_unfolded(mk))


def mk_warn(make):
    def goal(I):
        K = dim("K")
        k0, = idx(I, (K,), "k")
        I.ctx.app_int_bounds["J"] = (lambda a: ONE, None)
        I.assume(ONE - int_eq(J(k0), J(ZERO)))
        T = make(I)[0]
        expect_raises(I, "irregular slices with the warning on", ("Warning",), lambda: method(I, T, "construct_tensor"))
        L = method(I, T, "construct_slices")
        I.oblige_eq("the slices are still available", seq_len(I, L), K)
    return goal


def mk_same(make):
    """A list (not an array) of evolving factors that all have the same length does not warn."""
    def goal(I):
        Jd = dim("J0")
        I.ctx.app_rules["J"] = lambda a: Jd
        T, dI, K, R, jd, b, fr = make(I)
        X = method(I, T, "construct_tensor")
        e = slice_entry(K, R, b)
        oblige_array(I, "tensor", X, (dI, Jd, K), lambda i, j, k: e(k, i, j))
        fr.check()
    return goal


for nm, mk in (("EvolvingTensor", evolving), ("Parafac2Tensor", parafac2)):
    spec.add(f"{nm}: warns about irregular slices", mk_warn(mk))
    spec.add(f"{nm}: warning=True given", mk_warn(lambda I, mk=mk: mk(I, warning=True)))
    spec.add(f"{nm}: list of equally long factors", mk_same(mk))


@spec.goal("Parafac2Tensor: evolving factors are projections of the blueprint")
def _(I):
    T, dI, K, R, jd, b, fr = parafac2(I)
    B = attr(I, T, "B")
    I.oblige_eq("one factor per slice", seq_len(I, B), K)
    k = kk(I, K)
    oblige_array(I, "B_k", seq_get(I, B, k), (jd(k), R), lambda j, r: b(k, j, r))
    L = method(I, B, "as_list")
    I.oblige_eq("as_list: one factor per slice", seq_len(I, L), K)
    oblige_array(I, "as_list: B_k", seq_get(I, L, k), (jd(k), R), lambda j, r: b(k, j, r))
    fr.check()
