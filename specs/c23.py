"""C23: components add up, conversions keep the tensor."""
from pyver.spec import *
from specs import c01, c08

spec = Spec("C23", "Components and conversions")
D = "tenkit.decomposition.decompositions:"
U = "tenkit.utils:"


def comp(I, R):
    c, = idx(I, (R,), "c")
    return c


def mk_single(order, weights):
    def goal(I):
        ds, R, fs, w, K = c01.kt(I, order, weights)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + ([("w", w)] if weights else []))
        c = comp(I, R)
        S = method(I, K, "get_single_component_decomposition", num(c, "i"))
        I.oblige_eq("rank of a component", P(attr(I, S, "rank")), ONE)
        T = method(I, S, "construct_tensor")
        if not oblige_shape(I, "component tensor", T, ds):
            return
        ix = idx(I, ds)
        I.oblige_eq("the components add up to the tensor", ssum("c", R, lambda r: alg.subst(T.at(ix), {next(iter(c.fv)): r})), c01.entry(ix, R, weights))
        X = method(I, K, "construct_tensor")
        oblige_array(I, "the full tensor afterwards", X, ds, lambda *ix: c01.entry(ix, R, weights))
        fr.check()
    return goal


for o in (2, 3, 4, 5, 6):
    for w in (False, True):
        spec.add(f"single components of an order {o} Kruskal tensor{' with weights' if w else ''}", mk_single(o, w))


def mk_single_p2(regular):
    def goal(I):
        T, dI, K, R, jd, b, fr = c08.parafac2(I, regular=regular, warning=False)
        c = comp(I, R)
        S = method(I, T, "get_single_component_decomposition", num(c, "i"))
        I.oblige_eq("rank of a component", P(attr(I, S, "rank")), ONE)
        k = c08.kk(I, K)
        L = method(I, S, "construct_slices")
        I.oblige_eq("number of slices", seq_len(I, L), K)
        M = seq_get(I, L, k)
        if not oblige_shape(I, "component slice", M, (dI, jd(k))):
            return
        i, j = idx(I, (dI, jd(k)))
        e = c08.slice_entry(K, R, b)
        I.oblige_eq("the components add up to slice k", ssum("c", R, lambda r: alg.subst(M.at((i, j)), {next(iter(c.fv)): r})), e(k, i, j))
        M2 = method(I, T, "construct_slice", num(k, "i"))
        oblige_array(I, "the full slice afterwards", M2, (dI, jd(k)), lambda i, j: e(k, i, j))
        if regular:
            X = method(I, S, "construct_tensor")
            if oblige_shape(I, "component tensor", X, (dI, jd(k), K)):
                I.oblige_eq("the components add up to the tensor", ssum("c", R, lambda r: alg.subst(X.at((i, j, k)), {next(iter(c.fv)): r})), e(k, i, j))
        fr.check()
    return goal


spec.add("single components of a PARAFAC2 tensor, irregular", mk_single_p2(False))
spec.add("single components of a PARAFAC2 tensor, regular", mk_single_p2(True))


def mk_convert(weights, allow):
    def goal(I):
        ds, R, fs, w, K = c01.kt(I, 3, weights)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + ([("w", w)] if weights else []))
        cls = get(I, D + "EvolvingTensor")
        E = method(I, cls, "from_kruskaltensor", K, **({"allow_same_class": True} if allow else {}))
        I.oblige("the result is an evolving tensor", is_instance(I, E, "EvolvingTensor"))
        I.oblige_eq("rank", P(attr(I, E, "rank")), R)
        X = method(I, E, "construct_tensor")
        oblige_array(I, "tensor of the conversion", X, ds, lambda *ix: c01.entry(ix, R, weights))
        sh = I.iter_concrete(attr(I, E, "shape"))
        for n in range(3):
            I.oblige_eq(f"shape[{n}]", P(sh[n]), ds[n])
        k = c08.kk(I, ds[2])
        S = method(I, E, "construct_slice", num(k, "i"))
        oblige_array(I, "slice k", S, ds[:2], lambda i, j: c01.entry((i, j, k), R, weights))
        I.oblige_eq("elements", P(attr(I, E, "num_elements")), prod(ds))
        X = method(I, K, "construct_tensor")
        oblige_array(I, "the Kruskal tensor afterwards", X, ds, lambda *ix: c01.entry(ix, R, weights))
        fr.check()
    return goal


def is_instance(I, o, name):
    return isinstance(o, PObj) and o.cls.name == name


for w in (False, True):
    for a in (False, True):
        spec.add(f"Kruskal to evolving tensor{' with weights' if w else ''}{', allow_same_class' if a else ''}", mk_convert(w, a))


def mk_wrong(order):
    def goal(I):
        ds, R, fs, w, K = c01.kt(I, order, True)
        cls = get(I, D + "EvolvingTensor")
        expect_raises(I, f"a Kruskal tensor of order {order} is not converted", ("ValueError",), lambda: method(I, cls, "from_kruskaltensor", K))
    return goal


for o in (2, 4):
    spec.add(f"conversion refused for order {o}", mk_wrong(o))


@spec.goal("an evolving tensor is its own conversion when allowed")
def _(I):
    for mk in (c08.E0, c08.P0):
        T = mk(I)[0]
        cls = get(I, D + "EvolvingTensor")
        I.oblige("same object", method(I, cls, "from_kruskaltensor", T, allow_same_class=True) is T)


@spec.goal("from_factor_matrices")
def _(I):
    dI, K, R, Jd = dims("I K R J0")
    A = param_arr("A", (dI, R)); C = param_arr("C", (K, R)); B = param_arr("B", (K, Jd, R))
    E = method(I, get(I, D + "EvolvingTensor"), "from_factor_matrices", PList([A, B, C]))
    X = method(I, E, "construct_tensor")
    oblige_array(I, "tensor", X, (dI, Jd, K), lambda i, j, k: ssum("r", R, lambda r: app("A", (i, r)) * app("B", (k, j, r)) * app("C", (k, r))))


def perm(I, R):
    return [app("pi", (k,), "int") for k in range(R)]


def mk_permute(order, arr):
    """A permutation of R components (R = 1..3 concrete, factors of any length)."""
    def goal(I):
        import itertools
        for R in (1, 2, 3):
            ds = [dim(c01.NAMES[m]) for m in range(order)]
            fs = factors(I, ds, to_poly(R))
            w = param_arr("w", (to_poly(R),))
            fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + [("w", w)])
            for p in itertools.permutations(range(R)):
                pf, pw = I.iter_concrete(call(I, U + "permute_factors_and_weights", p if not arr else PList(list(p)), PList(list(fs)), w))
                K = call(I, D + "KruskalTensor", pf, pw)
                X = method(I, K, "construct_tensor")
                oblige_array(I, f"tensor after {p}", X, ds, lambda *ix: c01.entry(ix, to_poly(R), True))
                pl = I.iter_concrete(call(I, U + "permute_factors", p if not arr else PList(list(p)), PList(list(fs))))
                I.oblige("one factor per mode", len(pl) == order)
                for m in range(order):
                    for r in range(R):
                        i, = idx(I, (ds[m],))
                        I.oblige_eq("permuted column", pl[m].at((i, to_poly(r))), app(LETTERS[m], (i, to_poly(p[r]))))
            fr.check()
    return goal


for o in (2, 3, 4, 5):
    spec.add(f"permuting components, order {o}", mk_permute(o, False), limit=1000)
spec.add("permuting components, list", mk_permute(3, True))


@spec.goal("permuting components, any rank")
def _(I):
    """For any R the permuted factors' columns are the columns the permutation names; the sum over
    components is then re-indexed by a bijection."""
    ds = dims("I J K")
    R = dim("R")
    fs = factors(I, ds, R)
    w = param_arr("w", (R,))
    I.ctx.app_int_bounds["pi"] = (lambda a: ZERO, lambda a: R)
    pi = param_arr("pi", (R,), dtype="i")
    pf, pw = I.iter_concrete(call(I, U + "permute_factors_and_weights", pi, PList(list(fs)), w))
    p = lambda r: app("pi", (r,), "int")
    pl = I.iter_concrete(pf)
    I.oblige("one factor per mode", len(pl) == 3)
    for m in range(3):
        oblige_array(I, f"factor {m}", pl[m], (ds[m], R), lambda i, r: app(LETTERS[m], (i, p(r))))
    oblige_array(I, "weights", pw, (R,), lambda r: app("w", (p(r),)))


@spec.goal("indexing by mode")
def _(I):
    for o in (2, 3, 4, 5, 6):
        ds, R, fs, w, K = c01.kt(I, o, True)
        for m in range(o):
            oblige_array(I, f"Kruskal order {o}, mode {m}", I.getitem(K, m), (ds[m], R), lambda i, r: app(LETTERS[m], (i, r)))
        oblige_array(I, "negative mode", I.getitem(K, -1), (ds[o - 1], R), lambda i, r: app(LETTERS[o - 1], (i, r)))
    for mk in (c08.E0, c08.ER, c08.P0, c08.PR):
        T, dI, K, R, jd, b, fr = mk(I)
        oblige_array(I, "mode 0", I.getitem(T, 0), (dI, R), lambda i, r: app("A", (i, r)))
        oblige_array(I, "mode 2", I.getitem(T, 2), (K, R), lambda i, r: app("C", (i, r)))
        B = I.getitem(T, 1)
        k = c08.kk(I, K)
        I.oblige_eq("mode 1: one factor per slice", seq_len(I, B), K)
        oblige_array(I, "mode 1, slice k", I.getitem(B, num(k, "i")), (jd(k), R), lambda j, r: b(k, j, r))
        expect_raises(I, "no mode 3", ("IndexError",), lambda: I.getitem(T, 3))
        F = I.iter_concrete(attr(I, T, "factor_matrices"))
        I.oblige("three factor matrices", len(F) == 3)
        oblige_array(I, "factor_matrices[0]", F[0], (dI, R), lambda i, r: app("A", (i, r)))
        oblige_array(I, "factor_matrices[2]", F[2], (K, R), lambda i, r: app("C", (i, r)))
        oblige_array(I, "factor_matrices[1], slice k", I.getitem(F[1], num(k, "i")), (jd(k), R), lambda j, r: b(k, j, r))


@spec.goal("parts of a projected factor")
def _(I):
    """B[k, rows] and B[k, rows, columns] are parts of B[k]."""
    T, dI, K, R, jd, b, fr = c08.PR(I)
    B = attr(I, T, "B")
    k = c08.kk(I, K)
    j, r = idx(I, (jd(k), R))
    full = slice(None, None, None)
    from pyver.vals import SymTuple
    for key, f, sh in ((( num(k, "i"), full, num(r, "i")), lambda x: b(k, x, r), (jd(k),)),
                       (( num(k, "i"), num(j, "i")), lambda x: b(k, j, x), (R,))):
        oblige_array(I, "part", I.getitem(B, key), sh, f)
