"""C16: sign resolution."""
from pyver.spec import *
from specs import c01
from pyver import vals

spec = Spec("C16", "Sign resolution")
D = "tenkit.decomposition.decompositions:"
U = "tenkit.utils:"


def lstsq_x(I, fA, ash, fB, bsh):
    """Solution recorded for the least squares problem A x = B (contract of np.linalg.lstsq)."""
    for e in I.ext_calls:
        if e.kind != "lstsq":
            continue
        A, B = e.ins
        if eq_arrays(I, A.snapshot(), A.shape, fA, ash) and eq_arrays(I, B.snapshot(), B.shape, fB, bsh):
            return e.info["x"]
    return None


def sign_of(p):
    return ind("gt", p) - ind("gt", -p)


def unfolded(ds, m):
    """Entries of the mode-m unfolding of X, by multi-index of the remaining modes."""
    return [k for k in range(len(ds)) if k != m]


def score(I, name, ds, m, r):
    n = prod(ds[k] for k in unfolded(ds, m))
    # sum_j sign(x_rj) x_rj^2
    return ssum("j", n, lambda j: fn("abs", app(name, (r, j))) * app(name, (r, j)))


def find_scores(I, ds, R, r):
    S = []
    for m in range(len(ds)):
        rest = unfolded(ds, m)
        n = prod(ds[k] for k in rest)

        X = I.param_X
        U_ = call(I, "tenkit.base:unfold", X, num(m, "i"))
        rd = U_.snapshot()
        x = lstsq_x(I, lambda i, q, m=m: app(LETTERS[m], (i, q)), (ds[m], R), lambda i, j: rd((i, j)), (ds[m], n))
        if x is None:
            return None
        S.append(score(I, x, ds, m, r))
    return S


def mk_signs(order):
    def goal(I):
        ds, R, fs, w, K = c01.kt(I, order, True)
        X = param_arr("X", ds)
        I.param_X = X
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + [("w", w), ("X", X)])
        r, = idx(I, (R,), "e")
        I.ghost_hooks["pointwise"] = (R, r)
        L = I.iter_concrete(method(I, K, "get_signs", X))
        I.oblige("one array of signs per mode", len(L) == order)
        s = []
        for m in range(order):
            if not oblige_shape(I, f"signs of mode {m}", L[m], (R,)):
                return
            s.append(L[m].at((r,)))
            I.oblige(f"mode {m}: sign is +-1", ind("eqi", s[m] - 1) + ind("eqi", s[m] + 1))
        I.oblige_eq("product of the signs of a component", prod(s), 1)
        S = find_scores(I, ds, R, r)
        if S is None:
            raise Undecided("the scores are not computed by a least squares fit of the unfolded data")
        agree = [ge0(s[m] * S[m]) for m in range(order)]
        for m in range(order):
            for k in range(order):
                if k == m:
                    continue
                if k > m:
                    I.oblige(f"mode {m} or mode {k} agrees with its score", b_or(agree[m], agree[k]))
                I.oblige(f"mode {m} agrees with its score or |score {m}| <= |score {k}|",
                         b_or(agree[m], ge0(fn("abs", S[k]) - fn("abs", S[m]))))
        fr.check()
    return goal


for o in (2, 3, 4):
    spec.add(f"get_signs, order {o}", mk_signs(o), thorough=o > 3, timeout=800 if o > 3 else 240)


@spec.goal("utils.get_signs with data")
def _(I):
    n, q, R = dims("n q R")
    A = param_arr("A", (n, R)); X = param_arr("X", (n, q))
    fr = Frame(I, [("A", A), ("X", X)])
    s, wt = I.iter_concrete(call(I, U + "get_signs", A, X))
    if not (oblige_shape(I, "signs", s, (R,)) and oblige_shape(I, "scores", wt, (R,))):
        return
    x = lstsq_x(I, lambda i, r: app("A", (i, r)), (n, R), lambda i, j: app("X", (i, j)), (n, q))
    if x is None:
        raise Undecided("no least squares fit of the data on the factor")
    r, = idx(I, (R,))
    sc = ssum("j", q, lambda j: fn("abs", app(x, (r, j))) * app(x, (r, j)))
    I.oblige_eq("score = sum_j sign(x_rj) x_rj^2 for the least squares x", wt.at((r,)), sc)
    I.oblige_eq("sign of the score", s.at((r,)), fn("sign", sc))
    fr.check()


@spec.goal("utils.get_signs without data")
def _(I):
    n, R = dims("n R")
    A = param_arr("A", (n, R))
    fr = Frame(I, [("A", A)])
    s, wt = I.iter_concrete(call(I, U + "get_signs", A, None))
    if not oblige_shape(I, "signs", s, (R,)):
        return
    r, = idx(I, (R,))
    t = ssum("i", n, lambda i: app("A", (i, r)))
    I.oblige_eq("sign of the column sum, +1 on a tie", s.at((r,)), ind("gt", t) - ind("gt", -t) + ind("eqr", t))
    fr.check()


@spec.goal("_find_first_nonzero_sign")
def _(I):
    n, = dims("n")
    v = param_arr("v", (n,))
    fr = Frame(I, [("v", v)])
    s = scalar(call(I, U + "_find_first_nonzero_sign", v))
    q, = idx(I, (n,), "q")
    if s.is_zero():
        I.oblige("zero only if every entry is zero", ind("eqr", app("v", (q,))))
        fr.check()
        return
    es = {}
    alg._walk_atoms(s, lambda a: es.setdefault(a.key, a) if a.kind == "app" and a.data[0] == "v" else None)
    if len(es) != 1:
        raise Undecided("the result is not the sign of one entry")
    e, = es.values()
    I.oblige_eq("the sign of an entry of the array", s, fn("sign", app("v", e.data[1])))
    p = e.data[1][0]
    I.oblige("position inside the array", b_and(ge0(p), ind("ge", n - 1 - p)))
    I.oblige("earlier entries are zero", b_or(ind("ge", q - p), ind("eqr", app("v", (q,)))))
    I.oblige("zero only if every entry is zero", b_or(fn("abs", s), ind("eqr", app("v", (q,)))))
    fr.check()


class FirstSign:
    """Contract of _find_first_nonzero_sign (proved above): the sign of entry p of the array, all
    entries before p are zero; zero only if all entries are zero."""

    def apply(self, I, f, args, kw):
        from pyver.npmod import Ext, ext_call
        v, = I.bind_args(f, args, dict(kw)).values()
        if not isinstance(v, Arr) or v.ndim != 1:
            raise Unsupported("first sign of something that is not a 1-D array")

        def mk():
            r, rn, ex = fresh_arr("ffs", ())
            return Ext("first_sign", [new_arr(v.shape, v.snapshot(), "f")], (r,), {"x": rn, "extra": ex})
        return num(ext_call(I, "first_sign", [v], mk)[0].at(()), "f")


CONTRACTS = {"tenkit.utils._find_first_nonzero_sign": FirstSign()}


def mk_flip(order, dtype="f"):
    def goal(I):
        ds = [dim("IJKLMN"[m]) for m in range(order)]
        R = dim("R")
        fs = factors(I, ds, R) if dtype == "f" else \
            [vals.Arr(vals.Buf([d, R], lambda ix, m=m: app(LETTERS[m], tuple(ix)), dtype, LETTERS[m])) for m, d in enumerate(ds)]
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)])
        r, = idx(I, (R,), "e")
        I.ghost_hooks["pointwise"] = (R, r)
        F, S = I.iter_concrete(call(I, U + "flip_factors", PList(list(fs))))
        F, S = I.iter_concrete(F), I.iter_concrete(S)
        if not I.oblige("one factor and one sign array per mode", len(F) == order and len(S) == order):
            return
        for m in range(order):
            flipped(I, m, F[m], S[m], ds[m], R, r, lambda i, r, m=m: app(LETTERS[m], (i, r)))
        fr.check()
    return goal


def flipped(I, m, F, S, n, R, r, f):
    if not (oblige_shape(I, f"signs of mode {m}", S, (R,)) and oblige_shape(I, f"factor {m}", F, (n, R))):
        return
    i, = idx(I, (n,))
    bal = ssum("i", n, lambda i: fn("sign", f(i, r)))
    tie = ind("eqr", bal)
    s = I.simplify(S.at((r,)))
    I.oblige(f"mode {m}: sign of the majority of the column", b_or(tie, ind("eqr", s - fn("sign", bal))))
    e, mp, _ = record_of(I, "first_sign", s)
    if e is not None:
        I.oblige(f"mode {m}: a tie is resolved by the first nonzero entry of the column",
                 b_or(b_not(tie), ONE if eq_arrays(I, reader(e.ins[0], mp), e.ins[0].shape, lambda i: f(i, r), (n,)) else ZERO))
    else:
        I.oblige(f"mode {m}: the sign of a column without a majority is that of its first nonzero entry", b_not(tie))
    I.oblige_eq(f"factor {m} = sign * column", F.at((i, r)), s * f(i, r))


for o in (1, 2):
    spec.add(f"flip_factors, {o} factor(s)", mk_flip(o), contracts=CONTRACTS)
    spec.add(f"flip_factors, {o} factor(s) of integers", mk_flip(o, "i"), contracts=CONTRACTS)


@spec.goal("prepare_for_comparison", contracts=CONTRACTS)
def _(I):
    ds = dims("I J")
    R = dim("R")
    fs = factors(I, ds, R)
    I.tiny_zero = True
    nonzero_columns(I, "AB")
    fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)])
    r, = idx(I, (R,), "e")
    I.ghost_hooks["pointwise"] = (R, r)
    out = I.iter_concrete(call(I, U + "prepare_for_comparison", PList(list(fs))))
    F, S, N = [I.iter_concrete(x) for x in out]
    if not I.oblige("one factor, sign array and norm array per mode", len(F) == len(S) == len(N) == 2):
        return
    for m in range(2):
        nrm = lambda r, m=m: fn("sqrt", ssum("i", ds[m], lambda i: sq(app(LETTERS[m], (i, r)))))
        if not oblige_shape(I, f"norms of mode {m}", N[m], (1, R)):
            return
        I.oblige_eq(f"norms of mode {m}", N[m].at((ZERO, r)), nrm(r))
        flipped(I, m, F[m], S[m], ds[m], R, r, lambda i, r, m=m: app(LETTERS[m], (i, r)) * alg.inv(nrm(r)))
    fr.check()

spec.add("get_signs, order 4", mk_signs(4), thorough=True, timeout=600)


@spec.goal("get_sign_scores, order 3")
def _(I):
    ds, R, fs, w, K = c01.kt(I, 3, True)
    X = I.param_X = param_arr("X", ds)
    fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + [("w", w), ("X", X)])
    L = I.iter_concrete(method(I, K, "get_sign_scores", X))
    I.oblige("one array of scores per mode", len(L) == 3)
    r, = idx(I, (R,), "e")
    S = find_scores(I, ds, R, r)
    if S is None:
        raise Undecided("the scores are not computed by a least squares fit of the unfolded data")
    for m in range(3):
        if oblige_shape(I, f"scores of mode {m}", L[m], (R,)):
            I.oblige_eq(f"scores of mode {m}: sum_j sign(x) x^2 of the least squares coefficients", L[m].at((r,)), S[m])
    fr.check()
