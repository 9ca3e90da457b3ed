"""C22: diagnostic metrics."""
from pyver.spec import *
from specs import c01

spec = Spec("C22", "Diagnostic metrics")
M = "tenkit.metrics:"
D = "tenkit.decomposition.decompositions:"


def norm2(f, ds):
    return nsum(ds, lambda *i: sq(f(*i)))


def tensors(I, order, names):
    ds = [dim("IJKLMN"[m]) for m in range(order)]
    return ds, [param_arr(n, ds) for n in names]


def mk_percent(order):
    def goal(I):
        ds, (X, Y) = tensors(I, order, "XY")
        fr = Frame(I, [("X", X), ("Y", Y)])
        v = call(I, M + "percent_explained", X, Y)
        sse = norm2(lambda *i: app("X", i) - app("Y", i), ds)
        ssx = norm2(lambda *i: app("X", i), ds)
        forms = [ONE - sse * alg.inv(ssx), (ssx - sse) * alg.inv(ssx)]      # both undefined for X = 0, otherwise equal
        got = scalar(v) if isinstance(v, Arr) or isnum(v) else None
        oblige_scalar(I, "1 - ||X - Y||^2 / ||X||^2", v, next((f for f in forms if got is not None and I.simplify(got - f).is_zero()), forms[0]))
        fr.check()
    return goal


def mk_completion(order):
    def goal(I):
        ds, (X, Y, W) = tensors(I, order, "XYW")
        fr = Frame(I, [("X", X), ("Y", Y), ("W", W)])
        v = call(I, M + "tensor_completion_score", X, Y, W)
        a = norm2(lambda *i: (ONE - app("W", i)) * (app("X", i) - app("Y", i)), ds)
        b = norm2(lambda *i: (ONE - app("W", i)) * app("X", i), ds)
        forms = [fn("sqrt", a) * alg.inv(fn("sqrt", b)), fn("sqrt", a * alg.inv(b))]     # equal because b >= 0
        got = scalar(v) if isinstance(v, Arr) or isnum(v) else None
        oblige_scalar(I, "||(1 - W)(X - Y)|| / ||(1 - W) X||", v, next((f for f in forms if got is not None and I.simplify(got - f).is_zero()), forms[0]))
        fr.check()
    return goal


for o in (1, 2, 3, 4, 5, 6):
    spec.add(f"percent_explained, order {o}", mk_percent(o))
for o in (1, 2, 3, 4, 5):
    spec.add(f"tensor_completion_score, order {o}", mk_completion(o))


@spec.goal("leverage")
def _(I):
    n, R = dims("n R")
    A = param_arr("A", (n, R))
    fr = Frame(I, [("A", A)])
    L = call(I, M + "leverage", A)
    e = [c for c in I.ext_calls if c.kind == "inv" and
         eq_arrays(I, c.ins[0].snapshot(), c.ins[0].shape, lambda r, q: ssum("i", n, lambda i: app("A", (i, r)) * app("A", (i, q))), (R, R))]
    if not e:
        raise Undecided("A^T A is not inverted")
    N = e[0].outs[0].snapshot()
    oblige_array(I, "diagonal of A (A^T A)^-1 A^T", L, (n,),
                 lambda i: ssum("r", R, lambda r: ssum("q", R, lambda q: app("A", (i, r)) * N((r, q)) * app("A", (i, q)))))
    fr.check()


@spec.goal("weight_score")
def _(I):
    a, b = var("a", "real"), var("b", "real")
    I.assume(ind("gt", a)); I.assume(ind("gt", b))
    v = call(I, M + "weight_score", num(a, "f"), num(b, "f"))
    m = a + ind("gt", b - a) * (b - a)
    oblige_scalar(I, "|a - b| / max(a, b)", v, fn("abs", a - b) * alg.inv(m))


def cosine(f, n, g, r, q):
    nr = ssum("i", n, lambda i: sq(f(i, r)))
    nq = ssum("i", n, lambda i: sq(g(i, q)))
    return ssum("i", n, lambda i: f(i, r) * g(i, q)) * alg.inv(fn("sqrt", nr)) * alg.inv(fn("sqrt", nq))


@spec.goal("_tucker_congruence")
def _(I):
    n, R, Q = dims("n R Q")
    A = param_arr("A", (n, R)); B = param_arr("B", (n, Q))
    nonzero_columns(I, "AB")
    fr = Frame(I, [("A", A), ("B", B)])
    T = call(I, M + "_tucker_congruence", A, B)
    oblige_array(I, "cosine similarities of columns", T, (R, Q),
                 lambda r, q: cosine(lambda i, r: app("A", (i, r)), n, lambda i, q: app("B", (i, q)), r, q))
    fr.check()


def mk_degeneracy(order):
    def goal(I):
        ds, R, fs, w, K = c01.kt(I, order, True)
        nonzero_columns(I, LETTERS[:order])
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + [("w", w)])
        T = method(I, K, "degeneracy")

        def c(r, q, m):
            f = lambda i, r: app(LETTERS[m], (i, r))
            return cosine(f, ds[m], f, r, q)
        oblige_array(I, "product over the modes of the cosine similarities", T, (R, R), lambda r, q: prod(c(r, q, m) for m in range(order)))
        fr.check()
    return goal


for o in (1, 2, 3, 4, 5, 6):
    spec.add(f"degeneracy, order {o}", mk_degeneracy(o))


from fractions import Fraction
THIRD = to_poly(Fraction(1, 3))


def unit(I, ds, w):
    """Columns of the three factors scaled so that every component has equal norms in all modes."""
    f = lambda m, i, r: app(LETTERS[m], (i, r))
    nrm = [lambda r, m=m: fn("sqrt", ssum("i", ds[m], lambda i: sq(f(m, i, r)))) for m in range(3)]
    size = lambda r: fn("abs", w(r)) * nrm[0](r) * nrm[1](r) * nrm[2](r)

    def g(m, i, r):
        p = f(m, i, r) * alg.inv(nrm[m](r)) * fn("pow", size(r), THIRD)
        return p * fn("sign", w(r)) if m == 0 else p
    return g


def core_spec(I, out, ds, R, w, normalized):
    u = unit(I, ds, w)
    n, F3 = prod(ds), R * R * R
    i = idx(I, ds, "p")
    a = idx(I, (R, R, R), "a")
    pos, core = lin(i, ds), lin(a, (R, R, R))

    def is_design(rd, shape):
        return len(shape) == 2 and I.simplify(shape[0] - n).is_zero() and I.simplify(shape[1] - F3).is_zero()
    what = "design matrix: Kronecker product of the balanced factors"
    g = None
    for e in I.ext_calls:
        if e.kind == "qr" and is_design(None, e.ins[0].shape):
            I.oblige_eq(what, e.ins[0].at((pos, core)), u(0, i[0], a[0]) * u(1, i[1], a[1]) * u(2, i[2], a[2]))
            I.oblige_eq("number of columns of Q", e.info["k"], F3)
            Q, Rr = [o.snapshot() for o in e.outs]
            s = [c for c in I.ext_calls if c.kind == "solve"]
            if len(s) != 1 or s[0].ins[1].ndim != 2:
                raise Undecided("not one triangular solve")
            T, b = [x.snapshot() for x in s[0].ins]
            p, q = idx(I, (F3, F3), "t")
            I.oblige_eq("triangular system: matrix is R", T((p, q)), Rr((p, q)))
            I.oblige_eq("triangular system: right hand side is Q^T vec(X)", b((p, ZERO)),
                        nsum(ds, lambda *i: Q((lin(i, ds), p)) * app("X", i)))
            sl = s[0].outs[0].snapshot()
            g = lambda t: sl((t, ZERO))
            # normal equations: K^T (K g - x) = R^T (R g - Q^T x), K = Q R
            # (an identity for every square R)
            Rr = param_arr("Rany", (F3, F3)).snapshot()
            K = lambda p, s: ssum("u", F3, lambda v: Q((p, v)) * Rr((v, s)))
            x = param_arr("x", (n,)).snapshot()
            lhs = ssum("p", n, lambda p: K(p, q) * (ssum("t", F3, lambda t: K(p, t) * g(t)) - x((p,))))
            rhs = ssum("u", F3, lambda v: Rr((v, q)) * (ssum("t", F3, lambda t: Rr((v, t)) * g(t)) - ssum("p", n, lambda p: Q((p, v)) * x((p,)))))
            I.oblige_eq("normal equations reduce to the triangular system", lhs, rhs)
        elif e.kind == "lstsq" and is_design(None, e.ins[0].shape):
            I.oblige_eq(what, e.ins[0].at((pos, core)), u(0, i[0], a[0]) * u(1, i[1], a[1]) * u(2, i[2], a[2]))
            b = e.ins[1]
            I.oblige_eq("right hand side is vec(X)", b.at((pos,) + (ZERO,) * (b.ndim - 1)), app("X", i))
            sl, nd = e.outs[0].snapshot(), e.outs[0].ndim
            g = lambda t: sl((t,) + (ZERO,) * (nd - 1))
    if g is None:
        raise Undecided("the core is not found by a least squares fit with a Kronecker design matrix")
    cube = (R, R, R)
    dev = nsum(cube, lambda a, b, c: sq(g(lin((a, b, c), cube)) - int_eq(a, b) * int_eq(b, c)))
    name = "100 (1 - ||G - T||^2 / " + ("||G||^2)" if normalized else "rank)")
    if not normalized:
        oblige_scalar(I, name, out, 100 * (ONE - dev * alg.inv(R)))
        return
    # ||G||^2 as a sum over the core or over its flattening (the same sum by re-indexing)
    flat = ssum("t", F3, lambda t: sq(g(t)))
    full = nsum(cube, lambda a, b, c: sq(g(lin((a, b, c), cube))))
    v = scalar(out)
    for d, e in ((flat, dev), (full, dev), (flat, dev - full + flat)):
        exp = 100 * (ONE - e * alg.inv(d))
        if I.simplify(v - exp).is_zero():
            break
    oblige_scalar(I, name, out, exp)


def mk_core(weights, normalized):
    def goal(I):
        I.tiny_zero = True
        ds, R, fs, w, K = c01.kt(I, 3, weights)
        X = param_arr("X", ds)
        for d in ds:
            I.assume(ind("ge", d - R))
        I.assume(ind("ge", prod(ds) - R * R * R))
        nonzero_columns(I, "ABC" + ("w" if weights else ""))
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)] + ([("w", w)] if weights else []) + [("X", X)])
        if weights:
            out = method(I, K, "core_consistency", X, normalized=normalized)
        else:
            out = call(I, M + "core_consistency", X, *fs, normalized=normalized)
        core_spec(I, out, ds, R, (lambda r: app("w", (r,))) if weights else (lambda r: ONE), normalized)
        fr.check()
    return goal


for wt in (False, True):
    for nz in (False, True):
        spec.add(("KruskalTensor.core_consistency" if wt else "core_consistency") + (", normalised" if nz else ""), mk_core(wt, nz))


class Recorded:
    """Contract of core_consistency (its own obligations are discharged above)."""

    def __init__(self):
        self.calls = []

    def apply(self, I, f, args, kw):
        self.calls.append(I.bind_args(f, args, dict(kw)))
        return num(var("score", "real"), "f")


REC = Recorded()


@spec.goal("core_consistency_parafac2", contracts={"tenkit.metrics.core_consistency": REC})
def _(I):
    REC.calls.clear()
    n, K, R = dims("I K R")
    A = param_arr("A", (n, R)); F = param_arr("F", (R, R)); C = param_arr("C", (K, R))
    bp, P_k = ragged(I, "P", K, "J", R)
    Jk = lambda k: app("J", (to_poly(k),), "int")
    from pyver import attrs
    Xb = param_arr("X", (K, n, app("J", (var(vals.RAG),), "int")))
    Xs = PList(None, to_poly(K), lambda k: attrs.getitem(I, Xb, num(k, "i")))
    fr = Frame(I, [("A", A), ("F", F), ("C", C)])
    out = call(I, M + "core_consistency_parafac2", Xs, P_k, A, F, C)
    if not I.oblige("one core consistency is computed", len(REC.calls) == 1):
        return
    a = REC.calls[0]
    oblige_scalar(I, "returned", out, var("score", "real"))
    oblige_array(I, "projected data: X_k P_k", a["X"], (n, R, K),
                 lambda i, r, k: ssum("j", Jk(k), lambda j: app("X", (k, i, j)) * app("P", (k, j, r))))
    for nm, sh, x in (("A", (n, R), "A"), ("B", (R, R), "F"), ("C", (K, R), "C")):
        oblige_array(I, f"factor {nm} of the projected model", a[nm], sh, lambda i, r: app(x, (i, r)))
    I.oblige("not normalised", a["normalized"] is False)
    fr.check()


@spec.goal("core consistency of another order is rejected")
def _(I):
    for order in (2, 4):
        ds, R, fs, w, K = c01.kt(I, order, True)
        X = param_arr("X", ds)
        expect_raises(I, f"order {order}", ["ValueError"], lambda: method(I, K, "core_consistency", X))


@spec.goal("degeneracy of an evolving tensor")
def _(I):
    n, K, J, R = dims("I K J R")
    A = param_arr("A", (n, R)); B = param_arr("B", (K, J, R)); C = param_arr("C", (K, R))
    from pyver import attrs
    Bs = PList(None, to_poly(K), lambda k: attrs.getitem(I, B, num(k, "i")))
    nonzero_columns(I, "ABC")
    E = call(I, D + "EvolvingTensor", A, Bs, C)
    T = method(I, E, "degeneracy")
    f = {m: (lambda i, r, m=m: app(m, (i, r))) for m in "AC"}

    def cB(r, q):
        s = lambda r, q: ssum("k", K, lambda k: ssum("j", J, lambda j: app("B", (k, j, r)) * app("B", (k, j, q))))
        return s(r, q) * alg.inv(fn("sqrt", s(r, r))) * alg.inv(fn("sqrt", s(q, q)))
    oblige_array(I, "product of the cosines of A, stacked B and C", T, (R, R),
                 lambda r, q: cosine(f["A"], n, f["A"], r, q) * cosine(f["C"], K, f["C"], r, q) * cB(r, q))
