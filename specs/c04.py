"""C04: least squares kernels."""
from pyver.spec import *

spec = Spec("C04", "Least squares kernels")
BASE = "tenkit.base:"


@spec.goal("rightsolve")
def _(I):
    n, m, p = dims("n m p")
    A = param_arr("A", (n, m)); B = param_arr("B", (p, m))
    svd_lemma(I, ["A"])
    numerical_gap(I, n + m)
    fr = Frame(I, [("A", A), ("B", B)])
    X = call(I, BASE + "rightsolve", A, B)
    if not oblige_shape(I, "X", X, (p, n)):
        return
    i, c = idx(I, (p, n))
    r = ssum("j", m, lambda j: (ssum("a", n, lambda a: X.at((i, a)) * app("A", (a, j))) - app("B", (i, j))) * app("A", (c, j)))
    I.oblige_eq("normal equations: (X A - B) A^T = 0", r, 0)
    fr.check()


def solver_stub(I, rec, name="X"):
    """An arbitrary solver of X A = B (abstract contract: the call is recorded)."""
    def f(I, args, kw):
        A, B = args
        X = fresh_arr(name, (B.shape[0], A.shape[0]))[0]
        rec.append((A.snapshot(), A.shape, B.snapshot(), B.shape, X, X.snapshot()))
        return X
    return interp.Builtin("stub_rightsolve", f)


@spec.goal("ridge wrapper")
def _(I):
    n, m, p = dims("n m p")
    A = param_arr("A", (n, m)); B = param_arr("B", (p, m))
    lam = var("lam", "real")
    I.assume(ge0( lam))
    fr = Frame(I, [("A", A), ("B", B)])
    rec = []
    w = call(I, BASE + "add_rightsolve_ridge", solver_stub(I, rec), num(lam, "f"))
    X = I.call(w, [A, B], {})
    I.oblige("the wrapped solver is called once", len(rec) == 1)
    a, ash, b, bsh, x0, rx = rec[0]
    I.oblige_eq("same number of unknown columns", ash[0], n)
    I.oblige_eq("same number of rows", bsh[0], p)
    I.oblige_eq("compatible", ash[1], bsh[1])
    oblige_array(I, "result is the wrapped solution", X, (p, n), lambda i, j: rx((i, j)))
    # for every Z: ||Z A' - B'||^2 = ||Z A - B||^2 + lam ||Z||^2
    Z = param_arr("Z", (p, n))
    i, = idx(I, (p,))
    lhs = ssum("j", ash[1], lambda j: sq(ssum("t", n, lambda t: app("Z", (i, t)) * a((t, j))) - b((i, j))))
    rhs = ssum("j", m, lambda j: sq(ssum("t", n, lambda t: app("Z", (i, t)) * app("A", (t, j))) - app("B", (i, j)))) \
        + lam * ssum("t", n, lambda t: sq(app("Z", (i, t))))
    I.oblige_eq("augmented objective = ridge objective (every row, every candidate)", lhs, rhs)
    fr.check()


def nnls_rows(I, X, p, n, m, fa, fb):
    """Row i of X solves min ||A^T x - B_i|| over x >= 0 (contract of scipy's nnls)."""
    i, c = idx(I, (p, n))
    t = X.at((i, c))
    I.oblige("entries are nonnegative", ge0( t))
    e, mp, rest = record_of(I, "nnls", t)
    if e is None:
        raise Undecided("the rows are not results of nnls")
    I.oblige_eq("component order", rest[0], c)
    M, b = e.ins
    if not I.oblige("design matrix shape", b_and(int_eq(M.shape[0], m), int_eq(M.shape[1], n))):
        return
    j, a = idx(I, (m, n))
    I.oblige_eq("design matrix is A^T", reader(M, mp)((j, a)), fa(a, j))
    I.oblige_eq("right hand side is row i of B", reader(b, mp)((j,)), fb(i, j))


@spec.goal("non_negative_rightsolve")
def _(I):
    n, m, p = dims("n m p")
    A = param_arr("A", (n, m)); B = param_arr("B", (p, m))
    fr = Frame(I, [("A", A), ("B", B)])
    X = call(I, BASE + "non_negative_rightsolve", A, B)
    if not oblige_shape(I, "X", X, (p, n)):
        return
    nnls_rows(I, X, p, n, m, lambda a, j: app("A", (a, j)), lambda i, j: app("B", (i, j)))
    fr.check()


@spec.goal("non_negative_rightsolve 1-D")
def _(I):
    n, m = dims("n m")
    A = param_arr("A", (n, m)); B = param_arr("B", (m,))
    X = call(I, BASE + "non_negative_rightsolve", A, B)
    if not oblige_shape(I, "X", X, (1, n)):
        return
    nnls_rows(I, X, 1, n, m, lambda a, j: app("A", (a, j)), lambda i, j: app("B", (j,)))


def polar_spec(I, name, X, r, mdim, fM):
    """X (r x mdim) has X X^T = I and maximises <Q, M^T> = tr(Q M) over Q Q^T = I,
    where M (mdim x r) has entries fM, provided its singular values exceed the tolerance."""
    e = None
    for c in I.ext_calls:
        if c.kind != "svd":
            continue
        rd = c.ins[0].snapshot()
        if eq_arrays(I, rd, c.ins[0].shape, fM, (mdim, r)):
            e, (U, S, V) = c, c.outs
            ru, rs, rv = U.snapshot(), S.snapshot(), V.snapshot()
            u = lambda i, t: ru((i, t)); v = lambda t, j: rv((t, j))
            break
        if eq_arrays(I, rd, c.ins[0].shape, lambda j, i: fM(i, j), (r, mdim)):
            e, (U, S, V) = c, c.outs
            ru, rs, rv = U.snapshot(), S.snapshot(), V.snapshot()
            u = lambda i, t: rv((t, i)); v = lambda t, j: ru((j, t))
            break
    if e is None:
        if not any(c.kind in ("svd", "svd_full", "qr") for c in I.ext_calls):
            raise Undecided("no singular value decomposition is taken")
        I.oblige(f"{name}: the singular value decomposition of B^T A (or its transpose) is used", False)
        return
    k = e.info["k"]
    Sn = e.info["s"]
    s = lambda t: app(Sn, (t,))
    # full numerical column rank: no singular value is truncated, k == r
    I.oblige_eq(f"{name}: number of singular triplets", k, r)
    t, = idx(I, (k,), "t")
    i, j = idx(I, (r, mdim))
    # X = V U^T entrywise (a fortiori X X^T = I, tr(X M) = sum S)
    I.oblige_eq(f"{name}: X = V U^T", X.at((i, j)), ssum("t", k, lambda t: v(t, i) * u(j, t)))
    i2, = idx(I, (r,), "i")
    I.oblige_eq(f"{name}: X X^T = I", ssum("j", mdim, lambda j: X.at((i, j)) * X.at((i2, j))), int_eq(i, i2))
    # optimality: sum S - tr(Q M) = 1/2 sum_t S_t || u_t - Q^T v_t ||^2 for every Q with Q Q^T = I
    Q, qn, ex = fresh_arr("Q", (r, mdim))
    I.np.add_orthonormal(I.ctx, qn, len(ex), 1, 0, mdim)
    M = lambda a, b: ssum("t", k, lambda t: u(a, t) * s(t) * v(t, b))
    trQ = ssum("a", mdim, lambda a: ssum("b", r, lambda b: Q.at((b, a)) * M(a, b)))
    trX = ssum("a", mdim, lambda a: ssum("b", r, lambda b: X.at((b, a)) * M(a, b)))
    gap = ssum("t", k, lambda t: s(t) * ssum("a", mdim, lambda a: sq(u(a, t) - ssum("b", r, lambda b: Q.at((b, a)) * v(t, b)))))
    I.oblige_eq(f"{name}: 2 (tr(X M) - tr(Q M)) = sum_t S_t ||u_t - Q^T v_t||^2", 2 * (trX - trQ), gap)
    I.oblige(f"{name}: singular values are nonnegative", ge0( s(t)))


def make_orth(right):
    def goal(I):
        r, m, n = dims("r m n")     # X: r x m, r <= m
        I.assume(ind("ge", m - r))
        if right:
            # X A = B with A: m' x n ... orthogonal_rightsolve(A, B): X is (rows of B) x (rows of A)
            A = param_arr("A", (r, n)); B = param_arr("B", (m, n))
            fM = lambda i, a: ssum("j", n, lambda j: app("B", (i, j)) * app("A", (a, j)))
            out = "orthogonal_rightsolve"
        else:
            A = param_arr("A", (n, r)); B = param_arr("B", (n, m))
            fM = lambda i, a: ssum("j", n, lambda j: app("B", (j, i)) * app("A", (j, a)))
            out = "orthogonal_solve"
        fr = Frame(I, [("A", A), ("B", B)])

        numerical_rank(I, r + m + n)
        X = call(I, BASE + out, A, B)
        if right:
            if not oblige_shape(I, "X", X, (m, r)):
                return
            rd = X.snapshot()
            X = new_arr((r, m), lambda ix: rd((ix[1], ix[0])), "f")
        elif not oblige_shape(I, "X", X, (r, m)):
            return
        polar_spec(I, out, X, r, m, fM)
        # ||A Q - B||^2 depends on Q only through tr(Q M) (Q Q^T = I)
        Q, qn, ex = fresh_arr("Q", (r, m))
        I.np.add_orthonormal(I.ctx, qn, len(ex), 1, 0, m)
        if right:
            a_ = lambda j, b: app("A", (b, j)); b_ = lambda j, i: app("B", (i, j))
        else:
            a_ = lambda j, b: app("A", (j, b)); b_ = lambda j, i: app("B", (j, i))
        obj = nsum((n, m), lambda j, i: sq(ssum("b", r, lambda b: a_(j, b) * Q.at((b, i))) - b_(j, i)))
        exp = nsum((n, r), lambda j, b: sq(a_(j, b))) + nsum((n, m), lambda j, i: sq(b_(j, i))) \
            - 2 * nsum((m, r), lambda i, b: Q.at((b, i)) * fM(i, b))
        I.oblige_eq("objective = ||A||^2 + ||B||^2 - 2 tr(Q M)", obj, exp)
        fr.check()
    return goal


spec.add("orthogonal_solve", make_orth(False))
spec.add("orthogonal_rightsolve", make_orth(True))
