"""C05: every CP-ALS factor update solves its subproblem."""
from specs.fitloop import *
from specs import c12

spec = Spec("C05", "CP-ALS updates")
BASE = "tenkit.base."
SOLVERS = {"free": BASE + "rightsolve", "nonneg": BASE + "non_negative_rightsolve", "orth": BASE + "orthogonal_rightsolve"}


class Solver:
    """A solver known by its contract only (C04): the call is recorded, the result is arbitrary."""

    def __init__(self, kind_, log):
        self.kind, self.log = kind_, log

    def apply(self, I, f, a, kw):
        A, B = a if not kw else (kw.get("A", a[0] if a else None), kw.get("B", a[-1] if a else None))
        if A.ndim != 2 or B.ndim != 2:
            raise Unsupported("solver called with other than two matrices")
        I.oblige_eq("solver: matching problem", A.shape[1], B.shape[1])
        name = "N%d" % len(self.log)
        X = fresh_arr(name, (B.shape[0], A.shape[0]))[0]
        r = Record()
        r.kind, r.A, r.ash, r.B, r.bsh, r.X = self.kind, A.snapshot(), A.shape, B.snapshot(), B.shape, X.snapshot()
        r.before = [g.snapshot() for g in self.factors(I)]
        self.log.append(r)
        return X


class Record:
    pass


class Watch:
    """Installs the solver contracts and the (positive, opaque) error of the model."""

    def __init__(self):
        self.log = []
        self.m = None

    def contracts(self):
        out = {}
        for k, n in SOLVERS.items():
            s = Solver(k, self.log)
            s.factors = lambda I: I.iter_concrete(attr(I, attr(I, self.m, "decomposition"), "factor_matrices"))
            out[n] = s

        def sse(I, a, kw):
            v = app("SSE%d" % len(self.log), ())
            I.assume(ind("gt", v))
            return fnum(v)
        out[C + "cp.BaseCP.SSE"] = Stub(sse)
        return out


def same(I, rd1, rd2, shape):
    ix = idx(I, shape)
    return (rd1(ix) - rd2(ix)).is_zero() or I.prove(int_eq(rd1(ix) - rd2(ix), ZERO))


def changed_mode(I, w, name, r, after, R):
    """The one mode whose factor was replaced by the solution; the others are as before."""
    hit = [j for j in range(w.order) if same(I, after[j], r.X, (w.ds[j], R)) and I.prove(int_eq(r.bsh[0], w.ds[j]))]
    if not I.oblige(f"{name}: one factor is replaced by the solution", len(hit) == 1):
        return None
    for j in range(w.order):
        if j != hit[0]:
            ix = idx(I, (w.ds[j], R))
            I.oblige_eq(f"{name}: mode {j} is left alone", after[j](ix), r.before[j](ix))
    return hit[0]


def problem(I, w, name, r, j, lam, R, entry=None):
    """The recorded problem is the least squares problem of mode j."""
    others = [k for k in range(w.order) if k != j]
    od = tuple(w.ds[k] for k in others)

    def Z(ix, s):
        return prod([r.before[k]((i, s)) for k, i in zip(others, ix)])

    def data(i, ix):
        full = list(ix)
        full.insert(j, i)
        return entry(*full) if entry else app("X", tuple(full))
    G = lambda s, t: nsum(od, lambda *ix: Z(ix, s) * Z(ix, t)) + lam * int_eq(s, t)
    M = lambda i, s: nsum(od, lambda *ix: data(i, ix) * Z(ix, s))
    i, s, t = idx(I, (w.ds[j], R, R), "ist")
    if not I.oblige(f"{name}: size of the problem", b_and(int_eq(r.ash[0], R), int_eq(r.bsh[0], w.ds[j]))):
        return
    q = r.ash[1]
    AA = ssum("q", q, lambda c: r.A((s, c)) * r.A((t, c)))
    BA = ssum("q", q, lambda c: r.B((i, c)) * r.A((s, c)))
    if r.kind == "nonneg":
        # the same objective for every candidate row x
        x = lambda s: app("x", (s,))
        got = ssum("q", q, lambda c: sq(ssum("s", R, lambda s: x(s) * r.A((s, c))) - r.B((i, c))))
        want = nsum(od, lambda *ix: sq(ssum("s", R, lambda s: x(s) * Z(ix, s)) - data(i, ix))) + lam * ssum("s", R, lambda s: sq(x(s)))
        I.oblige_eq(f"{name}: the solver minimises the loss over the allowed rows", got, want)
    elif r.kind == "orth":
        # ||Q A - B||^2 = const - 2 <Q, B A^T> for orthonormal Q; the loss is const - 2 <Q, M>
        I.oblige_eq(f"{name}: the solver minimises the loss over the orthonormal matrices", BA, M(i, s))
    else:
        # (X A - B) A^T = 0  implies the normal equations X G = M: for the design matrix itself, or (gram lemma
        # below) when A and B are G and M
        gram = I.prove(int_eq(q, R)) and (r.A((s, t)) - G(s, t)).is_zero()
        if gram:
            I.oblige_eq(f"{name}: left hand side", r.A((s, t)), G(s, t))
            I.oblige_eq(f"{name}: right hand side", r.B((i, s)), M(i, s))
        else:
            I.oblige_eq(f"{name}: the normal equations of the loss: left hand side", AA, G(s, t))
            I.oblige_eq(f"{name}: the normal equations of the loss: right hand side", BA, M(i, s))


def mk(order, how, ridge, its=1, entry="fit", weights=False):
    w = CPWorld(order)
    watch = Watch()

    def goal(I):
        watch.log.clear()
        lam = [ZERO] * order
        kw = {}
        if ridge:
            lam = [var("lam%d" % k, "real") for k in range(order)]
            for l in lam:
                I.assume(ge0(l))
            kw["ridge_penalties"] = PList([fnum(l) for l in lam])
        if any(h != "free" for h in how) or order >= 4:
            kw["non_negativity_constraints"] = PList([h == "nonneg" for h in how])
            kw["orthonormality_constraints"] = PList([h == "orth" for h in how])
        m = w.model(I, weights=weights, max_its=its, convergence_tol=0, rel_loss_tol=0, **kw)
        R = dim("R")
        for d, h in zip(w.ds, how):
            if h == "orth":
                I.assume(ind("ge", d - R))
        watch.m = m
        c12.assume_norm(I, w)
        fr = Frame(I, [("target", w.X)])
        if entry == "fit":
            method(I, m, "fit", w.X, initial_decomposition=w.K)
        else:
            method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=0)
            K = attr(I, m, "decomposition")
            for k, f in enumerate(I.iter_concrete(attr(I, K, "factor_matrices"))):
                overwrite(I, f, "E%d" % k)
            if weights:
                overwrite(I, attr(I, K, "weights"), "Ew")
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", 1)
            w.norm_positive(I, m)
            method(I, m, "continue_fit", max_its=fnum(c0 + its, "i"))
        fs = I.iter_concrete(attr(I, attr(I, m, "decomposition"), "factor_matrices"))
        end = [f.snapshot() for f in fs]
        log = watch.log
        if not log:
            raise Unsupported("none of the solvers of tenkit.base is used")
        modes = []
        for n, r in enumerate(log):
            nm = f"update {n}"
            after = log[n + 1].before if n + 1 < len(log) else end
            j = changed_mode(I, w, nm, r, after, R)
            if j is None:
                return
            modes.append(j)
            I.oblige(f"{nm}: solver for mode {j}", r.kind == how[j])
            problem(I, w, nm, r, j, lam[j], R)
        I.oblige("every mode is updated once in every iteration", all(sorted(modes[k * order:(k + 1) * order]) == list(range(order)) for k in range(its)) and len(modes) == its * order)
        oblige_array(I, "the weights are one", attr(I, attr(I, m, "decomposition"), "weights"), (R,), lambda r: ONE)
        if entry == "fit" and not any(h == "orth" for h in how):
            for k in range(order):
                ix = idx(I, (w.ds[k], R))
                I.oblige_eq(f"the first update starts from the given decomposition ({k})", log[0].before[k](ix),
                            app(LETTERS[k], ix) * (app("w", (ix[1],)) if weights and k == 0 else ONE))
        fr.check()
    return goal, watch.contracts()


def add(order, how, ridge, **kw):
    g, c = mk(order, how, ridge, **kw)
    spec.add(f"{order} modes, {', '.join(how)}{', ridge' if ridge else ''}{''.join(f', {k}={v}' for k, v in kw.items())}", g, contracts=c)


for order in (2, 3, 4):
    for ridge in (False, True):
        add(order, ("free",) * order, ridge)
        add(order, ("nonneg",) * order, ridge)
        for k in range(order):
            add(order, ("free",) * k + ("orth",) + ("free",) * (order - k - 1), ridge)
for order in (5, 6):
    for ridge in (False, True):
        add(order, ("free",) * order, ridge)
        add(order, ("nonneg",) * order, ridge)
for ridge in (False, True):
    add(3, ("nonneg", "orth", "free"), ridge)
    add(3, ("orth", "free", "nonneg"), ridge)
    add(3, ("free", "nonneg", "orth"), ridge)
    add(3, ("free",) * 3, ridge, entry="continue")
    add(3, ("free",) * 3, ridge, entry="continue", weights=True)
    add(3, ("free",) * 3, ridge, weights=True)
    add(2, ("free",) * 2, ridge, its=2)
    add(2, ("nonneg", "free"), ridge, its=2)


for order in (2, 3, 4):
    for ridge in (False, True):
        for how in (("free",) * order, ("nonneg", "free", "free", "free")[:order]):
            g, c = mk(order, how, ridge)
            spec.add(f"{order} modes, integer data, {', '.join(how)}{', ridge' if ridge else ''}", integer_data(g), contracts=c)
            g, c = mk(order, how, ridge)
            spec.add(f"{order} modes, integer start, {', '.join(how)}{', ridge' if ridge else ''}", integer_start(g), contracts=c)


# ---- the lemmas: solving the problem minimises the loss

def lemma_free(I):
    """loss(F) - loss(S) = ||(F - S) Z^T||^2 + lam ||F - S||^2 - 2 <F - S, M - S (G + lam I)>, for every F."""
    n, R = dims("q R")
    Z, Xr = param_arr("Z", (n, R)), param_arr("Xr", (n,))
    F, S = param_arr("F", (R,)), param_arr("S", (R,))
    lam = var("lam", "real")
    loss = lambda v: ssum("q", n, lambda q: sq(Xr.at((q,)) - ssum("s", R, lambda s: v.at((s,)) * Z.at((q, s))))) + lam * ssum("s", R, lambda s: sq(v.at((s,))))
    D_ = lambda s: F.at((s,)) - S.at((s,))
    G = lambda s, t: ssum("q", n, lambda q: Z.at((q, s)) * Z.at((q, t)))
    M = lambda s: ssum("q", n, lambda q: Xr.at((q,)) * Z.at((q, s)))
    gap = ssum("q", n, lambda q: sq(ssum("s", R, lambda s: D_(s) * Z.at((q, s))))) + lam * ssum("s", R, lambda s: sq(D_(s)))
    lin = ssum("s", R, lambda s: D_(s) * (M(s) - ssum("t", R, lambda t: S.at((t,)) * G(t, s)) - lam * S.at((s,))))
    I.oblige_eq("gap to a solution of the normal equations", loss(F) - loss(S), gap - 2 * lin)


def lemma_gram(I):
    """w = Z^T y and G w = 0 imply w = 0: w G w = ||Z w||^2, and ||w||^2 = <y, Z w>."""
    n, R = dims("q R")
    Z, y = param_arr("Z", (n, R)), param_arr("y", (n,))
    w_ = lambda s: ssum("q", n, lambda q: y.at((q,)) * Z.at((q, s)))
    v = lambda s: app("v", (s,))
    G = lambda s, t: ssum("q", n, lambda q: Z.at((q, s)) * Z.at((q, t)))
    I.oblige_eq("v G v = ||Z v||^2", nsum((R, R), lambda s, t: v(s) * G(s, t) * v(t)), ssum("q", n, lambda q: sq(ssum("s", R, lambda s: Z.at((q, s)) * v(s)))))
    I.oblige_eq("||w||^2 = <y, Z w>", ssum("s", R, lambda s: sq(w_(s))), ssum("q", n, lambda q: y.at((q,)) * ssum("s", R, lambda s: Z.at((q, s)) * w_(s))))
    # the residual of the normal equations has this form: M - S G = Z^T (x - Z S)
    Xr, S = param_arr("Xr", (n,)), param_arr("S", (R,))
    s, = idx(I, (R,))
    I.oblige_eq("residual of the normal equations", ssum("q", n, lambda q: Xr.at((q,)) * Z.at((q, s))) - ssum("t", R, lambda t: S.at((t,)) * G(t, s)),
                ssum("q", n, lambda q: (Xr.at((q,)) - ssum("t", R, lambda t: Z.at((q, t)) * S.at((t,)))) * Z.at((q, s))))


def lemma_orth(I):
    """For orthonormal columns the loss is a constant minus 2 <Q, M>."""
    d, n, R = dims("d q R")
    Z, X = param_arr("Z", (n, R)), param_arr("Xm", (d, n))
    Q, qn, ex = fresh_arr("Q", (d, R))
    I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, d)
    lam = var("lam", "real")
    loss = nsum((d, n), lambda i, q: sq(X.at((i, q)) - ssum("s", R, lambda s: Q.at((i, s)) * Z.at((q, s))))) + lam * nsum((d, R), lambda i, s: sq(Q.at((i, s))))
    M = lambda i, s: ssum("q", n, lambda q: X.at((i, q)) * Z.at((q, s)))
    I.oblige_eq("loss of an orthonormal factor", loss, nsum((d, n), lambda i, q: sq(X.at((i, q)))) + nsum((n, R), lambda q, s: sq(Z.at((q, s)))) + lam * R
                - 2 * nsum((d, R), lambda i, s: Q.at((i, s)) * M(i, s)))


spec.add("lemma: normal equations", lemma_free)
spec.add("lemma: gram matrix", lemma_gram)
spec.add("lemma: orthonormal factors", lemma_orth)
