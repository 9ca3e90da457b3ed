"""C09: PARAFAC2 projections are orthonormal and optimal; the inner updates solve the projected problem."""
from specs.fitloop import *
from specs import c12, c05
from specs.c05 import SOLVERS, Solver, Record, changed_mode

spec = Spec("C09", "PARAFAC2 projections and updates")
spec.assumptions.append("projection problems have full numerical rank (documented precondition of orthogonal_solve, whose contract - orthonormal rows, "
                        "maximal trace - is proved in C04)")
BASE = "tenkit.base."
PROJ = BASE + "orthogonal_solve"


class World(PFWorld):
    def __init__(self, regular):
        super().__init__()
        self.regular = regular

    def model(self, I, **kw):
        R, dI, dK = dims("R I K")
        self.R, self.dI, self.dK = R, dI, dK
        for d in (R, dI, dK):
            I.assume(ind("ge", d - 1))
        self.ds, self.order = [dI, R, dK], 3
        if self.regular:
            J = dim("J")
            self.jd = lambda k: J
            self.X = data_arr("X", (dI, J, dK))
            self.x = lambda k, i, j: app("X", (i, j, k))
            self.frame = [("X", self.X)]
            self.Xarg = self.X
        else:
            self.jd = lambda k: app("J", (to_poly(k),), "int")
            I.ctx.app_int_bounds["J"] = (lambda a: ONE, None)
            from pyver import attrs
            base = data_arr("X", (dK, dI, app("J", (var(vals.RAG),), "int")))
            self.Xarg = PList(None, to_poly(dK), lambda k: attrs.getitem(I, base, num(k, "i")))
            self.x = lambda k, i, j: app("X", (k, i, j))
            self.frame = [("X", base)]
        self.k0 = idx(I, (dK,), "k0")[0]
        I.assume(ind("ge", self.jd(self.k0) - R))
        self.T = self.tensor(I, "")
        return call(I, C + self.cls, fnum(R, "i"), **kw)

    def tensor(self, I, tag):
        R, dI, dK = self.R, self.dI, self.dK
        A, Cc, B = start_arr(tag + "A", (dI, R)), start_arr(tag + "C", (dK, R)), start_arr(tag + "B", (R, R))
        if self.regular:
            Ps = param_arr(tag + "Q", (dK, dim("J"), R))
            Pl = PList(None, dK, lambda k: I.getitem(Ps, fnum(k, "i")))
        else:
            Ps, Pl = ragged(I, tag + "Q", dK, "J", R)
        self.Ps = Ps
        return call(I, D + "Parafac2Tensor", A, B, Cc, Pl)

    def now(self, I, m):
        """(A, B, C) and the projection matrices as functions of the indices, as they are at this moment."""
        d = attr(I, m, "decomposition")
        fs = [attr(I, d, "A").snapshot(), attr(I, d, "blueprint_B").snapshot(), attr(I, d, "C").snapshot()]
        Pk = seq_get(I, attr(I, d, "projection_matrices"), self.k0)
        rd = Pk.snapshot()
        name = list(self.k0.fv)[0]

        def Pf(k, j, r):
            return alg.subst(rd((to_poly(j), to_poly(r))), {name: to_poly(k)})
        return fs, Pf


class ProjectionSolver:
    """orthogonal_solve by its contract: orthonormal rows."""

    def __init__(self, watch):
        self.watch = watch

    def apply(self, I, f, a, kw):
        A, B = a
        w = self.watch
        if A.ndim != 2 or B.ndim != 2:
            raise Unsupported("projection solver called with other than two matrices")
        I.oblige_eq("projections: matching problem", A.shape[0], B.shape[0])
        Q, qn, ex = fresh_arr("NP", (B.shape[1], A.shape[1]))
        rows, loops = B.shape[1], [list(e.fv)[0] for e in ex]
        I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, lambda e: alg.subst(to_poly(rows), dict(zip(loops, e))))
        r = Record()
        r.kind, r.A, r.B, r.ash, r.bsh, r.loops = "projection", A.snapshot(), B.snapshot(), A.shape, B.shape, loops
        r.Q = Q.snapshot()
        if w.m is not None and "decomposition" in w.m.attrs:
            d = attr(I, w.m, "decomposition")
            r.factors = [attr(I, d, n).snapshot() for n in ("A", "blueprint_B", "C")]
            r.objs = [attr(I, d, n) for n in ("A", "blueprint_B", "C")]
        w.log.append(r)
        return attr(I, Q, "T")


class CPSolver(Solver):
    def apply(self, I, f, a, kw):
        X = super().apply(I, f, a, kw)
        self.log[-1].P = self.watch.w.now(I, self.watch.m)[1]
        return X


class Watch9:
    def __init__(self, w):
        self.w, self.log, self.m = w, [], None

    def contracts(self):
        out = {PROJ: ProjectionSolver(self)}
        for k, n in SOLVERS.items():
            s = CPSolver(k, self.log)
            s.watch = self
            s.factors = lambda I: [attr(I, attr(I, self.m, "decomposition"), n) for n in ("A", "blueprint_B", "C")]
            out[n] = s

        def sse(I, a, kw):
            v = app(I.ctx.fresh("SSE"), ())
            I.assume(ind("gt", v))
            return fnum(v)
        out[C + "parafac2.BaseParafac2.SSE"] = Stub(sse)
        out[C + "cp.BaseCP.SSE"] = Stub(sse)
        return out


def projection(I, w, name, r, Pnext):
    """The recorded problem is the residual of slice k as a function of its projection matrix; its solution is stored."""
    if len(r.loops) != 1:
        raise Unsupported("projection matrices are not found one by one")
    at = lambda p, k: alg.subst(to_poly(p), {r.loops[0]: to_poly(k)})
    k, R = w.k0, w.R
    s, = idx(I, (R,), "s")
    j, = idx(I, (w.jd(k),), "j")
    I.oblige_eq(f"{name}: size of the problem", at(r.ash[1], k), R)
    I.oblige_eq(f"{name}: size of the projection", at(r.bsh[1], k), w.jd(k))
    A, B, Cc = r.factors
    model = lambda i, t: ssum("r", R, lambda q: A((i, q)) * Cc((k, q)) * B((t, q)))
    # ||X_k - M P^T||^2 = const - 2 tr(P^T X_k^T M) for orthonormal P (lemma below), M = A diag(c_k) B^T
    got = ssum("c", r.ash[0], lambda c: r.A((c, s)) * r.B((c, j)))
    I.oblige_eq(f"{name}: the solver minimises the residual of slice k", at(got, k), ssum("i", w.dI, lambda i: model(i, s) * w.x(k, i, j)))
    I.oblige_eq(f"{name}: the solution becomes the projection matrix of slice k", Pnext(k, j, s), at(r.Q((j, s)), k))


def qr_of_orthonormal(I):
    """Trusted lemma about the QR decomposition: if v has orthonormal columns then R^T R = I, so the triangular R is
    diagonal with entries +1 or -1 and Q = v R."""
    def hook(I, ext):
        v, (q, r) = ext.ins[0], ext.outs
        s, t = idx(I, (v.shape[1],) * 2, "st")
        rd = v.snapshot()
        if v.ndim != 2 or ext.info["extra"] or not I.prove(int_eq(ssum("i", v.shape[0], lambda i: rd((i, s)) * rd((i, t))) - int_eq(s, t), ZERO)):
            return
        sign = lambda t: ONE - 2 * ind("gt", app("qr sign", (t,)))
        define_input(I, ext.info["r"], lambda ix: int_eq(ix[0], ix[1]) * sign(ix[1]))
        define_input(I, ext.info["q"], lambda ix: rd(ix) * sign(ix[1]))
    add_hook(I, "qr", hook)


def fit_goal(regular, how, ridge, its=1, inner=1, entry="fit", lists=True):
    w = World(regular)
    watch = Watch9(w)

    def goal(I):
        watch.log.clear()
        watch.m = None
        lam = [ZERO] * 3
        kw = {}
        if ridge:
            lam = [var("lam%d" % k, "real") for k in range(3)]
            for l in lam:
                I.assume(ge0(l))
            kw["ridge_penalties"] = PList([fnum(l) for l in lam])
        if lists:
            kw["non_negativity_constraints"] = PList([h == "nonneg" for h in how])
            kw["orthonormality_constraints"] = PList([h == "orth" for h in how])
        m = w.model(I, init="precomputed", print_frequency=-1, max_its=its, convergence_tol=0, cp_updates_per_it=inner, **kw)
        watch.m = m
        R = w.R
        for d, h in zip(w.ds, how):
            if h == "orth":
                I.assume(ind("ge", d - R))
        fr = Frame(I, w.frame)
        if entry == "fit":
            method(I, m, "fit", w.Xarg, initial_decomposition=w.T)
        else:
            method(I, m, "fit", w.Xarg, initial_decomposition=w.T, max_its=0)
            watch.log.clear()
            if entry == "replaced":
                I.setattr(m, "decomposition", w.tensor(I, "o"))
            d = attr(I, m, "decomposition")
            qr_of_orthonormal(I)
            for (nm, at), h, sz in zip((("eA", "A"), ("eB", "blueprint_B"), ("eC", "C")), how, w.ds):
                if h == "orth":
                    Q, qn, ex = fresh_arr(nm, (sz, R))
                    I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, sz)
                    I.setitem(attr(I, d, at), Ellipsis, Q)
                else:
                    overwrite(I, attr(I, d, at), nm)
            start, Pstart = w.now(I, m)
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", 1)
            method(I, m, "continue_fit", max_its=fnum(c0 + its, "i"))
        log = watch.log
        if not any(r.kind == "projection" for r in log) or all(r.kind == "projection" for r in log):
            raise Unsupported("the solvers of tenkit.base are not used")
        end, Pend = w.now(I, m)
        k, R = w.k0, w.R
        s, = idx(I, (R,), "s")
        j, = idx(I, (w.jd(k),), "j")
        modes, used = [], []
        updates = [r for r in log if r.kind != "projection"]
        solved = [r for r in log if r.kind == "projection" and len(r.loops) == 1]
        if not solved:
            raise Unsupported("projection matrices are not found one by one")
        for n, r in enumerate(updates):
            nm = f"update {n}"
            # the projections in force are the solutions found last (a symbolic loop may be executed more than once)
            src = [q for q in solved if I.prove(int_eq(r.P(k, j, s) - alg.subst(q.Q((j, s)), {q.loops[0]: k}), ZERO))]
            if not I.oblige(f"{nm}: the projections are the solutions of the slices' problems", len(src) == 1):
                return
            if not used or used[-1] is not src[0]:
                used.append(src[0])
                projection(I, w, f"projections {len(used)}", src[0], r.P)
            I.oblige(f"{nm}: the projections of this iteration", len(used) == n // (3 * inner) + 1)
            after = end if n + 1 == len(updates) else updates[n + 1].before
            md = changed_mode(I, w, nm, r, after, R)
            if md is None:
                return
            modes.append(md)
            I.oblige(f"{nm}: solver for mode {md}", r.kind == how[md])
            # the projected data
            c05.problem(I, w, nm, r, md, lam[md], R, entry=lambda i, t, kk: ssum("j", w.jd(kk), lambda j: w.x(kk, i, j) * r.P(kk, j, t)))
        for n, q in enumerate(used):
            # the problem was posed with the factors as they are when the solution is used
            f = updates[n * 3 * inner].before
            for c in range(3):
                ix = idx(I, (w.ds[c], R))
                I.oblige_eq(f"projections {n + 1}: factors of the problem ({c})", q.factors[c](ix), f[c](ix))
        if entry != "fit":
            # nothing is changed before the first projection update
            for c in range(3):
                ix = idx(I, (w.ds[c], R))
                I.oblige_eq(f"continuing starts from the current factors ({c})", used[0].factors[c](ix), start[c](ix))
        I.oblige_eq("the projections are kept until the end", Pend(k, j, s), updates[-1].P(k, j, s))
        I.oblige("projections are found once in every iteration", len(used) == its)
        I.oblige("every mode is updated equally often", all(sorted(modes[q:q + 3]) == [0, 1, 2] for q in range(0, len(modes), 3)) and len(modes) == 3 * its * inner)
        # hence the PARAFAC2 constraint
        t, = idx(I, (R,), "t")
        I.oblige_eq("the projections are orthonormal", ssum("j", w.jd(k), lambda j: Pend(k, j, s) * Pend(k, j, t)), int_eq(s, t))
        Bk = seq_get(I, attr(I, attr(I, m, "decomposition"), "B"), k)
        B = end[1]
        I.oblige_eq("B_k^T B_k is the same for all slices", ssum("j", w.jd(k), lambda j: Bk.at((j, s)) * Bk.at((j, t))), ssum("q", R, lambda q: B((q, s)) * B((q, t))))
        fr.check()
    return goal, watch.contracts()


def add(regular, how, ridge, **kw):
    g, c = fit_goal(regular, how, ridge, **kw)
    spec.add(f"{'regular' if regular else 'irregular'}: {', '.join(how)}{', ridge' if ridge else ''}{''.join(f', {k}={v}' for k, v in kw.items())}", g, contracts=c)


F, N, O = "free", "nonneg", "orth"
for regular in (True, False):
    for how in ((F, F, F), (N, F, N)):
        g, c = fit_goal(regular, how, False)
        spec.add(f"{'regular' if regular else 'irregular'}, integer data: {', '.join(how)}", integer_data(g), contracts=c)
        g, c = fit_goal(regular, how, False)
        spec.add(f"{'regular' if regular else 'irregular'}, integer start: {', '.join(how)}", integer_start(g), contracts=c)
for regular in (True, False):
    for ridge in (False, True):
        for how in ((F, F, F), (N, N, N), (O, F, F), (F, O, N), (N, F, O)):
            add(regular, how, ridge)
        add(regular, (F, F, F), ridge, lists=False)
        add(regular, (F, F, F), ridge, inner=2)
        add(regular, (N, F, N), ridge, entry="continue")
        add(regular, (F, F, F), ridge, entry="replaced")
        add(regular, (O, N, F), ridge, entry="continue")
        add(regular, (F, F, O), ridge, entry="replaced")
    add(regular, (F, F, F), False, its=2)
    add(regular, (N, F, F), True, its=2)


# ---- lemmas

def lemma_projection(I):
    """For orthonormal P: ||X - M P^T||^2 = ||X||^2 + ||M||^2 - 2 <P, X^T M> (maximising the trace minimises the
    residual) = ||X P - M||^2 + ||X||^2 - ||X P||^2 (the projected problem differs by a constant in M)."""
    n, J, R = dims("n J R")
    X, M = param_arr("X", (n, J)), param_arr("M", (n, R))
    Q, qn, ex = fresh_arr("P", (J, R))
    I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, J)
    x, mm, p = (lambda i, j: X.at((i, j))), (lambda i, r: M.at((i, r))), (lambda j, r: Q.at((j, r)))
    res = nsum((n, J), lambda i, j: sq(x(i, j) - ssum("r", R, lambda r: mm(i, r) * p(j, r))))
    nX, nM = nsum((n, J), lambda i, j: sq(x(i, j))), nsum((n, R), lambda i, r: sq(mm(i, r)))
    tr = nsum((n, J, R), lambda i, j, r: p(j, r) * x(i, j) * mm(i, r))
    I.oblige_eq("residual and trace", res, nX + nM - 2 * tr)
    Y = lambda i, r: ssum("j", J, lambda j: x(i, j) * p(j, r))
    I.oblige_eq("residual and projected residual", res, nsum((n, R), lambda i, r: sq(Y(i, r) - mm(i, r))) + nX - nsum((n, R), lambda i, r: sq(Y(i, r))))


spec.add("lemma: residual of a slice", lemma_projection)
spec.add("lemma: normal equations", c05.lemma_free)
spec.add("lemma: orthonormal factors", c05.lemma_orth)
