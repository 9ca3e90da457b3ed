"""C18: coupled matrix-tensor models minimise the joint objective."""
import ast
from specs.fitloop import *
from specs import c12
from specs.c05 import SOLVERS, Solver, Record, same, lemma_free, lemma_orth
from specs.c06 import norm2

spec = Spec("C18", "CMTF minimises the joint objective")
spec.assumptions.append("the stabilising epsilon of the normalisation is the documented parameter of normalize_components: the final normalisation "
                        "preserves the reconstructions and gives unit length up to the factor norm / (norm + epsilon)")


class CMTFWorld(CPWorld):
    cls = "cmtf:CMTF_ALS"

    def __init__(self, order, modes):
        super().__init__(order)
        self.modes = modes

    def data(self, I):
        self.qs = [dim("Q%d" % c) for c in range(len(self.modes))]
        self.Ys = [data_arr("Y%d" % c, (self.ds[k], q)) for c, (k, q) in enumerate(zip(self.modes, self.qs))]
        return dict(coupled_matrices=PList(list(self.Ys)), coupling_modes=PList([fnum(to_poly(k), "i") for k in self.modes]))


def shared(I, m):
    return I.iter_concrete(attr(I, attr(I, m, "decomposition"), "factor_matrices"))


def uncoupled(I, m):
    return I.iter_concrete(attr(I, m, "uncoupled_factor_matrices"))


class JointSolver(Solver):
    def apply(self, I, f, a, kw):
        X = super().apply(I, f, a, kw)
        self.log[-1].ubefore = [v.snapshot() for v in uncoupled(I, self.watch.m)]
        return X


class JointWatch:
    def __init__(self):
        self.log, self.states, self.m = [], [], None

    def reset(self):
        self.log.clear()
        self.states.clear()

    def contracts(self):
        out = {}
        for k, n in SOLVERS.items():
            s = JointSolver(k, self.log)
            s.watch = self
            s.factors = lambda I: shared(I, self.m)
            out[n] = s

        def sse(I, a, kw):
            self.states.append((len(self.log), [f.snapshot() for f in shared(I, a[0])], [v.snapshot() for v in uncoupled(I, a[0])]))
            v = app("SSE%d" % len(self.log), ())
            I.assume(ind("gt", v))
            return fnum(v)
        out[C + "cmtf.CMTF_ALS.SSE"] = Stub(sse)
        return out


def changed(I, w, name, r, after, uafter, R):
    """The one matrix that was replaced by the solution; all the others are as before."""
    all_ = [("mode", j, r.before[j], after[j], w.ds[j]) for j in range(w.order)]
    all_ += [("matrix", c, r.ubefore[c], uafter[c], w.qs[c]) for c in range(len(w.modes))]
    hit = [z[:2] for z in all_ if I.prove(int_eq(r.bsh[0], z[4])) and same(I, z[3], r.X, (z[4], R))]
    if not I.oblige(f"{name}: one matrix is replaced by the solution", len(hit) == 1):
        return None
    for z in all_:
        if z[:2] != hit[0]:
            ix = idx(I, (z[4], R))
            I.oblige_eq(f"{name}: {z[0]} {z[1]} is left alone", z[3](ix), z[2](ix))
    return hit[0]


def Yapp(w, c):
    return lambda i, q: app("Y%d" % c, (i, q))


def problem(I, w, name, r, what, lam, R):
    """The recorded problem is the joint objective as a function of that matrix."""
    kind_, j = what
    if kind_ == "mode":
        others = [k for k in range(w.order) if k != j]
        blocks = [(tuple(w.ds[k] for k in others), lambda ix, s: prod([r.before[k]((i, s)) for k, i in zip(others, ix)]),
                   lambda i, ix: app("X", tuple(ix[:j]) + (i,) + tuple(ix[j:])))]
        for c, k in enumerate(w.modes):
            if k == j:
                blocks.append(((w.qs[c],), lambda ix, s, c=c: r.ubefore[c]((ix[0], s)), lambda i, ix, c=c: Yapp(w, c)(i, ix[0])))
        l, rows = lam[j], w.ds[j]
    else:
        k = w.modes[j]
        blocks = [((w.ds[k],), lambda ix, s: r.before[k]((ix[0], s)), lambda i, ix: Yapp(w, j)(ix[0], i))]
        l, rows = ZERO, w.qs[j]
    i, s, t = idx(I, (rows, R, R), "ist")
    total = lambda f: sum((nsum(dd, lambda *ix: f(Z, d, ix)) for dd, Z, d in blocks), ZERO)
    G = lambda s, t: total(lambda Z, d, ix: Z(ix, s) * Z(ix, t)) + l * int_eq(s, t)
    M = lambda i, s: total(lambda Z, d, ix: d(i, ix) * Z(ix, s))
    if not I.oblige(f"{name}: size of the problem", b_and(int_eq(r.ash[0], R), int_eq(r.bsh[0], rows))):
        return
    q = r.ash[1]
    AA = ssum("q", q, lambda c: r.A((s, c)) * r.A((t, c)))
    BA = ssum("q", q, lambda c: r.B((i, c)) * r.A((s, c)))
    if r.kind == "nonneg":
        x = lambda s: app("x", (s,))
        got = ssum("q", q, lambda c: sq(ssum("s", R, lambda s: x(s) * r.A((s, c))) - r.B((i, c))))
        want = total(lambda Z, d, ix: sq(ssum("s", R, lambda s: x(s) * Z(ix, s)) - d(i, ix))) + l * ssum("s", R, lambda s: sq(x(s)))
        I.oblige_eq(f"{name}: the solver minimises the joint loss over the allowed rows", got, want)
    elif r.kind == "orth":
        I.oblige_eq(f"{name}: the solver minimises the joint loss over the orthonormal matrices", BA, M(i, s))
    elif I.prove(int_eq(q, R)) and (r.A((s, t)) - G(s, t)).is_zero():
        I.oblige_eq(f"{name}: left hand side", r.A((s, t)), G(s, t))
        I.oblige_eq(f"{name}: right hand side", r.B((i, s)), M(i, s))
    else:
        I.oblige_eq(f"{name}: the normal equations of the joint loss: left hand side", AA, G(s, t))
        I.oblige_eq(f"{name}: the normal equations of the joint loss: right hand side", BA, M(i, s))


def epsilon(I, K):
    """Default of the eps parameter of normalize_components."""
    f = attr(I, K, "normalize_components")
    node = f.f.node
    for a, d in zip(node.args.args[::-1], node.args.defaults[::-1]):
        if a.arg == "eps":
            from fractions import Fraction
            return to_poly(Fraction(repr(ast.literal_eval(d))))
    return ZERO


def normalised(I, w, m, fs, vs, R, weights=None):
    """The model is (fs, vs) with unit-length shared factors and the same reconstructions."""
    K = attr(I, m, "decomposition")
    eps = epsilon(I, K)
    got, W = shared(I, m), attr(I, K, "weights")
    ns = [lambda r, k=k: alg.fn("sqrt", ssum("i", w.ds[k], lambda i: sq(fs[k]((i, r))))) for k in range(w.order)]
    keep = lambda k, r: ns[k](r) * alg.inv(ns[k](r) + eps)
    for k in range(w.order):
        i, r = idx(I, (w.ds[k], R))
        I.oblige_eq(f"shared factors have unit length ({k})", got[k].at((i, r)) * (ns[k](r) + eps), fs[k]((i, r)))
    ix = idx(I, w.ds)
    w0 = weights or (lambda r: ONE)
    I.oblige_eq("normalisation keeps the reconstructed tensor", ssum("r", R, lambda r: W.at((r,)) * prod([got[k].at((i, r)) for k, i in enumerate(ix)])),
                ssum("r", R, lambda r: w0(r) * prod([fs[k]((i, r)) * keep(k, r) for k, i in enumerate(ix)])))
    recs = I.iter_concrete(attr(I, m, "reconstructed_coupled_matrices"))
    I.oblige("one reconstruction per coupled matrix", len(recs) == len(w.modes))
    for c, (k, Yr) in enumerate(zip(w.modes, recs)):
        oblige_array(I, f"normalisation keeps the reconstructed matrix ({c})", Yr, (w.ds[k], w.qs[c]),
                     lambda i, q: ssum("r", R, lambda r: fs[k]((i, r)) * vs[c]((q, r)) * keep(k, r)))


def nonzero_weights(I, name):
    def rule(ck, p):
        if ck in ("eqr", "nz") and len(p.t) == 1:
            (mm, c), = p.t.items()
            if len(mm) == 1 and mm[0][0].kind == "app" and mm[0][0].data[0] == name:
                return False
    I.ctx.ind_rules.append(rule)
    I.ctx.nonzero_rules.append(lambda p: rule("eqr", to_poly(p)) is False)
    I.ctx.invalidate()


def build(I, w, how, ridge, its, lists=True):
    lam = [ZERO] * w.order
    kw = {}
    if ridge:
        lam = [var("lam%d" % k, "real") for k in range(w.order)]
        for l in lam:
            I.assume(ge0(l))
        kw["ridge_penalties"] = PList([fnum(l) for l in lam])
    if lists:
        kw["non_negativity_constraints"] = PList([h == "nonneg" for h in how])
        kw["orthonormality_constraints"] = PList([h == "orth" for h in how])
    m = w.model(I, max_its=its, convergence_tol=0, rel_loss_tol=0, **kw)
    R = dim("R")
    for d, h in zip(w.ds, how):
        if h == "orth":
            I.assume(ind("ge", d - R))
    return m, lam, R


def arbitrary_state(I, w, m, weights):
    K = attr(I, m, "decomposition")
    for k, f in enumerate(shared(I, m)):
        overwrite(I, f, "E%d" % k)
    for c, v in enumerate(uncoupled(I, m)):
        overwrite(I, v, "F%d" % c)
    W = attr(I, K, "weights")
    if weights:
        src = param_arr("Ew", W.shape)
        I.setitem(W, Ellipsis, src)
        nonzero_weights(I, "Ew")
    return [f.snapshot() for f in shared(I, m)], [v.snapshot() for v in uncoupled(I, m)], W.snapshot()


def fitting(order, modes, how, ridge, its=1, entry="fit", lists=True):
    w = CMTFWorld(order, modes)
    watch = JointWatch()

    def goal(I):
        watch.reset()
        m, lam, R = build(I, w, how, ridge, its, lists)
        watch.m = m
        c12.assume_norm(I, w)
        data = w.data(I)
        fr = Frame(I, [("target", w.X)] + [("coupled matrix %d" % c, Y) for c, Y in enumerate(w.Ys)])
        if entry == "fit":
            method(I, m, "fit", w.X, initial_decomposition=w.K, **data)
        else:
            method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=0, **data)
            f0, v0, w0 = arbitrary_state(I, w, m, True)
            watch.reset()
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", 1)
            w.norm_positive(I, m)
            method(I, m, "continue_fit", max_its=fnum(c0 + its, "i"))
        log, states = watch.log, watch.states
        if not log:
            raise Unsupported("none of the solvers of tenkit.base is used")
        last = [s for s in states if s[0] == len(log)]
        if not last:
            raise Unsupported("the error is not evaluated after the last update")
        end, uend = last[-1][1:]
        done = []
        for n, r in enumerate(log):
            nm = f"update {n}"
            after, uafter = (log[n + 1].before, log[n + 1].ubefore) if n + 1 < len(log) else (end, uend)
            what = changed(I, w, nm, r, after, uafter, R)
            if what is None:
                return
            done.append(what)
            h = how[what[1]] if what[0] == "mode" else ("nonneg" if how[w.modes[what[1]]] == "nonneg" else "free")
            I.oblige(f"{nm}: solver for {what[0]} {what[1]}", r.kind == h)
            problem(I, w, nm, r, what, lam, R)
        every = sorted([("mode", k) for k in range(order)] + [("matrix", c) for c in range(len(modes))])
        n = len(every)
        I.oblige("every matrix is updated once in every iteration", len(done) == its * n and all(sorted(done[k * n:(k + 1) * n]) == every for k in range(its)))
        if entry != "fit":
            b, ub = log[0].before, log[0].ubefore
            ix = idx(I, w.ds)
            I.oblige_eq("continuing starts from the same reconstructed tensor", ssum("r", R, lambda r: prod([b[k]((i, r)) for k, i in enumerate(ix)])),
                        ssum("r", R, lambda r: w0((r,)) * prod([f0[k]((i, r)) for k, i in enumerate(ix)])))
            for c, k in enumerate(modes):
                i, q = idx(I, (w.ds[k], w.qs[c]))
                I.oblige_eq(f"continuing starts from the same reconstructed matrix ({c})", ssum("r", R, lambda r: b[k]((i, r)) * ub[c]((q, r))),
                            ssum("r", R, lambda r: f0[k]((i, r)) * v0[c]((q, r))))
        normalised(I, w, m, end, uend, R)
        fr.check()
    return goal, watch.contracts()


def add(order, modes, how, ridge, **kw):
    g, c = fitting(order, modes, how, ridge, **kw)
    spec.add(f"{order} modes, coupled {list(modes)}, {', '.join(how)}{', ridge' if ridge else ''}{''.join(f', {k}={v}' for k, v in kw.items())}", g, contracts=c)


FREE = ("free",) * 3
for ridge in (False, True):
    for modes in ((), (0,), (1,), (2,), (0, 0), (0, 2), (2, 0), (1, 0, 1)):
        add(3, modes, FREE, ridge)
    add(3, (0, 1), ("nonneg",) * 3, ridge)
    add(3, (0, 1, 0), ("nonneg", "free", "nonneg"), ridge)
    add(3, (0, 1), ("free", "nonneg", "free"), ridge)
    add(3, (1,), ("free", "orth", "free"), ridge)
    add(3, (0, 0, 2), ("orth", "nonneg", "free"), ridge)
    add(2, (1, 0), ("free", "free"), ridge)
    add(4, (3, 1, 1), ("free",) * 4, ridge)
    add(3, (0, 1), FREE, ridge, entry="continue")
    add(3, (2, 2, 0), ("free", "free", "nonneg"), ridge, entry="continue")
for modes, how in (((0, 1), FREE), ((2, 2), ("free", "free", "nonneg"))):
    g, c = fitting(3, modes, how, False)
    spec.add(f"integer data, coupled {list(modes)}, {', '.join(how)}", integer_data(g), contracts=c)
add(3, (0, 1), FREE, False, lists=False)
add(2, (0,), ("free", "free"), False, its=2)
add(2, (1, 1), ("free", "nonneg"), True, its=2)


def errors(order, modes, ridge):
    w = CMTFWorld(order, modes)

    def goal(I):
        m, lam, R = build(I, w, ("free",) * order, ridge, 0)
        data = w.data(I)
        for d in w.ds + w.qs:
            I.assume(ind("ge", d - 1))
        c12.assume_norm(I, w)
        method(I, m, "fit", w.X, initial_decomposition=w.K, **data)
        f, v, W = arbitrary_state(I, w, m, True)
        got = {k: P(attr(I, m, k)) for k in ("SSE", "MSE", "RMSE", "loss", "coupled_factor_matrices_SSE")}
        part = nsum(w.ds, lambda *ix: sq(app("X", ix) - ssum("r", R, lambda r: W((r,)) * prod([f[k]((i, r)) for k, i in enumerate(ix)]))))
        parts = sum((nsum((w.ds[k], w.qs[c]), lambda i, q: sq(Yapp(w, c)(i, q) - ssum("r", R, lambda r: f[k]((i, r)) * v[c]((q, r))))) for c, k in enumerate(modes)), ZERO)
        I.oblige_eq("error of the coupled matrices", got["coupled_factor_matrices_SSE"], parts)
        I.oblige_eq("SSE: tensor and coupled matrices", got["SSE"], part + parts)
        N = prod(w.ds) + sum((w.ds[k] * q for k, q in zip(modes, w.qs)), ZERO)
        I.oblige_eq("MSE: all elements of the data", got["MSE"], got["SSE"] * alg.inv(N))
        I.oblige_eq("RMSE", got["RMSE"], alg.fn("sqrt", got["MSE"]))
        pen = sum((l * nsum((d, R), lambda i, r: sq(g((i, r)))) for l, d, g in zip(lam, w.ds, f)), ZERO)
        I.oblige_eq("loss", got["loss"], got["SSE"] + pen)
        recs = I.iter_concrete(attr(I, m, "reconstructed_coupled_matrices"))
        for c, (k, Yr) in enumerate(zip(modes, recs)):
            oblige_array(I, f"reconstructed matrix {c}", Yr, (w.ds[k], w.qs[c]), lambda i, q: ssum("r", R, lambda r: f[k]((i, r)) * v[c]((q, r))))
    return goal


for modes in ((), (0,), (2, 2), (1, 0)):
    for ridge in (False, True):
        spec.add(f"errors, coupled {list(modes)}{', ridge' if ridge else ''}", errors(3, modes, ridge))
spec.add("errors, 2 modes", errors(2, (1,), False))
spec.add("errors, 4 modes", errors(4, (3, 0), True))




spec.add("lemma: normal equations", lemma_free)
spec.add("lemma: orthonormal factors", lemma_orth)
