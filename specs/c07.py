"""C07: non-negativity and orthonormality constraints."""
from specs.fitloop import *
from specs import c12

spec = Spec("C07", "Constraints hold in the fitted model")
BASE = "tenkit.base."


def orthonormal(I, name, shape):
    """An arbitrary matrix with orthonormal columns."""
    Q, qn, ex = fresh_arr(name, shape)
    I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, shape[0])
    return Q


def nonnegative(I, name, shape):
    src = fresh_arr(name, shape)[0]
    return new_arr(shape, lambda ix: src.at(tuple(ix)) ** 2)


class Constrained:
    """The solvers by their contracts (C04): arbitrary results within the constraint set."""

    def __init__(self, make):
        self.make, self.hits = make, 0

    def apply(self, I, f, a, kw):
        A, B = a
        self.hits += 1
        return self.make(I, (B.shape[0], A.shape[0]))


def rows(I, f, a, kw):
    """orthogonal_solve(A, B): orthonormal rows."""
    A, B = a
    Q = orthonormal(I, "NP", (B.shape[1], A.shape[1]))
    return attr(I, Q, "T")


class Rows:
    def apply(self, I, f, a, kw):
        return rows(I, f, a, kw)


def contracts():
    def sse(I, a, kw):
        v = app(I.ctx.fresh("SSE"), ())
        I.assume(ind("gt", v))
        return fnum(v)
    return {BASE + "rightsolve": Constrained(lambda I, s: fresh_arr("NF", s)[0]),
            BASE + "non_negative_rightsolve": Constrained(lambda I, s: nonnegative(I, "NN", s)),
            BASE + "orthogonal_rightsolve": Constrained(lambda I, s: orthonormal(I, "NO", s)),
            BASE + "orthogonal_solve": Rows(),
            C + "cp.BaseCP.SSE": Stub(sse), C + "parafac2.BaseParafac2.SSE": Stub(sse)}


def constrained(I, name, factors, how, R):
    for k, (f, h) in enumerate(zip(factors, how)):
        if h == "nonneg":
            ix = idx(I, f.shape)
            I.oblige(f"{name}: mode {k} is non-negative", ge0(f.at(ix)))
        elif h == "orth":
            s, t = idx(I, (R, R), "st")
            I.oblige_eq(f"{name}: mode {k} is orthonormal", ssum("i", f.shape[0], lambda i: f.at((i, s)) * f.at((i, t))), int_eq(s, t))


def arbitrary(I, name, arr, h):
    """Arbitrary contents satisfying the constraint."""
    if h == "nonneg":
        src = nonnegative(I, name, arr.shape)
    elif h == "orth":
        src = orthonormal(I, name, arr.shape)
    else:
        src = fresh_arr(name, arr.shape)[0]
    I.setitem(arr, Ellipsis, src)


def factors_of(I, m, kind_):
    d = attr(I, m, "decomposition")
    if kind_ == "cp":
        return I.iter_concrete(attr(I, d, "factor_matrices"))
    return [attr(I, d, "A"), attr(I, d, "blueprint_B"), attr(I, d, "C")]


def mk(kind_, order, how, ridge, entry="precomputed", lists=True, inner=2):
    def goal(I):
        w = CPWorld(order) if kind_ == "cp" else PFWorld()
        B = var("max_its", "int")
        kw = dict(max_its=fnum(B, "i"), convergence_tol=fnum(var("tol")), print_frequency=-1)
        n = len(how)
        if "nonneg" in how or lists:
            kw["non_negativity_constraints"] = PList([h == "nonneg" for h in how])
        if "orth" in how or lists:
            kw["orthonormality_constraints"] = PList([h == "orth" for h in how])
        if ridge:
            lam = [var("lam%d" % k, "real") for k in range(n)]
            for l in lam:
                I.assume(ge0(l))
            kw["ridge_penalties"] = PList([fnum(l) for l in lam])
        if kind_ == "pf":
            kw["cp_updates_per_it"] = inner
        m = w.model(I, **kw)
        R = dim("R")
        ds = w.ds if kind_ == "cp" else [dim("I"), R, dim("K")]
        I.assume(ind("ge", R - 1))
        for d, h in zip(ds, how):
            I.assume(ind("ge", d - 1))
            if h == "orth":
                I.assume(ind("ge", d - R))
        if kind_ == "pf":
            I.assume(ind("ge", dim("J") - R))
        give = {}
        if entry == "precomputed":
            give["initial_decomposition"] = w.K
        elif entry != "continue":
            I.setattr(m, "init", entry)
            for d in (w.ds if kind_ == "cp" else dims("I J K")):
                I.assume(ind("ge", d - R))
        c0 = ZERO
        if entry == "continue":
            method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=0)
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "max_its", fnum(B, "i"))
        mon = "prev_SSE" if kind_ == "cp" else "prev_loss"

        def state(I, g):
            """Factors within the constraints."""
            if not set(m.attrs) <= w.ATTRS:
                raise Unsupported("unknown representation")
            for k, (f, h) in enumerate(zip(factors_of(I, m, kind_), how)):
                arbitrary(I, "V%d" % k, f, h)
            I.setattr(m, "current_iteration", fnum(c0 + g, "i"))
            prev = var("Sprev")
            I.assume(ind("gt", prev))
            I.setattr(m, "_rel_function_change", fnum(var("rel")))
            I.setattr(m, mon, fnum(prev))

        def check(I, name):
            constrained(I, name, factors_of(I, m, kind_), how, R)
            if kind_ == "cp":
                oblige_array(I, f"{name}: weights", attr(I, attr(I, m, "decomposition"), "weights"), (R,), lambda r: ONE)

        cut = Cut(I, ("max_its",), state, lambda I, g: None, lambda I, g: check(I, "after an iteration"), B - c0)
        I.assume(ind("gt", nsum(w.X.shape, lambda *ix: w.X.at(ix) ** 2)))
        if entry == "continue":
            method(I, m, "continue_fit")
        else:
            method(I, m, "fit", w.X, **give)
        if cut.exit is not None and I.prove(int_ge(cut.exit[0], ONE)):
            check(I, "after the fit")
    return goal


def add(kind_, order, how, ridge, **kw):
    spec.add(f"{kind_}{order}: {', '.join(how)}{', ridge' if ridge else ''}{''.join(f', {k}={v}' for k, v in kw.items())}", mk(kind_, order, how, ridge, **kw), contracts=contracts())


F, N, O = "free", "nonneg", "orth"
for ridge in (False, True):
    for how in ((N, F), (F, O), (O, N)):
        add("cp", 2, how, ridge)
    for how in ((N, N, N), (O, F, F), (F, O, F), (F, F, O), (N, O, F), (O, F, N), (F, N, O), (O, O, N)):
        add("cp", 3, how, ridge)
    add("cp", 4, (N, O, F, N), ridge)
    add("cp", 3, (N, F, F), ridge, lists=False)
    add("cp", 3, (F, O, F), ridge, lists=False)
    add("cp", 3, (N, O, F), ridge, entry="continue")
    for how in ((N, N, N), (O, F, F), (F, O, F), (F, F, O), (N, O, F), (O, F, N), (F, N, O)):
        add("pf", 3, how, ridge)
    add("pf", 3, (N, F, F), ridge, lists=False, inner=1)
    add("pf", 3, (F, O, F), ridge, lists=False, inner=5)
    add("pf", 3, (N, O, F), ridge, entry="continue")
for entry in ("random", "svd"):
    add("cp", *((3, (N, O, F)) if entry == "random" else (2, (N, O))), False, entry=entry)
    add("pf", 3, (N, O, F), False, entry=entry)


def mk_both(kind_, mode, ridge):
    def goal(I):
        w = CPWorld(3) if kind_ == "cp" else PFWorld()
        on = PList([k == mode for k in range(3)])
        kw = dict(ridge_penalties=PList([fnum(1)] * 3)) if ridge else {}
        if kind_ == "cp":
            kw["rel_loss_tol"] = 0
        m = w.model(I, max_its=1, convergence_tol=0, print_frequency=-1, non_negativity_constraints=on, orthonormality_constraints=PList([k == mode for k in range(3)]), **kw)
        R = dim("R")
        for d in dims("I J K R"):
            I.assume(ind("ge", d - R))
            I.assume(ind("ge", d - 1))
        I.assume(ind("gt", nsum(w.X.shape, lambda *ix: w.X.at(ix) ** 2)))
        expect_raises(I, "both constraints on one mode", ("ValueError",), lambda: method(I, m, "fit", w.X, initial_decomposition=w.K))
    return goal


for kind_ in ("cp", "pf"):
    for mode in range(3):
        for ridge in (False, True):
            spec.add(f"{kind_}: both constraints on mode {mode}{', ridge' if ridge else ''}", mk_both(kind_, mode, ridge), contracts=contracts())
