"""C06: reported errors, explained variance and loss match their definitions."""
from specs.fitloop import *
from specs import c12, c08
from specs.c05 import SOLVERS

spec = Spec("C06", "Reported errors match their definitions")


class AnySolver:
    """A least squares solver whose result may be anything."""

    def __init__(self):
        self.n = 0

    def apply(self, I, f, a, kw):
        A, B = a
        self.n += 1
        return fresh_arr("N%d" % self.n, (B.shape[0], A.shape[0]))[0]


def solver_stubs():
    s = AnySolver()
    return {n: s for n in SOLVERS.values()}, s


def norm2(X):
    return nsum(X.shape, lambda *ix: X.at(ix) ** 2)


def cp_metrics(I, name, m, X, lam):
    """All reported figures of a CP model from its target and its decomposition as they are now."""
    K = attr(I, m, "decomposition")
    fs = I.iter_concrete(attr(I, K, "factor_matrices"))
    w = attr(I, K, "weights")
    R = w.shape[0]
    rec = lambda ix: ssum("r", R, lambda r: w.at((r,)) * prod([f.at((i, r)) for f, i in zip(fs, ix)]))
    sse = nsum(X.shape, lambda *ix: (X.at(ix) - rec(ix)) ** 2)
    nonneg(I, sse, lam, fs)
    got = {k: P(attr(I, m, k)) for k in ("SSE", "MSE", "RMSE", "explained_variance", "loss")}
    I.oblige_eq(f"{name}: SSE", got["SSE"], sse)
    rest(I, name, got, prod(X.shape), norm2(X), lam, fs)


def nonneg(I, sse, lam, fs):
    """Sums of squares are not negative (nor with non-negative multiples of sums of squares added)."""
    I.assume(ge0(sse))
    if lam:
        I.assume(ge0(sse + sum((l * norm2(f) for l, f in zip(lam, fs)), ZERO)))


def rest(I, name, got, N, n2, lam, fs):
    """The other figures, in terms of the reported SSE."""
    S = got["SSE"]
    I.oblige_eq(f"{name}: MSE", got["MSE"], S * alg.inv(N))
    I.oblige_eq(f"{name}: RMSE", got["RMSE"], alg.fn("sqrt", got["MSE"]))
    I.oblige_eq(f"{name}: explained variance", (1 - got["explained_variance"]) * n2, S)
    pen = ZERO
    for l, f in zip(lam or [], fs):
        pen = pen + l * norm2(f)
    I.oblige_eq(f"{name}: loss", got["loss"], S + pen)


def ridge_kw(I, ridge, n):
    if not ridge:
        return None, {}
    lam = [var("lam%d" % k, "real") for k in range(n)]
    for l in lam:
        I.assume(ge0(l))
    return lam, dict(ridge_penalties=PList([fnum(l) for l in lam]))


def target(I, name, ds):
    X = param_arr(name, ds)
    I.assume(ind("gt", norm2(X)))
    return X


def cp_model(I, w, ridge, weights=False, **kw):
    lam, rk = ridge_kw(I, ridge, w.order)
    m = w.model(I, weights=weights, convergence_tol=0, rel_loss_tol=0, **rk, **kw)
    I.assume(ind("gt", norm2(w.X)))
    for d in w.ds + [dim("R")]:
        I.assume(ind("ge", d - 1))
    return m, lam


# ---- histories of a CP model

def another(I, w, tag, weights=True):
    """Another decomposition of the same size."""
    R = dim("R")
    return call(I, D + "KruskalTensor", PList([param_arr(tag + LETTERS[k], (d, R)) for k, d in enumerate(w.ds)]), *([param_arr(tag + "w", (R,))] if weights else []))


def h_init(I, w, m, lam):
    method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=0)
    return w.X


def h_replaced(I, w, m, lam):
    X = h_init(I, w, m, lam)
    I.setattr(m, "decomposition", another(I, w, "o"))
    return X


def h_fit(I, w, m, lam):
    method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
    return w.X


def h_fit_replaced(I, w, m, lam):
    X = h_fit(I, w, m, lam)
    cp_metrics(I, "before the decomposition is replaced", m, X, lam)
    I.setattr(m, "decomposition", another(I, w, "o"))
    return X


def h_fit_modified(I, w, m, lam):
    X = h_fit(I, w, m, lam)
    cp_metrics(I, "before the decomposition is modified", m, X, lam)
    K = attr(I, m, "decomposition")
    for k, f in enumerate(I.iter_concrete(attr(I, K, "factor_matrices"))):
        overwrite(I, f, "E%d" % k)
    overwrite(I, attr(I, K, "weights"), "Ew")
    return X


def h_refit(its):
    def h(I, w, m, lam):
        method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
        X2 = target(I, "X2", w.ds)
        method(I, m, "fit", X2, initial_decomposition=another(I, w, "o"), max_its=its)
        return X2
    return h


def h_refit_shape(I, w, m, lam):
    method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
    w2 = CPWorld(w.order)
    w2.ds = [dim("IJKLMN"[k] + "2") for k in range(w.order)]
    for d in w2.ds:
        I.assume(ind("ge", d - 1))
    X2 = target(I, "X2", w2.ds)
    method(I, m, "fit", X2, initial_decomposition=another(I, w2, "o"), max_its=1)
    return X2


def h_continue(I, w, m, lam):
    method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
    method(I, m, "continue_fit", max_its=2)
    return w.X


def h_target(I, w, m, lam):
    method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
    X2 = target(I, "X2", w.ds)
    method(I, m, "set_target", X2)
    return X2


def h_load(I, w, m, lam):
    X = h_fit(I, w, m, lam)
    m2 = call(I, C + w.cls, fnum(dim("R"), "i"), checkpoint_path="c.h5")
    I.setattr(m2, "decomposition", another(I, w, "o"))
    method(I, m2, "store_checkpoint", 3)
    method(I, m, "load_checkpoint", "c.h5")
    return X


HISTORIES = {"initialised": h_init, "initialised, replaced": h_replaced, "fitted": h_fit, "fitted, replaced": h_fit_replaced, "fitted, modified": h_fit_modified,
             "refitted, not iterated": h_refit(0), "refitted": h_refit(1), "refitted on another shape": h_refit_shape, "continued": h_continue,
             "another target": h_target, "fitted, loaded": h_load}


def mk_history(order, h, ridge, weights):
    w = CPWorld(order)
    cs, s = solver_stubs()

    def goal(I):
        s.n = 0
        m, lam = cp_model(I, w, ridge, weights)
        X = h(I, w, m, lam)
        K = attr(I, m, "decomposition")
        snap = snapshot(I.iter_concrete(attr(I, K, "factor_matrices")) + [attr(I, K, "weights")])
        cp_metrics(I, "now", m, X, lam)
        cp_metrics(I, "read again", m, X, lam)
        oblige_same(I, "reading changes nothing", snap)
    return goal, cs


for nm, h in HISTORIES.items():
    for order in (3,) if nm not in ("initialised, replaced", "fitted", "fitted, modified") else (2, 3, 4, 5, 6):
        for ridge in (False, True):
            g, cs = mk_history(order, h, ridge, nm == "initialised")
            spec.add(f"CP of {order} modes: {nm}{', ridge' if ridge else ''}", g, contracts=cs, thorough=order > 5)
    if nm in ("initialised", "fitted"):
        g, cs = mk_history(3, h, False, False)
        spec.add(f"CP of 3 modes, integer data: {nm}", integer_data(g), contracts=cs)


# ---- during the fit: after every iteration, whatever was cached before

def mk_loop(order, entry, ridge, how, pf):
    w = CPWorld(order)
    cs, s = solver_stubs()

    def goal(I):
        s.n = 0
        B = var("max_its", "int")
        kw = {}
        if how:
            kw = dict(non_negativity_constraints=PList([h == "nonneg" for h in how]), orthonormality_constraints=PList([h == "orth" for h in how]))
            for d, h in zip([dim("IJKLMN"[k]) for k in range(order)], how):
                if h == "orth":
                    I.assume(ind("ge", d - dim("R")))
        m, lam = cp_model(I, w, ridge, max_its=fnum(B, "i"), print_frequency=pf, **kw)
        I.setattr(m, "convergence_tol", fnum(var("tol")))
        c0 = ZERO
        if entry == "continue":
            method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=0)
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "max_its", fnum(B, "i"))
        R = dim("R")

        def state(I, g):
            """Any factors, anything cached for any mode."""
            if not set(m.attrs) <= w.ATTRS:
                raise Unsupported("unknown representation")
            for k, f in enumerate(w.contents(I, m)[:order]):
                overwrite(I, f, "V%d" % k)
            I.setattr(m, "current_iteration", fnum(c0 + g, "i"))
            rel, prev = var("rel"), var("Sprev")
            I.assume(ind("gt", prev))
            I.setattr(m, "_rel_function_change", fnum(rel))
            I.setattr(m, "prev_SSE", fnum(prev))
            I.setattr(m, "_last_updated_mode", order - 1)
            I.setattr(m, "_matrix_khatri_rao_product_cache", param_arr("Cache", (w.ds[order - 1], R)))

        def head(I, g):
            pass

        def after(I, g):
            cp_metrics(I, "after an iteration", m, w.X, lam)
        cut = Cut(I, ("max_its",), state, head, after, B - c0)
        if entry == "continue":
            method(I, m, "continue_fit")
        else:
            method(I, m, "fit", w.X, initial_decomposition=w.K)
        cp_metrics(I, "after the fit", m, w.X, lam)
    return goal, cs


for order in (2, 3, 4, 5, 6):
    for ridge in (False, True):
        for how in (None, ("nonneg", "orth", "free", "free")[:order]):
            if order >= 4 and (ridge or how):
                continue
            g, cs = mk_loop(order, "fit", ridge, how, -1)
            spec.add(f"CP of {order} modes, during a fit{', ridge' if ridge else ''}{', constraints' if how else ''}", g, contracts=cs)
    g, cs = mk_loop(order, "fit", False, None, -1)
    if order <= 4:
        spec.add(f"CP of {order} modes, during a fit, integer data", integer_data(g), contracts=cs)
g, cs = mk_loop(3, "continue", True, None, 1)
spec.add("CP, during a continued fit", g, contracts=cs)


# ---- PARAFAC2

def ragged_X(I, dI, K, regular, n=""):
    if regular:
        X = data_arr("X" + n, (dI, dim("J0"), K))
        return X, X, lambda k: dim("J0"), lambda k, i, j: app("X" + n, (i, j, k))
    B3, Bs = ragged(I, "Xt" + n, K, "J", dI)           # Xt[k]: J_k x I
    Xs = PList(None, K, lambda k: attr(I, seq_get(I, Bs, k), "T"))
    return B3, Xs, c08.J, lambda k, i, j: app("Xt" + n, (k, j, i))


def mk_pf(regular, ridge, history):
    def goal(I):
        dI, K, R = dims("I K R")
        for d in (dI, K, R):
            I.assume(ind("ge", d - 1))
        frame, Xs, jd, x = ragged_X(I, dI, K, regular)
        if history == "another target":
            other, X0s = frame, Xs
            frame, Xs, jd, x = ragged_X(I, dI, K, regular, "2")
        lam, rk = ridge_kw(I, ridge, 3)
        m = call(I, C + "parafac2:Parafac2_ALS", fnum(R, "i"), init="precomputed", print_frequency=-1, **rk)
        k = c08.kk(I, K)
        I.assume(ind("ge", jd(k) - 1))

        def tensor(tag):
            A, Cc, B = param_arr(tag + "A", (dI, R)), param_arr(tag + "C", (K, R)), param_arr(tag + "B", (R, R))
            if regular:
                Ps = param_arr(tag + "Q", (K, dim("J0"), R))
                Pl = PList(None, K, lambda k: I.getitem(Ps, fnum(k, "i")))
            else:
                Pl = ragged(I, tag + "Q", K, "J", R)[1]
            return call(I, D + "Parafac2Tensor", A, B, Cc, Pl)
        T = tensor("")
        sse0 = lambda tag: error(tag)

        def error(tag):
            def one(k):
                rec = lambda i, j: ssum("r", R, lambda r: app(tag + "A", (i, r)) * app(tag + "C", (k, r)) * ssum("t", R, lambda t: app(tag + "Q", (k, j, t)) * app(tag + "B", (t, r))))
                return nsum((dI, jd(k)), lambda i, j: (x(k, i, j) - rec(i, j)) ** 2)
            return ssum("k", K, one)
        n2 = ssum("k", K, lambda k: nsum((dI, jd(k)), lambda i, j: x(k, i, j) ** 2))
        I.assume(ind("gt", n2))
        N = ssum("k", K, lambda k: dI * jd(k))
        tag = ""
        if history == "initialised":
            method(I, m, "set_target", Xs)
            I.setattr(m, "decomposition", T)
        elif history == "another target":
            method(I, m, "set_target", X0s)
            I.setattr(m, "decomposition", T)
            attr(I, m, "SSE"), attr(I, m, "loss"), attr(I, m, "explained_variance")
            method(I, m, "set_target", Xs)
            tag = "o"
            I.setattr(m, "decomposition", tensor("o"))
        elif history == "replaced":
            method(I, m, "set_target", Xs)
            I.setattr(m, "decomposition", T)
            attr(I, m, "SSE"), attr(I, m, "loss")
            tag = "o"
            I.setattr(m, "decomposition", tensor("o"))
        elif history == "modified":
            method(I, m, "set_target", Xs)
            I.setattr(m, "decomposition", T)
            attr(I, m, "SSE"), attr(I, m, "loss")
            for nm_, at, sh in (("mA", "A", (dI, R)), ("mC", "C", (K, R)), ("mB", "blueprint_B", (R, R))):
                I.setitem(attr(I, T, at), Ellipsis, param_arr(nm_, sh))
        got = {k_: P(attr(I, m, k_)) for k_ in ("SSE", "MSE", "RMSE", "explained_variance", "loss")}
        if history == "modified":
            rec = lambda k, i, j: ssum("r", R, lambda r: app("mA", (i, r)) * app("mC", (k, r)) * ssum("t", R, lambda t: app("Q", (k, j, t)) * app("mB", (t, r))))
            want = ssum("k", K, lambda k: nsum((dI, jd(k)), lambda i, j: (x(k, i, j) - rec(k, i, j)) ** 2))
        else:
            want = error(tag)
        I.oblige_eq("SSE", got["SSE"], want)
        d = attr(I, m, "decomposition")
        rest(I, "now", got, N, n2, lam, [attr(I, d, "A"), attr(I, d, "blueprint_B"), attr(I, d, "C")])
    return goal


for history in ("initialised", "replaced"):
    spec.add(f"PARAFAC2, integer data: {history}", integer_data(mk_pf(True, False, history)))
for regular in (True, False):
    for ridge in (False, True):
        for history in ("initialised", "replaced", "modified", "another target"):
            spec.add(f"PARAFAC2, {'regular' if regular else 'irregular'} slices: {history}{', ridge' if ridge else ''}", mk_pf(regular, ridge, history))
