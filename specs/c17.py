"""C17: inputs whose shapes or options do not fit are rejected, the others accepted."""
from pyver.spec import *

spec = Spec("C17", "Rejection of inputs that do not fit")
D = "tenkit.decomposition.decompositions:"
CP = "tenkit.decomposition.cp:"
PF = "tenkit.decomposition.parafac2:"
M = "tenkit.metrics:"


def verdict(I, name, fits, thunk):
    """thunk() raises exactly when the inputs do not fit.  `fits` is a 0/1 term or bool."""
    if isinstance(fits, bool):
        fits = ONE if fits else ZERO
    try:
        r = thunk()
    except PyRaise as e:
        if e.etype == "Infeasible":
            raise
        I.oblige(f"{name}: rejected only if it does not fit", ONE - fits)
        return None
    I.oblige(f"{name}: accepted only if it fits", fits)
    return r


def all_eq(pairs):
    r = ONE
    for a, b in pairs:
        r = r * int_eq(to_poly(a), to_poly(b))
    return r


def model(I, cls, R, **kw):
    if cls.startswith("Parafac2"):
        kw.setdefault("print_frequency", -1)
        return call(I, PF + cls, num(R, "i"), **kw)
    return call(I, CP + cls, num(R, "i"), **kw)


def mk_kruskal(order, wt):
    def goal(I):
        fs, cols = [], []
        for m in range(order):
            n, r = dim("IJKLMN"[m]), dim("R" + "abcdef"[m])
            fs.append(param_arr(LETTERS[m], (n, r)))
            cols.append(r)
        pairs = [(c, cols[0]) for c in cols[1:]]
        args = [PList(fs)]
        if wt:
            W = dim("W")
            args.append(param_arr("w", (W,)))
            pairs.append((W, cols[0]))
        K = verdict(I, "Kruskal tensor", all_eq(pairs), lambda: call(I, D + "KruskalTensor", *args))
        if K is not None:
            I.oblige_eq("rank", P(attr(I, K, "rank")), cols[0])
    return goal


for o in (1, 2, 3, 4, 5, 6):
    for w in (False, True):
        spec.add(f"KruskalTensor of {o} factors{' with weights' if w else ''}", mk_kruskal(o, w))


def cp_decomposition(I, order, pre=""):
    """A Kruskal tensor of some size and rank."""
    ds = [dim(pre + "IJKLMN"[m]) for m in range(order)]
    R = dim(pre + "R")
    fs = [param_arr(LETTERS[m], (d, R)) for m, d in enumerate(ds)]
    return ds, R, call(I, D + "KruskalTensor", PList(fs), param_arr("w", (R,)))


def mk_cp(order, xorder, entry):
    def goal(I):
        ds, Rd, K = cp_decomposition(I, order, "d")
        xs = [dim("IJKLMN"[m]) for m in range(xorder)]
        X = param_arr("X", xs)
        R = dim("R")
        fits = all_eq([(R, Rd)] + list(zip(ds, xs))) if order == xorder else ZERO
        if entry == "fit":
            m = model(I, "CP_ALS", R, init="Precomputed", max_its=0)
            verdict(I, "precomputed start", fits, lambda: method(I, m, "fit", X, initial_decomposition=K))
        else:
            m = model(I, "CP_ALS", R, init="precomputed")
            method(I, m, "set_target", X)
            verdict(I, "precomputed start", fits, lambda: method(I, m, "init_components", K))
    return goal


for o in (2, 3, 4, 5):
    for x in (2, 3, 4, 5):
        spec.add(f"CP: precomputed start with {o} modes for {x} modes", mk_cp(o, x, "init"))
for o in (2, 3, 4, 5):
    spec.add(f"CP: fit from a precomputed start, {o} modes", mk_cp(o, o, "fit"))


def store(I, cls, K, path="start.file", its=(var("it", "int"),)):
    """A checkpoint file holding decomposition K."""
    m = model(I, cls, var("Rany", "int"), checkpoint_path=path)
    I.setattr(m, "decomposition", K)
    for it in its:
        method(I, m, "store_checkpoint", num(it, "i"))
    return path


def mk_load(order, xorder, how):
    def goal(I):
        I.assume(ge0i(var("it", "int")))
        ds, Rd, K = cp_decomposition(I, order, "d")
        path = store(I, "CP_ALS", K)
        xs = [dim("IJKLMN"[m]) for m in range(xorder)]
        R = dim("R")
        fits = all_eq([(R, Rd)] + list(zip(ds, xs))) if order == xorder else ZERO
        m = model(I, "CP_ALS", R, init="from_checkpoint" if how == "from_checkpoint" else path)
        method(I, m, "set_target", param_arr("X", xs))
        if how == "load":
            verdict(I, "loaded decomposition", fits, lambda: method(I, m, "load_checkpoint", path))
        elif how == "from_checkpoint":
            verdict(I, "loaded decomposition", fits, lambda: method(I, m, "init_components", path))
        else:
            verdict(I, "loaded decomposition", fits, lambda: method(I, m, "init_components"))
    return goal


def ge0i(p):
    return ind("ge", p)


for o, x in ((3, 3), (2, 3), (3, 2), (2, 2), (5, 5), (4, 5), (5, 4)):
    spec.add(f"CP: load_checkpoint with {o} modes for {x} modes", mk_load(o, x, "load"))
for how in ("from_checkpoint", "path"):
    spec.add(f"CP: init='{how}'", mk_load(3, 3, how))


def pf2(I, Q, R, RB=None, RC=None):
    """A PARAFAC2 tensor with projection matrices JP(k) x Q, blueprint Q x R."""
    n, K = dim("dI"), dim("dK")
    A = param_arr("A", (n, R)); F = param_arr("F", (Q, RB or R)); C = param_arr("C", (K, RC or R))
    _, Ps = ragged(I, "P", K, "dJ", Q)
    return n, K, call(I, D + "Parafac2Tensor", A, F, C, Ps)


def ragged_data(I, n, K):
    from pyver import attrs
    I.ctx.app_int_bounds["J"] = (lambda a: ONE, None)
    base = param_arr("X", (K, n, app("J", (var(vals.RAG),), "int")))
    return PList(None, to_poly(K), lambda k: attrs.getitem(I, base, num(k, "i")))


def pf2_accepted(I, m, X, K, start):
    """Accepted: every size agrees (for an arbitrary slice k)."""


def mk_pf2(how):
    def goal(I):
        I.assume(ge0i(var("it", "int")))
        Rd = dim("dR")
        RB, RC = (dim("dRb"), dim("dRc")) if how == "precomputed" else (Rd, Rd)
        n, K, dec = pf2(I, Rd, Rd, RB, RC)
        xi, xk, R = dims("I K R")
        X = ragged_data(I, xi, xk)
        k = idx(I, (K,), "k")[0]
        if how == "precomputed":
            m = model(I, "Parafac2_ALS", R, init="precomputed", max_its=0)
            method(I, m, "set_target", X)
            go = lambda: method(I, m, "init_components", dec)
        else:
            path = store(I, "Parafac2_ALS", dec)
            m = model(I, "Parafac2_ALS", R, init="from_checkpoint")
            method(I, m, "set_target", X)
            go = (lambda: method(I, m, "load_checkpoint", path)) if how == "load" else (lambda: method(I, m, "init_components", path))
        try:
            go()
        except PyRaise:
            # what is rejected does not fit: the case of fitting sizes is the next goal
            raise interp.PathEnd()
        I.oblige("accepted: rank", int_eq(R, Rd))
        I.oblige("accepted: columns of the blueprint", int_eq(R, RB))
        I.oblige("accepted: columns of C", int_eq(R, RC))
        I.oblige("accepted: rows", int_eq(n, xi))
        I.oblige("accepted: number of slices", int_eq(K, xk))
        I.oblige("accepted: columns of slice k", int_eq(app("dJ", (k,), "int"), app("J", (k,), "int")))
    return goal


def mk_pf2_ok(how):
    def goal(I):
        I.assume(ge0i(var("it", "int")))
        R = dim("dR")
        n, K, dec = pf2(I, R, R)
        from pyver import attrs
        base = param_arr("X", (K, n, app("dJ", (var(vals.RAG),), "int")))
        X = PList(None, to_poly(K), lambda k: attrs.getitem(I, base, num(k, "i")))
        m = model(I, "Parafac2_ALS", R, init="precomputed" if how != "load" else "from_checkpoint", max_its=0)
        if how == "fit":
            verdict(I, "fitting start", True, lambda: method(I, m, "fit", X, None, None, dec))
            return
        method(I, m, "set_target", X)
        if how == "load":
            path = store(I, "Parafac2_ALS", dec)
            verdict(I, "fitting start", True, lambda: method(I, m, "init_components", path))
        else:
            verdict(I, "fitting start", True, lambda: method(I, m, "init_components", dec))
    return goal


for how in ("precomputed", "load", "from_checkpoint"):
    spec.add(f"PARAFAC2, {how}: accepted only with agreeing sizes", mk_pf2(how))
for how in ("precomputed", "load", "fit"):
    spec.add(f"PARAFAC2, {how}: agreeing sizes are accepted", mk_pf2_ok(how))


@spec.goal("PARAFAC2: fit from a start whose blueprint has another number of rows")
def _(I):
    Q, R = dims("Q dR")
    n, K, dec = pf2(I, Q, R)
    from pyver import attrs
    base = param_arr("X", (K, n, app("dJ", (var(vals.RAG),), "int")))
    X = PList(None, to_poly(K), lambda k: attrs.getitem(I, base, num(k, "i")))
    m = model(I, "Parafac2_ALS", R, init="precomputed", max_its=0)
    verdict(I, "start", int_eq(Q, R), lambda: method(I, m, "fit", X, None, None, dec))


def mk_kind(stored, reader):
    def goal(I):
        I.assume(ge0i(var("it", "int")))
        R = dim("R")
        if stored == "CP":
            ds, R, dec = cp_decomposition(I, 3)
            path = store(I, "CP_ALS", dec)
        else:
            n, K, dec = pf2(I, R, R)
            path = store(I, "Parafac2_ALS", dec)
        m = model(I, reader, R)
        if reader == "CP_ALS":
            X = param_arr("X", dims("dI J dK"))
        else:
            X = ragged_data(I, dim("I"), dim("K"))
        method(I, m, "set_target", X)
        verdict(I, f"{stored} checkpoint", False, lambda: method(I, m, "load_checkpoint", path))
    return goal


spec.add("PARAFAC2 checkpoint loaded into a CP model", mk_kind("PARAFAC2", "CP_ALS"))
spec.add("CP checkpoint loaded into a PARAFAC2 model", mk_kind("CP", "Parafac2_ALS"))


@spec.goal("missing and empty checkpoint files")
def _(I):
    R = dim("R")
    for reader in ("CP_ALS", "Parafac2_ALS"):
        m = model(I, reader, R)
        method(I, m, "set_target", param_arr("X", dims("I J K")))
        verdict(I, "missing file", False, lambda: method(I, m, "load_checkpoint", "nowhere.file"))
        from pyver import h5model
        I.files["empty.file"] = h5model.FileState()
        verdict(I, "empty file", False, lambda: method(I, m, "load_checkpoint", "empty.file"))


UNKNOWN = ("", "\x00", "foo", "svd ", " random", "randomly", "rand", "precompute", "pre-computed", "from-checkpoint", "None", "cpals",
           "nowhere.file", "hosvd", "nvecs", "qr", "random_svd")
CONTRACT = "tenkit.decomposition.decompositions."


class Any_:
    """A stand-in for a function that is not under study in the goal."""

    def __init__(self, f):
        self.f = f

    def apply(self, I, f, args, kw):
        return self.f(I, args, kw)


NOOP = Any_(lambda I, a, kw: None)


def mk_unknown(cls):
    def goal(I):
        for k, s in enumerate(UNKNOWN + (("cp",) if cls == "CP_ALS" else ())):
            X = param_arr("X", dims("I J K"))
            m = model(I, cls, dim("R"), init=s, max_its=0)
            verdict(I, f"init={s!r}", False, lambda: method(I, m, "fit", X))
    return goal


def variants(s):
    return s, s.upper(), s.capitalize(), "".join(c.upper() if k % 2 else c for k, c in enumerate(s))


def mk_known(cls):
    names = ("random", "svd") + (("cp",) if cls != "CP_ALS" else ())
    base = CP + "BaseCP" if cls == "CP_ALS" else PF + "BaseParafac2"

    def goal(I):
        for s in names:
            for v in variants(s):
                HIT.clear()
                m = model(I, cls, dim("R"), init=v)
                method(I, m, "set_target", param_arr("X", dims("I J K")))
                verdict(I, f"init={v!r}", True, lambda: method(I, m, "init_components"))
                I.oblige(f"init={v!r} runs that initialisation", HIT == [s])
    return goal


HIT = []
STUBS = {}
for b in ("cp.BaseCP", "cp.CP_ALS", "parafac2.BaseParafac2"):
    for s in ("random", "svd", "cp"):
        STUBS[f"tenkit.decomposition.{b}.init_{s}"] = Any_(lambda I, a, kw, s=s: HIT.append(s))
for c in ("CP_ALS", "Parafac2_ALS"):
    spec.add(f"{c}: unknown initialisation methods", mk_unknown(c))
    spec.add(f"{c}: known initialisation methods in any case", mk_known(c), contracts=STUBS)


def mk_svd(order):
    def goal(I):
        xs = [dim("IJKLMN"[m]) for m in range(order)]
        R = dim("R")
        m = model(I, "CP_ALS", R, init="svd")
        method(I, m, "set_target", param_arr("X", xs))
        fits = ONE
        for x in xs:
            fits = fits * ind("ge", x - R)
        if verdict(I, "rank of the SVD initialisation", fits, lambda: (method(I, m, "init_components"), 1)):
            for k, f in enumerate(I.iter_concrete(attr(I, attr(I, m, "decomposition"), "factor_matrices"))):
                oblige_shape(I, f"factor {k}", f, (xs[k], R))
    return goal


for o in (2, 3, 4, 5):
    spec.add(f"CP: SVD initialisation, {o} modes", mk_svd(o), thorough=o > 4)


@spec.goal("PARAFAC2: SVD initialisation", contracts={"tenkit.decomposition.parafac2.BaseParafac2._update_projection_matrices": NOOP})
def _(I):
    n, K, R = dims("I K R")
    X = ragged_data(I, n, K)
    m = model(I, "Parafac2_ALS", R, init="svd")
    method(I, m, "set_target", X)
    k = idx(I, (K,), "k")[0]
    try:
        method(I, m, "init_components")
    except PyRaise:
        raise interp.PathEnd()
    I.oblige("accepted: rank <= number of rows", ind("ge", n - R))
    I.oblige("accepted: rank <= number of columns of slice k", ind("ge", app("J", (k,), "int") - R))


@spec.goal("PARAFAC2: SVD initialisation of a regular tensor", contracts={"tenkit.decomposition.parafac2.BaseParafac2._update_projection_matrices": NOOP})
def _(I):
    n, J, K, R = dims("I J K R")
    X = param_arr("X", (n, J, K))
    m = model(I, "Parafac2_ALS", R, init="svd")
    method(I, m, "set_target", X)
    verdict(I, "rank of the SVD initialisation", ind("ge", n - R) * ind("ge", J - R), lambda: method(I, m, "init_components"))


REDUCTIONS = ("", "max", "MIN", "Mean", "min ", "median", "sum", "avg", "\x00", "m", "none")


def mk_red(fn_, wp):
    def goal(I):
        R = 2
        ds = dims("I J")
        f1 = [param_arr("AB"[m], (d, R)) for m, d in enumerate(ds)]
        f2 = [param_arr("CD"[m], (d, R)) for m, d in enumerate(ds)]
        nonzero_columns(I, "ABCD")
        kw = {"weight_penalty": False} if wp else {}
        for s in REDUCTIONS:
            verdict(I, f"fms_reduction={s!r}", False, lambda: call(I, M + fn_, PList(list(f1)), PList(list(f2)), fms_reduction=s, **kw))
        for s in ("min", "mean"):
            verdict(I, f"fms_reduction={s!r}", True, lambda: (call(I, M + fn_, PList(list(f1)), PList(list(f2)), fms_reduction=s, **kw), 1))
    return goal


spec.add("factor_match_score: reductions", mk_red("factor_match_score", True), limit=3000)
spec.add("separate_mode_factor_match_score: reductions", mk_red("separate_mode_factor_match_score", False), limit=3000)


def mk_core(order):
    def goal(I):
        I.tiny_zero = True
        ds, R, K = cp_decomposition(I, order)
        X = param_arr("X", ds)
        for nz in (False, True):
            verdict(I, f"core consistency of order {order}", False, lambda: method(I, K, "core_consistency", X, normalized=nz))
    return goal


for o in (1, 2, 4, 5):
    if o < 5:
        spec.add(f"core consistency of order {o}", mk_core(o))
