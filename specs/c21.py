"""C21: every initialisation yields a valid starting decomposition."""
from specs.fitloop import *
from specs import c05, c07, c09, c12, c18

spec = Spec("C21", "Valid starting decompositions")
spec.assumptions.append("the stabilising epsilon of the normalisation is taken to be zero (it is checked to be negligible), random draws have non-zero columns")
spec.assumptions.append("QR lemma: the triangular factor of a matrix with orthonormal columns is diagonal with entries +1 or -1")
spec.assumptions.append("the projection problems of the PARAFAC2 SVD start have full numerical rank (precondition of orthogonal_solve)")


class Draws:
    """Names of random draws."""

    def __contains__(self, n):
        return n.startswith("rnd") or n.startswith("abs")


def no_epsilon(I):
    """normalize_components with epsilon zero."""
    cls = get(I, D + "KruskalTensor")
    f = I.getattr(cls, "normalize_components")
    f = getattr(f, "f", f)
    names = [a.arg for a in f.node.args.args]
    if "eps" not in names:
        raise Unsupported("normalize_components has no parameter eps")
    k = names.index("eps") - len(names)
    e = P(f.defaults[k])
    I.oblige("the epsilon of the normalisation is negligible", b_and(ge0(e), ind("gt", ONE - e * 10**10)))
    f.defaults[k] = num(ZERO, "f")
    nonzero_columns(I, Draws())
    signs(I)


def signs(I):
    """Products of non-negative quantities are not negative (norms of the draws are positive)."""
    def atom(a, e):
        if e % 2 == 0 or a.kind == "fn" and a.data[0] in ("abs", "sqrt"):
            return True
        if a.kind == "inv":
            q = a.data[0]
            return len(q.t) == 1 and all(c > 0 and all(atom(b, f) for b, f in m) for m, c in q.t.items())
        if a.kind == "app" and a.data[0] in I.ctx.app_facts:
            return any(f[0] == "ge0" for f in I.ctx.app_facts[a.data[0]](a.data[1]))
        return False

    def rule(ck, p):
        if ck == "gt" and p.t and all(c < 0 and all(atom(a, e) for a, e in m) for m, c in p.t.items()):
            return False
    I.ctx.ind_rules.append(rule)
    I.ctx.invalidate()


def unit(I, name, f, R):
    r, = idx(I, (R,), "r")
    I.oblige_eq(f"{name}: columns have unit length", ssum("i", f.shape[0], lambda i: sq(f.at((i, r)))), ONE)


def ortho(I, name, f, R):
    s, t = idx(I, (R, R), "st")
    I.oblige_eq(f"{name}: columns are orthonormal", ssum("i", f.shape[0], lambda i: f.at((i, s)) * f.at((i, t))), int_eq(s, t))


def nonneg(I, name, f):
    ix = idx(I, f.shape)
    I.oblige(f"{name}: no negative entries", ge0(f.at(ix)))


def independent(I, arrs):
    """Writing into one of the arrays leaves all others as they are."""
    for k, a in enumerate(arrs):
        snap = snapshot([b for j, b in enumerate(arrs) if j != k])
        overwrite(I, a, "scratch%d" % k)
        oblige_same(I, f"independent storage ({k})", snap)


def mk_random(order, method_):
    def goal(I):
        no_epsilon(I)
        ds = [dim("IJKLMN"[k]) for k in range(order)]
        R = dim("R")
        kw = {} if method_ is None else dict(random_method=method_)
        sizes = tuple(fnum(d, "i") for d in ds)
        K = method(I, get(I, D + "KruskalTensor"), "random_init", sizes, fnum(R, "i"), **kw)
        fs = I.iter_concrete(attr(I, K, "factor_matrices"))
        I.oblige("number of factors", len(fs) == order)
        I.oblige_eq("rank", P(attr(I, K, "rank")), R)
        for k, f in enumerate(fs):
            if oblige_shape(I, f"factor {k}", f, (ds[k], R)):
                unit(I, f"factor {k}", f, R)
                if method_ and method_.lower() == "uniform":
                    nonneg(I, f"factor {k}", f)
        oblige_array(I, "weights", attr(I, K, "weights"), (R,), lambda r: ONE)
        independent(I, fs + [attr(I, K, "weights")])
    return goal


for order in (1, 2, 3, 4, 5, 6):
    for mt in (None, "normal", "uniform", "Uniform"):
        spec.add(f"KruskalTensor.random_init, {order} modes, {mt or 'default'}", mk_random(order, mt))


# ---- CP and CMTF models

def stubs():
    out = c07.contracts()

    def update(I, a, kw):
        raise Unsupported("an update before the first iteration")
    return out


def start_cp(order, init, how, cls="cp:CP_ALS", weights=False, lists=True, modes=()):
    def goal(I):
        no_epsilon(I)
        c09.qr_of_orthonormal(I)
        w = c18.CMTFWorld(order, modes) if "cmtf" in cls else CPWorld(order)
        kw = {}
        if lists:
            kw["non_negativity_constraints"] = PList([h == "nonneg" for h in how])
            kw["orthonormality_constraints"] = PList([h == "orth" for h in how])
        m = w.model(I, weights=weights, max_its=0, print_frequency=-1, **kw)
        R = dim("R")
        I.assume(ind("ge", R - 1))
        for d, h in zip(w.ds, how):
            I.assume(ind("ge", d - 1))
            if h == "orth" or init.lower() == "svd":
                I.assume(ind("ge", d - R))
        c12.assume_norm(I, w)
        data = w.data(I) if modes or "cmtf" in cls else {}
        fr = Frame(I, [("target", w.X)])
        given = None
        if init == "precomputed":
            for k, (f, h) in enumerate(zip(w.fs, how)):
                if h == "orth":
                    I.setitem(f, Ellipsis, c07.orthonormal(I, "start%d" % k, f.shape))
            given = [f.snapshot() for f in w.fs] + [attr(I, w.K, "weights").snapshot()]
            data["initial_decomposition"] = w.K
        I.setattr(m, "init", init)
        method(I, m, "fit", w.X, **data)
        K = attr(I, m, "decomposition")
        fs = I.iter_concrete(attr(I, K, "factor_matrices"))
        W = attr(I, K, "weights")
        I.oblige("number of factors", len(fs) == order)
        I.oblige_eq("rank", P(attr(I, K, "rank")), R)
        for k, (f, h) in enumerate(zip(fs, how)):
            if not oblige_shape(I, f"factor {k}", f, (w.ds[k], R)):
                return
            if h == "orth" or init.lower() == "svd":
                ortho(I, f"factor {k}", f, R)
            if h == "nonneg" and init.lower() == "random":
                nonneg(I, f"factor {k}", f)
        if "cmtf" not in cls:
            oblige_array(I, "weights", W, (R,), lambda r: ONE)
        us = I.iter_concrete(attr(I, m, "uncoupled_factor_matrices")) if "cmtf" in cls else []
        for c, (k, v) in enumerate(zip(modes, us)):
            oblige_shape(I, f"uncoupled factor {c}", v, (w.qs[c], R))
            if how[k] == "nonneg":
                nonneg(I, f"uncoupled factor {c}", v)
        I.oblige("one factor per coupled matrix", len(us) == len(modes))
        if given and "cmtf" not in cls and not (weights and how[0] == "orth"):
            ix = idx(I, w.ds)
            I.oblige_eq("the precomputed start is reconstructed", ssum("r", R, lambda r: W.at((r,)) * prod([f.at((i, r)) for f, i in zip(fs, ix)])),
                        ssum("r", R, lambda r: given[-1]((r,)) * prod([g((i, r)) for g, i in zip(given, ix)])))
        independent(I, fs + [W] + us)
        fr.check()
    return goal


def add(order, init, how, **kw):
    spec.add(f"{kw.get('cls', 'cp:CP_ALS').split(':')[1]}, {order} modes, {init}: {', '.join(how)}{''.join(f', {k}={v}' for k, v in kw.items() if k != 'cls')}",
             start_cp(order, init, how, **kw), contracts=stubs(), thorough=order > 4 and init.lower() == "svd")


F, N, O = "free", "nonneg", "orth"
for init in ("random", "Random", "svd", "SVD", "precomputed"):
    for order in (2, 3, 4, 5):
        add(order, init, (F,) * order, lists=False)
        if init.islower():
            add(order, init, (N,) * order)
            add(order, init, (O, N, F, F, N)[:order])
            add(order, init, (F, O, N, O, F)[:order])
for how in ((F, F, F), (N, N, N), (F, O, F), (O, F, N)):
    add(3, "precomputed", how, weights=True)
for init in ("random", "svd"):
    for how in ((F, F, F), (N, F, N), (F, O, N)):
        add(3, init, how, cls="cmtf:CMTF_ALS", modes=(0, 2, 0))


# ---- PARAFAC2 models

class CPFactors:
    def __contains__(self, n):
        return n.startswith("cp2")


class CPStart:
    """A CP fit by its contract (C05): some decomposition of the right sizes with weights one."""

    def apply(self, I, f, a, kw):
        m, X = a[0], a[1]
        R = attr(I, m, "rank")
        fs = [fresh_arr("cp%d" % k, (d, P(R)))[0] for k, d in enumerate(X.shape)]
        self.fs = [x.snapshot() for x in fs]
        I.setattr(m, "decomposition", call(I, D + "KruskalTensor", PList(fs)))


def start_pf(init, regular, constraints=None):
    cpstart = CPStart()
    cs = stubs()
    cs["tenkit.base.orthogonal_solve"] = Rows()
    if init == "cp":
        cs[C + "cp.BaseCP.fit"] = cpstart

    def goal(I):
        w = c09.World(regular)
        kw = {}
        if constraints:
            kw = dict(non_negativity_constraints=PList([h == "nonneg" for h in constraints]), orthonormality_constraints=PList([h == "orth" for h in constraints]))
        how = constraints or (F, F, F)
        m = w.model(I, max_its=0, print_frequency=-1, init=init, **kw)
        R = w.R
        if init == "cp":
            qr_lemma(I, CPFactors())
        if not regular:
            I.ctx.app_int_bounds["J"] = (lambda a: R, None)
        I.assume(ind("ge", w.dI - R))
        for d, h in zip(w.ds, how):
            if h == "orth":
                I.assume(ind("ge", d - R))
        k, k2 = w.k0, idx(I, (w.dK,), "k1")[0]
        I.assume(ind("ge", w.jd(k2) - R))
        I.assume(b_not(int_eq(k, k2)))
        fr = Frame(I, w.frame)
        data = {}
        if init == "precomputed":
            data["initial_decomposition"] = w.T
            given, Pgiven = [attr(I, w.T, n).snapshot() for n in ("A", "blueprint_B", "C")], seq_get(I, attr(I, w.T, "projection_matrices"), k).snapshot()
        try:
            method(I, m, "fit", w.Xarg, **data)
        except PyRaise as e:
            if init.lower() == "svd" and e.etype == "ValueError" and not regular:
                raise interp.PathEnd()      # some other slice has too few columns: rejected (C17)
            raise
        T = attr(I, m, "decomposition")
        A, B, Cc = attr(I, T, "A"), attr(I, T, "blueprint_B"), attr(I, T, "C")
        Ps = attr(I, T, "projection_matrices")
        I.oblige_eq("one projection matrix per slice", seq_len(I, Ps), w.dK)
        I.oblige_eq("rank", P(attr(I, T, "rank")), R)
        Pk, Pk2 = seq_get(I, Ps, k), seq_get(I, Ps, k2)
        ok = [oblige_shape(I, nm, f, sh) for nm, f, sh in (("A", A, (w.dI, R)), ("blueprint", B, (R, R)), ("C", Cc, (w.dK, R)), ("projection matrix of slice k", Pk, (w.jd(k), R)))]
        if not all(ok):
            return
        if init != "precomputed":
            ortho(I, "projection matrix of slice k", Pk, R)
        for nm, f, h in zip(("A", "blueprint", "C"), (A, B, Cc), how):
            if h == "orth":
                ortho(I, nm, f, R)
            if h == "nonneg" and init.lower() == "random":
                nonneg(I, nm, f)
        j, s = idx(I, (w.jd(k), R), "js")
        if init == "precomputed" and O not in how:
            for nm, f, g in zip(("A", "blueprint", "C"), (A, B, Cc), given):
                ix = idx(I, f.shape)
                I.oblige_eq(f"the precomputed start is used: {nm}", f.at(ix), g(ix))
            I.oblige_eq("the precomputed start is used: projections", Pk.at((j, s)), Pgiven((j, s)))
        if init == "cp" and O not in how:
            # the slices of the fitted CP model: its modes are (slices, rows, columns)
            i, = idx(I, (w.dI,), "i")
            got = ssum("r", R, lambda r: A.at((i, r)) * Cc.at((k, r)) * ssum("t", R, lambda t: Pk.at((j, t)) * B.at((t, r))))
            I.oblige_eq("the start is the fitted CP model", got, ssum("r", R, lambda r: cpstart.fs[0]((k, r)) * cpstart.fs[1]((i, r)) * cpstart.fs[2]((j, r))))
        # independent storage of the factors and of the slices' projection matrices
        arrs = [A, B, Cc, Pk, Pk2]
        independent(I, arrs)
        fr.check()
    return goal, cs


class Rows:
    """orthogonal_solve by its contract: orthonormal rows, also for slices of different sizes."""

    def apply(self, I, f, a, kw):
        A, B = a
        Q, qn, ex = fresh_arr("NP", (B.shape[1], A.shape[1]))
        rows, loops = B.shape[1], [list(e.fv)[0] for e in ex]
        I.np.add_orthonormal(I.ctx, qn, len(ex), 0, 1, lambda e: alg.subst(to_poly(rows), dict(zip(loops, e))))
        return attr(I, Q, "T")


def add_pf(init, regular, constraints=None):
    g, cs = start_pf(init, regular, constraints)
    spec.add(f"Parafac2_ALS, {'regular' if regular else 'irregular'}, {init}{': ' + ', '.join(constraints) if constraints else ''}", g, contracts=cs)


for init in ("random", "svd", "cp", "precomputed"):
    for regular in (True, False):
        if init == "cp" and not regular:
            continue
        add_pf(init, regular)
        add_pf(init, regular, (N, N, N))
        if init != "precomputed" or regular:
            add_pf(init, regular, (O, F, N))
add_pf("Random", True)
add_pf("SVD", True)


def pf_random(regular, as_list):
    def goal(I):
        R, dI, dK = dims("R I K")
        if regular:
            J = dim("J")
            jd = lambda k: J
            sizes = [fnum(dI, "i"), fnum(J, "i"), fnum(dK, "i")]
        else:
            I.ctx.app_int_bounds["J"] = (lambda a: R, None)
            jd = lambda k: app("J", (to_poly(k),), "int")
            sizes = [fnum(dI, "i"), PList(None, dK, lambda k: fnum(jd(k), "i")), fnum(dK, "i")]
        k = idx(I, (dK,), "k0")[0]
        I.assume(ind("ge", R - 1))
        I.assume(ind("ge", jd(k) - R))
        T = method(I, get(I, D + "Parafac2Tensor"), "random_init", PList(sizes) if as_list else tuple(sizes), fnum(R, "i"))
        Pk = seq_get(I, attr(I, T, "projection_matrices"), k)
        I.oblige_eq("one projection matrix per slice", seq_len(I, attr(I, T, "projection_matrices")), dK)
        ok = [oblige_shape(I, nm, f, sh) for nm, f, sh in (("A", attr(I, T, "A"), (dI, R)), ("blueprint", attr(I, T, "blueprint_B"), (R, R)),
                                                           ("C", attr(I, T, "C"), (dK, R)), ("projection matrix of slice k", Pk, (jd(k), R)))]
        if all(ok):
            ortho(I, "projection matrix of slice k", Pk, R)
        independent(I, [attr(I, T, "A"), attr(I, T, "blueprint_B"), attr(I, T, "C"), Pk])
    return goal


for regular in (True, False):
    for as_list in (True, False):
        spec.add(f"Parafac2Tensor.random_init, {'one size' if regular else 'a size per slice'}, {'list' if as_list else 'tuple'}", pf_random(regular, as_list))


@spec.goal("principal component loadings")
def _(I):
    """A^T A is diagonal with non-negative entries, for every input."""
    n, R = dims("n R")
    I.assume(ind("ge", n - R))
    Y = param_arr("Y", (n, n))
    fr = Frame(I, [("Y", Y)])
    A = call(I, "tenkit.utils:get_pca_loadings", Y, fnum(R, "i"))
    if oblige_shape(I, "loadings", A, (n, R)):
        s, t = idx(I, (R, R), "st")
        I.oblige_eq("loadings of different components are orthogonal", (ONE - int_eq(s, t)) * ssum("i", n, lambda i: A.at((i, s)) * A.at((i, t))), ZERO)
    fr.check()


# ---- random factors and synthetic data of the utilities

def unscaled(I, name):
    """The epsilon of the normalisation of the utilities is negligible and taken to be zero."""
    f = get(I, "tenkit.utils:" + name)
    names = [a.arg for a in f.node.args.args]
    if "eps" not in names:
        return 0
    k = names.index("eps") - len(names)
    I.oblige(f"{name}: the epsilon of the normalisation is negligible", b_and(ge0(P(f.defaults[k])), ind("gt", ONE - P(f.defaults[k]) * 10**10)))
    f.defaults[k] = num(ZERO, "f")
    return 1


def util_setup(I):
    if not sum([unscaled(I, n) for n in ("normalize_factor", "normalize_factors")]):
        raise Unsupported("the normalisation of the utilities has no parameter eps")
    nonzero_columns(I, Draws())
    signs(I)


def mk_util(name, order, uniform):
    def goal(I):
        util_setup(I)
        ds, R = [dim("IJKLMN"[k]) for k in range(order)], dim("R")
        sizes = tuple(fnum(d, "i") for d in ds)
        out = call(I, "tenkit.utils:" + name, sizes, fnum(R, "i"))
        fs, norms = I.iter_concrete(out)
        fs, norms = I.iter_concrete(fs), I.iter_concrete(norms)
        I.oblige("number of factors", len(fs) == order and len(norms) == order)
        for k, f in enumerate(fs):
            if oblige_shape(I, f"factor {k}", f, (ds[k], R)):
                unit(I, f"factor {k}", f, R)
                if uniform:
                    nonneg(I, f"factor {k}", f)
        independent(I, fs)
    return goal


def mk_data(name, order, uniform, noise):
    def goal(I):
        util_setup(I)
        ds, R = [dim("IJKLMN"[k]) for k in range(order)], dim("R")
        sizes = tuple(fnum(d, "i") for d in ds)
        c = num(app('c', ()), 'f')
        kw = dict(noise_factor=c) if noise else {}
        X, fs, norms, E = I.iter_concrete(call(I, "tenkit.utils:" + name, sizes, fnum(R, "i"), **kw))
        fs = I.iter_concrete(fs)
        I.oblige("number of factors", len(fs) == order)
        for k, f in enumerate(fs):
            if not oblige_shape(I, f"factor {k}", f, (ds[k], R)):
                return
            unit(I, f"factor {k}", f, R)
            if uniform:
                nonneg(I, f"factor {k}", f)
        if oblige_shape(I, "tensor", X, ds) and oblige_shape(I, "noise", E, ds):
            ix = idx(I, ds)
            model = lambda jx: ssum("r", R, lambda r: prod([f.at((i, r)) for f, i in zip(fs, jx)]))
            I.oblige_eq("the tensor is the model of the factors plus the requested part of the noise", X.at(ix), model(ix) + (P(c) * E.at(ix) if noise else ZERO))
    return goal


for order in (1, 2, 3, 4, 5):
    for name, uniform in (("create_random_factors", False), ("create_random_uniform_factors", True)):
        spec.add(f"utils.{name}, {order} modes", mk_util(name, order, uniform))
for order in (2, 3, 4):
    for name, uniform in (("create_data", False), ("create_non_negative_data", True)):
        for noise in (False, True):
            spec.add(f"utils.{name}, {order} modes, {'noise' if noise else 'no noise'}", mk_data(name, order, uniform, noise))
