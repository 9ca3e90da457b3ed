"""C10: normalisation."""
from pyver.spec import *
from pyver import vals
from fractions import Fraction

spec = Spec("C10", "Normalisation")
spec.assumptions.append("the stabilising epsilon of the normalisation is the documented parameter (default 1e-15); exact unit length and exact "
                        "preservation of the tensor are proved for epsilon 0 and non-zero columns, the entries for every epsilon")
D = "tenkit.decomposition.decompositions:"
U = "tenkit.utils:"
NAMES = "IJKLMN"


def norm_of(m, d):
    return lambda r: fn("sqrt", ssum("i", d, lambda i: sq(app(LETTERS[m], (i, r)))))


def make(order, update, mode, kind="f"):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(order)]
        R = dim("R")
        typed = lambda nm, sh: vals.Arr(vals.Buf([to_poly(d) for d in sh], lambda ix: app(nm, tuple(ix)), kind, nm))
        fs = [typed(LETTERS[m], (d, R)) for m, d in enumerate(ds)]
        w = typed("w", (R,))
        K = call(I, D + "KruskalTensor", PList(list(fs)), w)
        kw = {"update_weights": update}
        eps = ZERO
        if mode == "eps":
            eps = var("eps", "real")
            I.assume(ind("gt", eps))
            kw["eps"] = num(eps, "f")
        elif mode == "default":
            eps = to_poly(Fraction(1, 10**15))
        else:
            kw["eps"] = num(ZERO, "f")
            nonzero_columns(I, LETTERS[:order])
        if update and mode == "default":
            kw = {}
        old = [f.snapshot() for f in fs]
        out = method(I, K, "normalize_components", **kw)
        I.oblige("returns the decomposition itself", out is K)
        ns = [norm_of(m, ds[m]) for m in range(order)]
        got = I.iter_concrete(attr(I, K, "factor_matrices"))
        I.oblige("number of factors", len(got) == order)
        for m in range(order):
            if not oblige_shape(I, f"factor {m}", got[m], (ds[m], R)):
                return
            i, r = idx(I, (ds[m], R))
            I.oblige_eq(f"factor {m}: entry * (norm + eps) = old entry", got[m].at((i, r)) * (ns[m](r) + eps), old[m]((i, r)))
            if mode == "exact":
                I.oblige_eq(f"factor {m}: columns have unit length", ssum("i", ds[m], lambda i: sq(got[m].at((i, r)))), 1)
        W = attr(I, K, "weights")
        oblige_array(I, "weights", W, (R,), lambda r: app("w", (r,)) * (prod([n(r) for n in ns]) if update else ONE))
        if mode == "exact" and update:
            T = method(I, K, "construct_tensor")
            oblige_array(I, "represented tensor unchanged", T, ds,
                         lambda *ix: ssum("r", R, lambda r: app("w", (r,)) * prod([app(LETTERS[m], (ix[m], r)) for m in range(order)])))
    return goal


for o in (2, 3, 4, 5, 6):
    for u in (True, False):
        for m in ("exact", "eps", "default"):
            if m == "default" and o != 3:
                continue
            spec.add(f"normalize_components order {o}, update_weights={u}, {m}", make(o, u, m))
            if o < 4 and m != "eps":
                spec.add(f"normalize_components order {o}, update_weights={u}, {m}, integers", make(o, u, m, "i"))


@spec.goal("normalize_factor")
def _(I):
    d, R = dims("I R")
    A = param_arr("A", (d, R))
    eps = var("eps", "real")
    I.assume(ind("gt", eps))
    fr = Frame(I, [("A", A)])
    out = I.iter_concrete(call(I, U + "normalize_factor", A, eps=num(eps, "f")))
    I.oblige("two results", len(out) == 2)
    n = norm_of(0, d)
    i, r = idx(I, (d, R))
    if oblige_shape(I, "factor", out[0], (d, R)):
        I.oblige_eq("entry * (norm + eps) = old entry", out[0].at((i, r)) * (n(r) + eps), app("A", (i, r)))
    oblige_array(I, "norms", out[1], (1, R), lambda _, r: n(r))
    fr.check()


def make_nf(k):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(k)]
        R = dim("R")
        fs = factors(I, ds, R)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)])
        out = I.iter_concrete(call(I, U + "normalize_factors", PList(list(fs))))
        I.oblige("two results", len(out) == 2)
        nf, nn = I.iter_concrete(out[0]), I.iter_concrete(out[1])
        I.oblige("one entry per factor", len(nf) == k and len(nn) == k)
        e = Fraction(1, 10**15)
        for m in range(k):
            n = norm_of(m, ds[m])
            i, r = idx(I, (ds[m], R))
            if oblige_shape(I, f"factor {m}", nf[m], (ds[m], R)):
                I.oblige_eq(f"factor {m}: entry * (norm + eps) = old entry", nf[m].at((i, r)) * (n(r) + to_poly(e)), app(LETTERS[m], (i, r)))
            oblige_array(I, f"norms {m}", nn[m], (1, R), lambda _, r: n(r))
        fr.check()
    return goal


for k in (1, 2, 3, 4, 5, 6):
    spec.add(f"normalize_factors of {k}", make_nf(k))


@spec.goal("zero columns stay zero")
def _(I):
    d, R = dims("I R")
    A = param_arr("A", (d, R))
    I.ctx.app_rules["A"] = lambda ix: ZERO
    I.ctx.invalidate()
    out = I.iter_concrete(call(I, U + "normalize_factor", A))
    oblige_array(I, "normalised", out[0], (d, R), lambda i, r: ZERO)
    oblige_array(I, "norms", out[1], (1, R), lambda _, r: ZERO)
