"""C02: unfolding/folding and flattening/unflattening are mutually inverse, with the documented layout."""
from pyver.spec import *

spec = Spec("C02", "fold/unfold, flatten/unflatten")
BASE = "tenkit.base:"
NAMES = "IJKLMN"


def mk_unfold(order, n):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(order)]
        X = param_arr("X", tuple(ds))
        fr = Frame(I, [("X", X)])
        M = call(I, BASE + "unfold", X, n)
        rest = [m for m in range(order) if m != n % order]
        mode = n % order
        if not oblige_shape(I, "unfolding", M, (ds[mode], prod(ds[m] for m in rest))):
            return
        ix = idx(I, ds)
        I.oblige_eq("layout: M[i_n, C-order of the other indices] = X[i]",
                    M.at((ix[mode], lin([ix[m] for m in rest], [ds[m] for m in rest]))), app("X", ix))
        Y = call(I, BASE + "fold", M, n, tuple(num(d, "i") for d in ds))
        oblige_array(I, "fold(unfold(X))", Y, ds, lambda *ix: app("X", ix))
        fr.check()
    return goal


def mk_fold(order, n, aslist):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(order)]
        mode = n % order
        rest = [m for m in range(order) if m != mode]
        M = param_arr("M", (ds[mode], prod(ds[m] for m in rest)))
        fr = Frame(I, [("M", M)])
        shape = [num(d, "i") for d in ds]
        shp = PList(list(shape)) if aslist else tuple(shape)
        T = call(I, BASE + "fold", M, n, shp)
        oblige_array(I, "fold", T, ds, lambda *ix: app("M", (ix[mode], lin([ix[m] for m in rest], [ds[m] for m in rest]))))
        if aslist:
            got = I.iter_concrete(shp)
            I.oblige("the shape argument keeps its length", len(got) == order)
            for a, b in zip(got, ds):
                I.oblige_eq("the shape argument is unchanged", P(a), b)
        U = call(I, BASE + "unfold", T, n)
        oblige_array(I, "unfold(fold(M))", U, M.shape, lambda i, j: app("M", (i, j)))
        fr.check()
    return goal


for order in (1, 2, 3, 4, 5, 6):
    for n in range(-1 if order > 1 else 0, order):
        spec.add(f"unfold order {order} mode {n}", mk_unfold(order, n))
        spec.add(f"fold order {order} mode {n}", mk_fold(order, n, n % 2 == 0))


def mk_flat(order):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(order)]
        R = dim("R")
        fs = factors(I, ds, R)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)])
        v = call(I, BASE + "flatten_factors", PList(list(fs)))
        total = sum((d * R for d in ds), ZERO)
        if not oblige_shape(I, "vector", v, (total,)):
            return
        off = ZERO
        for m, d in enumerate(ds):
            i, r = idx(I, (d, R))
            I.oblige_eq(f"layout of factor {m}", v.at((off + i * R + r,)), app(LETTERS[m], (i, r)))
            off = off + d * R
        out = call(I, BASE + "unflatten_factors", v, num(R, "i"), PList([num(d, "i") for d in ds]))
        items = I.iter_concrete(out)
        I.oblige("number of factors", len(items) == order)
        for m, (f, d) in enumerate(zip(items, ds)):
            oblige_array(I, f"unflatten(flatten)[{m}]", f, (d, R), lambda i, r, m=m: app(LETTERS[m], (i, r)))
        fr.check("factor")
    return goal


def mk_unflat(order):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(order)]
        R = dim("R")
        total = sum((d * R for d in ds), ZERO)
        x = param_arr("x", (total,))
        fr = Frame(I, [("x", x)])
        out = call(I, BASE + "unflatten_factors", x, num(R, "i"), tuple(num(d, "i") for d in ds))
        items = I.iter_concrete(out)
        I.oblige("number of factors", len(items) == order)
        off = ZERO
        for m, (f, d) in enumerate(zip(items, ds)):
            oblige_array(I, f"factor {m}", f, (d, R), lambda i, r, off=off: app("x", (off + i * R + r,)))
            off = off + d * R
        v = call(I, BASE + "flatten_factors", out)
        oblige_array(I, "flatten(unflatten(x))", v, (total,), lambda k: app("x", (k,)))
        fr.check()
    return goal


for order in (1, 2, 3, 4, 5, 6):
    spec.add(f"flatten order {order}", mk_flat(order))
    spec.add(f"unflatten order {order}", mk_unflat(order))
