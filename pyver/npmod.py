"""Models of numpy / scipy / standard library functions on symbolic values.

The models give the mathematical meaning of the documented numpy behaviour
(real arithmetic).  They are part of the trusted base; selfcheck.py compares
them with the installed numpy on random concrete inputs on every setup.
"""
from fractions import Fraction
from . import alg
from .alg import (Poly, to_poly, ONE, ZERO, ind, int_eq, int_ge, int_lt, fn, inv, ssum, subst, fdiv, pmod, prove_ge,
                  mk_bind, index_var, app, var)
from .vals import *
from .vals import _MISSING
from .ops import (elementwise, as_arr, broadcast, scalarize, generic_idx, dtype_of, Masked, arith, compare, store, sqrt,
                  bdim, check_nonzero, is_arrlike)


def _np(name):
    return NP.get(name)


# ------------------------------------------------------------------ helpers

def raise_value(msg):
    raise PyRaise("ValueError", (msg,))


def same_dim(I, a, b, msg="shape mismatch"):
    if a == b:
        return
    if not I.branch(int_eq(a, b)):
        raise_value(msg)


def axis_of(I, ax, nd):
    if isinstance(ax, Num):
        raise Unsupported("symbolic axis")
    if not isinstance(ax, int) or isinstance(ax, bool):
        raise PyRaise("TypeError", ("axis must be an integer",))
    if ax < -nd or ax >= nd:
        raise PyRaise("AxisError", (f"axis {ax} is out of bounds for array of dimension {nd}",))
    return ax % nd


def axes_of(I, ax, nd):
    if ax is None:
        return tuple(range(nd))
    if isinstance(ax, (tuple, PList)):
        return tuple(axis_of(I, a, nd) for a in I.as_seq(ax))
    return (axis_of(I, ax, nd),)


def shape_arg(I, s):
    if isinstance(s, (int, Num)):
        s = (s,)
    if isinstance(s, Arr):
        s = [num(s.at((to_poly(k),)), s.dtype) for k in range(int(s.shape[0].const()))]
    out = []
    for d in I.iter_concrete(s):
        if isinstance(d, Arr) and d.ndim == 0:
            d = num(d.at(()), d.dtype)
        if kind(d) == "f":
            raise PyRaise("TypeError", ("'float' object cannot be interpreted as an integer",))
        p = P(d)
        if not prove_ge(p) and not I.branch(ind("ge", p)):
            raise_value("negative dimensions are not allowed")
        out.append(p)
    return tuple(out)


NARROW = {"float32": "f32", "f4": "f32", "<f4": "f32", "single": "f32", "float16": "f16", "half": "f16", "f2": "f16", "<f2": "f16"}


def narrowing(d):
    """the rounding of a float type narrower than double (an uninterpreted function), or None"""
    n = NARROW.get(d if isinstance(d, str) else getattr(d, "name", None))
    return None if n is None else lambda p: app(n, (to_poly(p),), "real")


def dtype_kind(d, narrow=False):
    from .interp import Builtin
    if not narrow and narrowing(d) is not None:
        raise Unsupported("an array of a narrow float type")
    if d is None:
        return "f"
    if isinstance(d, DType):
        return d.k
    if isinstance(d, Builtin):
        n = d.name
        if n in ("float", "float64", "float32", "double", "single", "float16", "half"):
            return "f"
        if n in ("int", "int64", "int32", "intp"):
            return "i"
        if n in ("bool", "bool_"):
            return "b"
    from .builtins_ import PType
    if isinstance(d, PType):
        return {"float": "f", "int": "i", "bool": "b"}[d.name]
    if isinstance(d, str):
        if d[0] == "f":
            return "f"
        if d[0] in "iu":
            return "i"
        if d[0] in "b?":
            return "b"
    raise Unsupported(f"dtype {d!r}")


def cast(I, v, d):
    k = dtype_kind(d, True)
    nar = narrowing(d)
    if nar is not None:
        if isnum(v):
            return Num(nar(P(v)), "f")
        rn = v.snapshot()
        return new_arr(v.shape, lambda idx: nar(rn(idx)), "f")
    if isnum(v):
        if k == "b":
            return num(ONE - ind("eqr", P(v)), "b")
        if k == "i" and kind(v) == "f":
            from .ops import trunc
            return num(trunc(P(v)), "i")
        return Num(P(v), "f") if k == "f" else num(P(v), k)
    rd = v.snapshot()
    if k == "i" and v.dtype == "f":
        from .ops import trunc
        return new_arr(v.shape, lambda idx: trunc(rd(idx)), "i")
    if k == "b" and v.dtype != "b":
        return new_arr(v.shape, lambda idx: ONE - ind("eqr", rd(idx)), "b")
    return new_arr(v.shape, rd, k)


def copy_arr(I, a, dtype=None):
    rd = a.snapshot()
    return new_arr(a.shape, rd, dtype or a.dtype)


# ------------------------------------------------------------------ construction

def array_from(I, v, dtype=None):
    """np.array(v)"""
    r = _array_from(I, v)
    if dtype is not None:
        k = dtype_kind(dtype, True)
        if k != r.dtype or narrowing(dtype) is not None:
            return cast(I, r, dtype)
    return r


def _array_from(I, v):
    if isinstance(v, Arr):
        return copy_arr(I, v)
    if isnum(v):
        if is_inf(v):
            raise Unsupported("infinite array element")
        p = P(v)
        return new_arr((), lambda idx: p, kind(v))
    if hasattr(v, "sym_array"):
        return v.sym_array(I)
    if v is None or isinstance(v, (str, SymStr)):
        raise Unsupported("object array")
    s = I.as_seq(v)
    if isinstance(s, list):
        if not s:
            return new_arr((ZERO,), lambda idx: ZERO, "f")
        if any(isinstance(x, (str, SymStr)) or x is None for x in s):
            raise Unsupported("object array")
        parts = [x if isinstance(x, Arr) else _array_from(I, x) for x in s]
        nd = parts[0].ndim
        for p in parts[1:]:
            if p.ndim != nd:
                raise_value("setting an array element with a sequence (inhomogeneous shape)")
            for a, b in zip(p.shape, parts[0].shape):
                same_dim(I, a, b, "setting an array element with a sequence (inhomogeneous shape)")
        return stack_parts(I, parts, 0)
    # symbolic length
    g, n = index_var("g", s.n)
    t = s.getf(g)
    if isinstance(t, (PList, tuple, SymTuple)):
        t = _array_from(I, t)
    if isnum(t):
        return new_arr((s.n,), lambda idx: P(s.getf(idx[0])), kind(t))
    if isinstance(t, Arr):
        for d in t.shape:
            if n in d.fv:
                raise_value("setting an array element with a sequence (inhomogeneous shape)")

        def elem(idx):
            x = s.getf(idx[0])
            if not isinstance(x, Arr):
                x = _array_from(I, x)
            return x.at(tuple(idx[1:]))
        return new_arr((s.n,) + t.shape, elem, t.dtype)
    raise Unsupported("array of objects")


def stack_parts(I, parts, axis):
    k = "b"
    for p in parts:
        k = join_kind(k, p.dtype)
    rds = [p.snapshot() for p in parts]

    def elem(idx):
        j = idx[axis]
        rest = tuple(idx[:axis]) + tuple(idx[axis + 1:])
        c = j.const()
        if c is not None:
            return rds[int(c)](rest)
        r = ZERO
        for q, rd in enumerate(rds):
            e = int_eq(j, q)
            if e.t:
                r = r + e * rd(rest)
        return r
    sh = parts[0].shape
    return new_arr(sh[:axis] + (to_poly(len(parts)),) + sh[axis:], elem, k)


def concat(I, parts, axis=0):
    """parts: list of Arr with equal ndim"""
    nd = parts[0].ndim
    if nd == 0:
        raise_value("zero-dimensional arrays cannot be concatenated")
    axis = axis_of(I, axis, nd)
    k = "b"
    for p in parts:
        if p.ndim != nd:
            raise_value("all the input array dimensions must match exactly")
        k = join_kind(k, p.dtype)
        for q in range(nd):
            if q != axis:
                same_dim(I, p.shape[q], parts[0].shape[q], "all the input array dimensions except for the concatenation axis must match exactly")
    rds = [p.snapshot() for p in parts]
    starts = []
    tot = ZERO
    for p in parts:
        starts.append(tot)
        tot = tot + p.shape[axis]
    lens = [p.shape[axis] for p in parts]

    def elem(idx):
        j = idx[axis]
        r = ZERO
        for rd, s, n in zip(rds, starts, lens):
            off = j - s
            c = ind("ge", off) * int_lt(off, n)
            if not c.t:
                continue
            r = r + c * rd(tuple(idx[:axis]) + (off,) + tuple(idx[axis + 1:]))
        return r
    sh = parts[0].shape
    return new_arr(sh[:axis] + (tot,) + sh[axis + 1:], elem, k)


def seq_arrays(I, v):
    s = I.as_seq(v)
    if isinstance(s, list):
        return [as_arr(I, x) for x in s]
    return s


def np_concatenate(I, a, kw):
    v, axis = arg(a, kw, ["arrays", "axis"], [_MISSING, 0])
    s = seq_arrays(I, v)
    if isinstance(s, list):
        if not s:
            raise_value("need at least one array to concatenate")
        if axis is None:
            s = [reshape(I, x, (-1,)) for x in s]
            axis = 0
        return concat(I, s, axis)
    return concat_sym(I, s, axis)


def concat_sym(I, s, axis):
    """Concatenate a symbolic number of arrays."""
    g, n = index_var("g", s.n)
    t = as_arr(I, s.getf(g))
    nd = t.ndim
    axis = axis_of(I, axis, nd)
    for q in range(nd):
        if q != axis and n in t.shape[q].fv:
            raise Unsupported("concatenation of a symbolic number of arrays with possibly different shapes")
    L = t.shape[axis]
    rd = t.snapshot()
    at = lambda k, idx: subst(rd(idx), {n: k})
    if n not in L.fv:
        def elem(idx):
            k, r = fdiv(idx[axis], L), pmod(idx[axis], L)
            return at(k, tuple(idx[:axis]) + (r,) + tuple(idx[axis + 1:]))
        return new_arr(t.shape[:axis] + (s.n * L,) + t.shape[axis + 1:], elem, t.dtype)
    # blocks of different lengths: entry offset(k) + j of the result is entry j of block k
    ctx = alg.get_ctx()
    name = ctx.fresh("cat")
    off = lambda k: ssum("q", k, lambda q: subst(L, {n: q}))

    def rule(args):
        p = args[axis]
        for a in p.atoms():
            if a.kind != "sum" or p.t.get(((a, 1),)) != 1:
                continue
            vs, _ = a.data
            if len(vs) != 1:
                continue
            k = vs[0][1]
            rest = p - off(k)
            if len(rest.t) >= len(p.t) + 2:
                continue
            if alg.prove_ge(rest) and alg.prove_ge(k) and alg.prove_ge(s.n - k - 1) and alg.prove_ge(subst(L, {n: k}) - rest - 1):
                return at(k, args[:axis] + (rest,) + args[axis + 1:])
        if alg.prove_ge(p) and alg.prove_ge(subst(L, {n: ZERO}) - p - 1):
            return at(ZERO, args)
        return None
    ctx.app_rules[name] = rule
    ctx.invalidate()
    sort = "real" if t.dtype == "f" else "int"
    return new_arr(t.shape[:axis] + (off(s.n),) + t.shape[axis + 1:], lambda idx: alg.app(name, tuple(idx), sort), t.dtype)


def np_stack(I, a, kw):
    v, axis = arg(a, kw, ["arrays", "axis"], [_MISSING, 0])
    s = seq_arrays(I, v)
    if isinstance(s, list):
        if not s:
            raise_value("need at least one array to stack")
        for p in s[1:]:
            if p.ndim != s[0].ndim:
                raise_value("all input arrays must have the same shape")
            for x, y in zip(p.shape, s[0].shape):
                same_dim(I, x, y, "all input arrays must have the same shape")
        return stack_parts(I, s, axis_of(I, axis, s[0].ndim + 1))
    arr = _array_from(I, PList(None, s.n, s.getf))
    return moveaxis(I, arr, 0, axis_of(I, axis, arr.ndim))


def np_vstack(I, a, kw):
    s = seq_arrays(I, a[0])
    if not isinstance(s, list):
        g, n = index_var("g", s.n)
        t = as_arr(I, s.getf(g))
        if t.ndim == 1:
            return _array_from(I, PList(None, s.n, s.getf))
        return concat_sym(I, s, 0)
    s = [x if x.ndim >= 2 else reshape(I, x, (1, -1)) for x in s]
    return concat(I, s, 0)


def np_hstack(I, a, kw):
    s = seq_arrays(I, a[0])
    if not isinstance(s, list):
        g, n = index_var("g", s.n)
        t = as_arr(I, s.getf(g))
        return concat_sym(I, s, 0 if t.ndim == 1 else 1)
    s = [x if x.ndim >= 1 else reshape(I, x, (1,)) for x in s]
    return concat(I, s, 0 if s[0].ndim == 1 else 1)


def np_column_stack(I, a, kw):
    s = seq_arrays(I, a[0])
    if not isinstance(s, list):
        g, n = index_var("g", s.n)
        t = as_arr(I, s.getf(g))
        if t.ndim == 1:
            return transpose(I, _array_from(I, PList(None, s.n, s.getf)), None)
        return concat_sym(I, s, 1)
    s = [x if x.ndim >= 2 else reshape(I, x, (-1, 1)) for x in s]
    return concat(I, s, 1)


def full(I, shape, p, k):
    return new_arr(shape_arg(I, shape), lambda idx: p, k)


def contiguous(r, a, kw):
    if len(a) < 3 and "order" not in kw:
        r.buf.layout = "C"
    return r


def np_zeros(I, a, kw):
    s, d = arg(a, kw, ["shape", "dtype", "order"], [_MISSING, None, "C"])[:2]
    return contiguous(full(I, s, ZERO, dtype_kind(d)), a, kw)


def np_ones(I, a, kw):
    s, d = arg(a, kw, ["shape", "dtype", "order"], [_MISSING, None, "C"])[:2]
    return contiguous(full(I, s, ONE, dtype_kind(d)), a, kw)


def np_empty(I, a, kw):
    s, d = arg(a, kw, ["shape", "dtype", "order"], [_MISSING, None, "C"])[:2]
    return contiguous(fresh_arr("undef", shape_arg(I, s), dtype_kind(d))[0], a, kw)


def np_full(I, a, kw):
    s, v, d = arg(a, kw, ["shape", "fill_value", "dtype"], [_MISSING, _MISSING, None])
    if is_inf(v):
        raise Unsupported("infinite array element")
    return full(I, s, P(v), kind(v) if d is None else dtype_kind(d))


def like(p, undefined=False):
    def f(I, a, kw):
        x, d = arg(a, kw, ["a", "dtype"], [_MISSING, None])[:2]
        x = as_arr(I, x)
        k = x.dtype if d is None else dtype_kind(d)
        if undefined:
            return fresh_arr("undef", x.shape, k)[0]
        return new_arr(x.shape, lambda idx: p, k)
    return f


def np_eye(I, a, kw):
    n, m, k, d = arg(a, kw, ["N", "M", "k", "dtype"], [_MISSING, None, 0, None])
    n = P(n)
    m = n if m is None else P(m)
    return new_arr((n, m), lambda idx: int_eq(idx[1], idx[0] + k), dtype_kind(d))


def np_diag(I, a, kw):
    v, k = arg(a, kw, ["v", "k"], [_MISSING, 0])
    v = as_arr(I, v)
    rd = v.snapshot()
    if v.ndim == 1:
        if k != 0:
            raise Unsupported("np.diag with an offset")
        n = v.shape[0]
        return new_arr((n, n), lambda idx: int_eq(idx[0], idx[1]) * rd((idx[0],)), v.dtype)
    if v.ndim == 2:
        return np_diagonal(I, [v], {"offset": k})
    raise_value("Input must be 1- or 2-d.")


def np_diagonal(I, a, kw):
    v, off, a1, a2 = arg(a, kw, ["a", "offset", "axis1", "axis2"], [_MISSING, 0, 0, 1])
    v = as_arr(I, v)
    if v.ndim != 2 or off != 0:
        raise Unsupported("diagonal")
    x, y = v.shape
    n = x if x == y else (x if I.branch(ind("ge", y - x)) else y)
    r = Arr(new_arr((n,), lambda idx, rd=v.snapshot(): rd((idx[0], idx[0])), v.dtype).buf)
    r.ro = True
    return r


def np_fill_diagonal(I, a, kw):
    v, val = a[0], a[1]
    if v.ndim < 2:
        raise_value("array must be at least 2-d")
    rd = v.snapshot()
    if v.ndim > 2:
        for d in v.shape[1:]:
            same_dim(I, d, v.shape[0], "All dimensions of input must be of equal length")
    if isinstance(val, (Arr, PList, tuple)):
        w = as_arr(I, val)
        wr = w.snapshot()
        if w.ndim != 1:
            raise Unsupported("fill_diagonal")
        if not I.branch(int_eq(w.shape[0], v.shape[0])):
            raise Unsupported("fill_diagonal wrapping")
        f = lambda i: wr((i,))
    else:
        p = P(val)
        f = lambda i: p
    def el(idx):
        c = ONE
        for j in idx[1:]:
            c = c * int_eq(idx[0], j)
        return alg.ite(c, f(idx[0]), rd(idx)) if c.t else rd(idx)
    v.write(el)
    return None


def np_arange(I, a, kw):
    if len(a) == 1:
        n = P(a[0])
        if kind(a[0]) == "f":
            raise Unsupported("arange of a real")
        return new_arr((n,), lambda idx: idx[0], "i")
    lo, hi = P(a[0]), P(a[1])
    st = a[2] if len(a) > 2 else 1
    if kind(a[0]) == "f" or kind(a[1]) == "f" or not isinstance(st, int) or st < 1:
        raise Unsupported("arange step")
    if st > 1:
        n = fdiv(hi - lo + (st - 1), to_poly(st))
        if not I.branch(ind("ge", n)):
            n = ZERO
        return new_arr((n,), lambda idx: lo + idx[0] * st, "i")
    n = hi - lo
    if not I.branch(ind("ge", n)):
        n = ZERO
    return new_arr((n,), lambda idx: lo + idx[0], "i")


# ------------------------------------------------------------------ shape manipulation

def prod_dims(ds):
    r = ONE
    for d in ds:
        r = r * d
    return r


def linear(idx, shape):
    r = ZERO
    for i, d in zip(idx, shape):
        r = r * d + i
    return r


def unravel(p, shape):
    out = []
    rest = p
    for k in range(len(shape) - 1, 0, -1):
        d = shape[k]
        out.append(pmod(rest, d))
        rest = fdiv(rest, d)
    out.append(rest)
    return tuple(reversed(out))


def reshape(I, a, shape, order="C"):
    a = as_arr(I, a)
    if any(RAG in d.fv for d in a.shape):
        raise Unsupported("reshape of a ragged array")
    dims = []
    neg = None
    for d in (shape if isinstance(shape, (tuple, list)) else I.iter_concrete(shape)):
        if isinstance(d, Poly):
            dims.append(d)
            continue
        if isinstance(d, Arr) and d.ndim == 0:
            d = num(d.at(()), d.dtype)
        if isinstance(d, int) and d == -1:
            if neg is not None:
                raise_value("can only specify one unknown dimension")
            neg = len(dims)
            dims.append(None)
        else:
            if kind(d) == "f":
                raise PyRaise("TypeError", ("'float' object cannot be interpreted as an integer",))
            dims.append(P(d))
    total = prod_dims(a.shape)
    if neg is not None:
        known = prod_dims([d for d in dims if d is not None])
        if known.is_zero():
            raise_value("cannot reshape")
        if not pmod(total, known).is_zero() and not I.branch(int_eq(pmod(total, known), 0)):
            raise_value("cannot reshape array into shape")
        q = fdiv(total, known)
        # under a path condition the quotient may be provably one of the source dimensions
        dims[neg] = q
    else:
        if prod_dims(dims) != total and not I.branch(int_eq(prod_dims(dims), total)):
            raise_value("cannot reshape array into shape")
    rev = order == "F"
    src = list(a.shape)
    dst = list(dims)
    if rev:
        src, dst = src[::-1], dst[::-1]
    elif order not in ("C", None):
        raise Unsupported("reshape order")
    # match groups of equal size from the front, then treat the rest as one group
    groups = []
    i = j = 0
    while i < len(src) or j < len(dst):
        found = None
        for u in range(i, len(src) + 1):
            for w in range(j, len(dst) + 1):
                if (u, w) == (i, j):
                    continue
                if (u == i or w == j):
                    # group of ones on one side only
                    x = src[i:u] if w == j else dst[j:w]
                    if all(d.const() == 1 for d in x):
                        found = (u, w)
                        break
                    continue
                if prod_dims(src[i:u]) == prod_dims(dst[j:w]):
                    found = (u, w)
                    break
            if found:
                break
        if not found:
            found = (len(src), len(dst))
        groups.append((i, found[0], j, found[1]))
        i, j = found

    def fwd(rd):
        def elem(idx):
            if rev:
                idx = idx[::-1]
            out = [ZERO] * len(src)
            for (i0, i1, j0, j1) in groups:
                if i0 == i1:
                    continue
                if j0 == j1:
                    continue
                lin = linear(idx[j0:j1], dst[j0:j1])
                if i1 - i0 == 1:
                    out[i0] = lin
                else:
                    for k, x in enumerate(unravel(lin, src[i0:i1])):
                        out[i0 + k] = x
            if rev:
                out = out[::-1]
            return rd(tuple(out))
        return elem
    r = new_arr(tuple(dims), fwd(a.snapshot()), a.dtype)
    if not (len(dims) == len(a.shape) and all(x == y for x, y in zip(dims, a.shape))):
        def back(si):
            if rev:
                si = si[::-1]
            out = [ZERO] * len(dst)
            for (i0, i1, j0, j1) in groups:
                if i0 == i1 or j0 == j1:
                    continue
                lin = linear(si[i0:i1], src[i0:i1])
                if j1 - j0 == 1:
                    out[j0] = lin
                else:
                    for k, x in enumerate(unravel(lin, dst[j0:j1])):
                        out[j0 + k] = x
            return tuple(out[::-1] if rev else out)
        return Arr(r.buf, dep=Dep(_deps(a), (a, back, None if rev else fwd)))
    return Arr(a.buf, a.axes, a.shape, a.ro, a.dep)


def _deps(a):
    d = ((a.buf, a.buf.version),)
    if a.dep:
        d = d + tuple(a.dep)
    return d


def np_reshape(I, a, kw):
    v, s, o = arg(a, kw, ["a", "shape", "order"], [_MISSING, _MISSING, "C"])
    return reshape(I, as_arr(I, v), s if isinstance(s, (tuple, PList, Arr)) else (s,), o)


def m_reshape(I, a, kw):
    v = a[0]
    if len(a) == 2 and isinstance(a[1], (tuple, PList, SymTuple)):
        s = a[1]
    else:
        s = tuple(a[1:])
    if "shape" in kw:
        s = kw["shape"]
    return reshape(I, v, s, kw.get("order", "C"))


def transpose(I, a, axes):
    a = as_arr(I, a)
    nd = a.ndim
    if axes is None:
        perm = list(range(nd))[::-1]
    else:
        perm = [axis_of(I, x, nd) for x in I.iter_concrete(axes)]
        if sorted(perm) != list(range(nd)):
            raise_value("axes don't match array")
    pos = {p: k for k, p in enumerate(perm)}
    ax = tuple(x if x[0] == "fix" else ("ax", pos[x[1]], x[2], x[3]) for x in a.axes)
    return Arr(a.buf, ax, tuple(a.shape[p] for p in perm), a.ro, a.dep)


def np_transpose(I, a, kw):
    v, ax = arg(a, kw, ["a", "axes"], [_MISSING, None])
    return transpose(I, v, ax)


def m_transpose(I, a, kw):
    if len(a) == 1:
        return transpose(I, a[0], kw.get("axes"))
    if len(a) == 2:
        return transpose(I, a[0], a[1])
    return transpose(I, a[0], tuple(a[1:]))


def moveaxis(I, a, s, d):
    a = as_arr(I, a)
    nd = a.ndim
    ss = axes_of(I, s, nd)
    dd = axes_of(I, d, nd)
    if len(ss) != len(dd):
        raise_value("source and destination must have the same number of elements")
    order = [n for n in range(nd) if n not in ss]
    for dest, src in sorted(zip(dd, ss)):
        order.insert(dest, src)
    return transpose(I, a, tuple(order))


def np_swapaxes(I, a, kw):
    v, x, y = a
    v = as_arr(I, v)
    x, y = axis_of(I, x, v.ndim), axis_of(I, y, v.ndim)
    o = list(range(v.ndim))
    o[x], o[y] = o[y], o[x]
    return transpose(I, v, tuple(o))


def np_squeeze(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])
    v = as_arr(I, v)
    if ax is None:
        drop = []
        for k, d in enumerate(v.shape):
            c = d.const()
            if c == 1 or (c is None and I.branch(int_eq(d, 1))):
                drop.append(k)
    else:
        drop = list(axes_of(I, ax, v.ndim))
        for k in drop:
            if not I.branch(int_eq(v.shape[k], 1)):
                raise_value("cannot select an axis to squeeze out which has size not equal to one")
    from . import attrs
    ix = tuple(0 if k in drop else slice(None) for k in range(v.ndim))
    r = attrs.basic_view(I, v, list(ix)) if drop else v
    return r


def np_expand_dims(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, _MISSING])
    v = as_arr(I, v)
    axs = axes_of(I, ax, v.ndim + (len(I.as_seq(ax)) if isinstance(ax, (tuple, PList)) else 1))
    from . import attrs
    ix = []
    j = 0
    for k in range(v.ndim + len(axs)):
        if k in axs:
            ix.append(None)
        else:
            ix.append(slice(None))
    return attrs.basic_view(I, v, ix)


def np_ravel(I, a, kw):
    return reshape(I, as_arr(I, a[0]), (-1,), kw.get("order", a[1] if len(a) > 1 else "C"))


def m_flatten(I, a, kw):
    r = reshape(I, a[0], (-1,), kw.get("order", a[1] if len(a) > 1 else "C"))
    return copy_arr(I, r)


def np_broadcast_to(I, a, kw):
    v = as_arr(I, a[0])
    sh = shape_arg(I, a[1])
    out, maps = broadcast(I, [v.shape, sh])
    for x, y in zip(out, sh):
        if x != y:
            raise_value("cannot broadcast")
    rd = v.snapshot()
    r = new_arr(sh, lambda idx: rd(maps[0](idx)), v.dtype)
    r.ro = True
    return r


def np_tile(I, a, kw):
    v = as_arr(I, a[0])
    reps = a[1]
    reps = list(I.iter_concrete(reps)) if isinstance(reps, (tuple, PList)) else [reps]
    nd = max(v.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    sh = (ONE,) * (nd - v.ndim) + v.shape
    rd = v.snapshot()
    off = nd - v.ndim

    def elem(idx):
        return rd(tuple(pmod(idx[off + k], v.shape[k]) for k in range(v.ndim)))
    return new_arr([d * P(r) for d, r in zip(sh, reps)], elem, v.dtype)


def np_repeat(I, a, kw):
    v, r, ax = arg(a, kw, ["a", "repeats", "axis"], [_MISSING, _MISSING, None])
    v = as_arr(I, v)
    if not isinstance(r, (int, Num)):
        raise Unsupported("repeat with an array")
    rp = P(r)
    if ax is None:
        v = reshape(I, v, (-1,))
        ax = 0
    ax = axis_of(I, ax, v.ndim)
    rd = v.snapshot()
    return new_arr(v.shape[:ax] + (v.shape[ax] * rp,) + v.shape[ax + 1:],
                   lambda idx: rd(tuple(idx[:ax]) + (fdiv(idx[ax], rp),) + tuple(idx[ax + 1:])), v.dtype)


def np_flip(I, a, kw):
    v, ax = arg(a, kw, ["m", "axis"], [_MISSING, None])
    v = as_arr(I, v)
    axs = axes_of(I, ax, v.ndim)
    from . import attrs
    return attrs.basic_view(I, v, [slice(None, None, -1) if k in axs else slice(None) for k in range(v.ndim)])


# ------------------------------------------------------------------ products

def matmul(I, a, b):
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim == 0 or b.ndim == 0:
        raise_value("matmul: Input operand does not have enough dimensions")
    same_dim(I, a.shape[-1], b.shape[-2] if b.ndim > 1 else b.shape[0], "matmul: mismatch in its core dimension")
    n = a.shape[-1]
    ra, rb = a.snapshot(), b.snapshot()
    k = join_kind(a.dtype, b.dtype)
    if a.ndim == 1 and b.ndim == 1:
        return num(ssum("k", n, lambda t: ra((t,)) * rb((t,))), k)
    if a.ndim == 1:
        if b.ndim != 2:
            raise Unsupported("matmul of stacks")
        return new_arr((b.shape[1],), lambda idx: ssum("k", n, lambda t: ra((t,)) * rb((t, idx[0]))), k)
    if b.ndim == 1:
        return new_arr(a.shape[:-1], lambda idx: ssum("k", n, lambda t: ra(tuple(idx) + (t,)) * rb((t,))), k)
    ba, bb = a.shape[:-2], b.shape[:-2]
    bs, maps = broadcast(I, [ba, bb]) if (ba or bb) else ((), [lambda i: (), lambda i: ()])
    nb = len(bs)

    def elem(idx):
        bi = tuple(idx[:nb])
        return ssum("k", n, lambda t: ra(maps[0](bi) + (idx[nb], t)) * rb(maps[1](bi) + (t, idx[nb + 1])))
    return new_arr(tuple(bs) + (a.shape[-2], b.shape[-1]), elem, k)


def dot(I, a, b):
    if (isnum(a) or (isinstance(a, Arr) and a.ndim == 0)) or (isnum(b) or (isinstance(b, Arr) and b.ndim == 0)):
        return arith(I, "Mult", a, b)
    a, b = as_arr(I, a), as_arr(I, b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(I, a, b)
    return tensordot(I, a, b, ((a.ndim - 1,), (b.ndim - 2 if b.ndim > 1 else 0,)))


def tensordot(I, a, b, axes):
    a, b = as_arr(I, a), as_arr(I, b)
    if isinstance(axes, int):
        xa, xb = tuple(range(a.ndim - axes, a.ndim)), tuple(range(axes))
    else:
        p = I.iter_concrete(axes) if not isinstance(axes, tuple) else axes
        xa, xb = axes_of(I, p[0], a.ndim), axes_of(I, p[1], b.ndim)
    if len(xa) != len(xb):
        raise_value("shape-mismatch for sum")
    for x, y in zip(xa, xb):
        same_dim(I, a.shape[x], b.shape[y], "shape-mismatch for sum")
    fa = [k for k in range(a.ndim) if k not in xa]
    fb = [k for k in range(b.ndim) if k not in xb]
    la = {k: ("s", n) for n, k in enumerate(xa)}
    lb = {k: ("s", n) for n, k in enumerate(xb)}
    ops_ = []
    out = []
    lab_a = [la.get(k, ("a", k)) for k in range(a.ndim)]
    lab_b = [lb.get(k, ("b", k)) for k in range(b.ndim)]
    out = [("a", k) for k in fa] + [("b", k) for k in fb]
    return _einsum(I, [a, b], [lab_a, lab_b], out)


def _einsum(I, arrs, labs, out):
    dims = {}
    for a, l in zip(arrs, labs):
        if len(l) != a.ndim:
            raise_value("einstein sum subscripts string does not match the operand dimensions")
        for x, d in zip(l, a.shape):
            if x in dims:
                if dims[x] != d:
                    if dims[x].const() == 1 or d.const() == 1:
                        raise Unsupported("einsum broadcasting of a length-one axis")
                    if not I.branch(int_eq(dims[x], d)):
                        if I.branch(int_eq(dims[x], 1)) or I.branch(int_eq(d, 1)):
                            raise Unsupported("einsum broadcasting of a length-one axis")
                        raise_value("operand has a mismatch in its core dimension")
            else:
                dims[x] = d
    summed = [x for x in dims if x not in out]
    rds = [a.snapshot() for a in arrs]
    k = "b"
    for a in arrs:
        k = join_kind(k, a.dtype)

    def elem(idx):
        env = dict(zip(out, idx))

        def rec(j):
            if j == len(summed):
                r = ONE
                for rd, l in zip(rds, labs):
                    r = r * rd(tuple(env[x] for x in l))
                return r

            def body(t):
                env[summed[j]] = t
                return rec(j + 1)
            return ssum("e", dims[summed[j]], body)
        return rec(0)
    r = new_arr([dims[x] for x in out], elem, k)
    return scalarize(r)


def spell_ellipsis(spec, arrs):
    """'...' written out with letters (broadcast of dimensions 1 is not modelled: _einsum compares the dimensions)"""
    lhs, _, out = spec.partition("->")
    labs = lhs.split(",")
    if len(labs) != len(arrs) or any(l.count("...") > 1 or l.replace("...", "").count(".") for l in labs):
        raise Unsupported("einsum ellipsis")
    n = max((a.ndim - len(l) + 3 for l, a in zip(labs, arrs) if "..." in l), default=0)
    free = [c for c in "ZYXWVU" if c not in spec][:n][::-1]
    if n < 0 or len(free) < n:
        raise Unsupported("einsum ellipsis")
    if any("..." in l and any(d.const() == 1 for d in a.shape) for l, a in zip(labs, arrs)):
        raise Unsupported("einsum ellipsis")
    sp = [l.replace("...", "".join(free[len(free) - (a.ndim - len(l) + 3):])) if "..." in l else l for l, a in zip(labs, arrs)]
    if "->" not in spec:
        raise Unsupported("einsum ellipsis without an output")
    return ",".join(sp) + "->" + out.replace("...", "".join(free))


def np_einsum(I, a, kw):
    spec = a[0]
    if not isinstance(spec, str):
        raise Unsupported("einsum without a subscript string")
    arrs = [as_arr(I, x) for x in a[1:]]
    spec = spec.replace(" ", "")
    if "." in spec:
        spec = spell_ellipsis(spec, arrs)
    if "->" in spec:
        lhs, out = spec.split("->")
    else:
        lhs = spec
        cs = lhs.replace(",", "")
        out = "".join(sorted(c for c in set(cs) if cs.count(c) == 1))
    labs = lhs.split(",")
    if len(labs) != len(arrs):
        raise_value("more operands provided to einstein sum function than specified")
    for c in out:
        if c not in lhs:
            raise_value("einstein sum subscripts string included output subscript which never appeared")
    return _einsum(I, arrs, [list(l) for l in labs], list(out))


def np_outer(I, a, kw):
    x, y = reshape(I, as_arr(I, a[0]), (-1,)), reshape(I, as_arr(I, a[1]), (-1,))
    rx, ry = x.snapshot(), y.snapshot()
    return new_arr((x.shape[0], y.shape[0]), lambda i: rx((i[0],)) * ry((i[1],)), join_kind(x.dtype, y.dtype))


def np_inner(I, a, kw):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim == 1 and y.ndim == 1:
        return matmul(I, x, y)
    return tensordot(I, x, y, ((x.ndim - 1,), (y.ndim - 1,)))


def np_kron(I, a, kw):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    nd = max(x.ndim, y.ndim)
    from . import attrs
    x = attrs.basic_view(I, x, [None] * (nd - x.ndim) + [slice(None)] * x.ndim)
    y = attrs.basic_view(I, y, [None] * (nd - y.ndim) + [slice(None)] * y.ndim)
    rx, ry = x.snapshot(), y.snapshot()
    return new_arr([p * q for p, q in zip(x.shape, y.shape)],
                   lambda i: rx(tuple(fdiv(t, d) for t, d in zip(i, y.shape))) * ry(tuple(pmod(t, d) for t, d in zip(i, y.shape))),
                   join_kind(x.dtype, y.dtype))


def np_multi_dot(I, a, kw):
    s = I.iter_concrete(a[0])
    r = s[0]
    for x in s[1:]:
        r = dot(I, r, x)
    return r


def sla_khatri_rao(I, a, kw):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim != 2 or y.ndim != 2:
        raise_value("both arrays should be 2-D")
    same_dim(I, x.shape[1], y.shape[1], "The number of columns for both arrays should be equal.")
    rx, ry = x.snapshot(), y.snapshot()
    d = y.shape[0]
    return new_arr((x.shape[0] * d, x.shape[1]), lambda i: rx((fdiv(i[0], d), i[1])) * ry((pmod(i[0], d), i[1])), join_kind(x.dtype, y.dtype))


# ------------------------------------------------------------------ reductions

def reduce_(I, a, axis, keepdims, f, dtype=None):
    """f(list of (name-free) ranges, body fn) over the reduced axes; f receives dims and a reader of the reduced index."""
    a = as_arr(I, a)
    axs = axes_of(I, axis, a.ndim)
    if len(set(axs)) != len(axs):
        raise_value("duplicate value in 'axis'")
    keep = [k for k in range(a.ndim) if k not in axs]
    if any(RAG in d.fv for d in a.shape):
        if 0 in axs or True:
            # order reductions so that the ragged axis is inner
            pass
    rd = a.snapshot()
    shape = [ONE if k in axs else d for k, d in enumerate(a.shape)] if keepdims else [a.shape[k] for k in keep]

    def elem(idx):
        base = [None] * a.ndim
        if keepdims:
            for k in keep:
                base[k] = idx[k]
        else:
            for k, x in zip(keep, idx):
                base[k] = x

        def body(rix):
            b = list(base)
            for k, x in zip(axs, rix):
                b[k] = x
            return rd(tuple(b))

        def dimof(j, sofar):
            d = a.shape[axs[j]]
            if RAG in d.fv:
                z = base[0] if 0 not in axs else sofar[axs.index(0)]
                d = subst(d, {RAG: z})
            return d
        return f(dimof, len(axs), body)
    r = new_arr(shape, elem, dtype or a.dtype)
    return scalarize(r) if not keepdims else r


def _sum_over(dimof, n, body):
    def rec(j, sofar):
        if j == n:
            return body(tuple(sofar))
        return ssum("s", dimof(j, sofar), lambda t: rec(j + 1, sofar + [t]))
    return rec(0, [])


def m_sum(I, a, kw):
    v, ax, dt, out, keep = arg(a, kw, ["a", "axis", "dtype", "out", "keepdims"], [_MISSING, None, None, None, False])
    if dt is not None:
        if isinstance(v, Masked):
            raise Unsupported("dtype of a masked reduction")
        v = cast(I, as_arr(I, v), dt)
    if isinstance(v, Masked):
        return masked_sum(I, v)
    v = as_arr(I, v)
    return reduce_(I, v, ax, I.truth(keep), _sum_over, "i" if v.dtype == "b" else v.dtype)


def masked_sum(I, m):
    def rec(j, idx):
        if j == len(m.shape):
            c = m.mask(tuple(idx))
            return c * m.val(tuple(idx)) if c.t else ZERO
        return ssum("s", m.shape[j], lambda t: rec(j + 1, idx + [t]))
    return num(rec(0, []), "i" if m.dtype == "b" else m.dtype)


def masked_len(I, m):
    def rec(j, idx):
        if j == len(m.shape):
            return m.mask(tuple(idx))
        return ssum("s", m.shape[j], lambda t: rec(j + 1, idx + [t]))
    return num(rec(0, []), "i")


def m_mean(I, a, kw):
    v, ax, dt, out, keep = arg(a, kw, ["a", "axis", "dtype", "out", "keepdims"], [_MISSING, None, None, None, False])
    if dt is not None:
        if isinstance(v, Masked):
            raise Unsupported("dtype of a masked reduction")
        v = cast(I, as_arr(I, v), dt)
    if isinstance(v, Masked):
        n = masked_len(I, v)
        check_nonzero(I, n)
        return Num(P(masked_sum(I, v)) * inv(P(n)), "f")
    v = as_arr(I, v)
    axs = axes_of(I, ax, v.ndim)
    s = reduce_(I, v, ax, I.truth(keep), _sum_over, "f")
    n = prod_dims([v.shape[k] for k in axs])
    if n.const() == 0:
        I.defined(ZERO, "mean of an empty array")
    elif not prove_ge(n - 1):
        I.defined(ind("ge", n - 1), "mean of an empty array")
    return arith(I, "Mult", s, Num(inv(n), "f"))


def m_prod(I, a, kw):
    v, ax, dt, out, keep = arg(a, kw, ["a", "axis", "dtype", "out", "keepdims"], [_MISSING, None, None, None, False])
    if dt is not None:
        if isinstance(v, Masked):
            raise Unsupported("dtype of a masked reduction")
        v = cast(I, as_arr(I, v), dt)
    if isinstance(v, (PList, tuple, SymTuple)):
        s = I.as_seq(v)
        if isinstance(s, list) and all(isnum(x) for x in s):
            r = ONE
            k = "i"
            for x in s:
                r = r * P(x)
                k = join_kind(k, kind(x))
            return num(r, k if s else "f")
    v = as_arr(I, v)

    def f(dimof, n, body):
        def rec(j, sofar):
            if j == n:
                return body(tuple(sofar))
            d = dimof(j, sofar)
            c = d.const()
            if c is not None and c <= 16:
                r = ONE
                for t in range(int(c)):
                    r = r * rec(j + 1, sofar + [to_poly(t)])
                return r
            t, nm = index_var("s", d)
            return mk_bind("prod", [(nm, d)], [rec(j + 1, sofar + [t])], "real")
        return rec(0, [])
    return reduce_(I, v, ax, I.truth(keep), f, "i" if v.dtype == "b" else v.dtype)


def extremum(op):
    def m(I, a, kw):
        v, ax, out, keep = arg(a, kw, ["a", "axis", "out", "keepdims"], [_MISSING, None, None, False])[:4]
        v = as_arr(I, v)
        axs = axes_of(I, ax, v.ndim)
        for k in axs:
            d = v.shape[k]
            if d.const() == 0 or not (prove_ge(d - 1) or I.branch(ind("ge", d - 1))):
                raise_value("zero-size array to reduction operation which has no identity")

        def f(dimof, n, body):
            ds = []
            for j in range(n):
                d = dimof(j, [])
                ds.append(d)
            if all(d.const() is not None and d.const() <= 4 for d in ds):
                import itertools
                r = None
                for t in itertools.product(*[range(int(d.const())) for d in ds]):
                    x = body(tuple(to_poly(q) for q in t))
                    r = x if r is None else fn(op, r, x)
                return r
            vs = []
            ix = []
            for d in ds:
                t, nm = index_var("m", d)
                vs.append((nm, d))
                ix.append(t)
            b = body(tuple(ix))
            r = mk_bind(op, vs, [b], "real" if v.dtype == "f" else "int")
            if len(vs) == 1 and v.dtype == "i" and n == v.ndim and not I.loops:
                # a bound for every element (definition of the extremum)
                from .loops import add_universal
                raw, I.ctx.raw = I.ctx.raw, True
                try:
                    fact = ind("ge", (b - r) if op == "min" else (r - b))
                finally:
                    I.ctx.raw = raw
                add_universal(I.ctx, fact, vs[0][0], vs[0][1])
            return r
        return reduce_(I, v, ax, I.truth(keep), f, v.dtype)
    return m


def arg_extremum(op):
    def m(I, a, kw):
        v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])[:2]
        v = as_arr(I, v)
        if ax is None:
            v = reshape(I, v, (-1,))
            ax = 0

        def f(dimof, n, body):
            d = dimof(0, [])
            c = d.const()
            if c is not None and 1 <= c <= 5:
                # position k of the first extremal entry
                x = [body((to_poly(k),)) for k in range(int(c))]
                s = 1 if op == "argmin" else -1
                r = ZERO
                for k in range(1, int(c)):
                    t = ONE
                    for j in range(int(c)):
                        if j != k:
                            t = t * (ind("gt", (x[j] - x[k]) * s) if j < k else ONE - ind("gt", (x[k] - x[j]) * s))
                    r = r + t * k
                return r
            t, nm = index_var("m", d)
            return mk_bind(op, [(nm, d)], [body((t,))], "int")
        return reduce_(I, v, ax, False, f, "i")
    return m


def any_all(is_any):
    def m(I, a, kw):
        v, ax, out, keep = arg(a, kw, ["a", "axis", "out", "keepdims"], [_MISSING, None, None, False])
        v = as_arr(I, v)

        def f(dimof, n, body):
            def rec(j, sofar):
                if j == n:
                    x = body(tuple(sofar))
                    if v.dtype != "b":
                        x = ONE - ind("eqr", x)
                    return (ONE - x) if is_any else x
                d = dimof(j, sofar)
                c = d.const()
                if c is not None and c <= 16:
                    r = ONE
                    for t in range(int(c)):
                        r = r * rec(j + 1, sofar + [to_poly(t)])
                    return r
                t, nm = index_var("s", d)
                b = rec(j + 1, sofar + [t])
                # conjunction over a symbolic range as "count of failures is zero"
                return ind("eqi", alg.sum_poly([(nm, d)], ONE - b))
            r = rec(0, [])
            return ONE - r if is_any else r
        return reduce_(I, v, ax, I.truth(keep), f, "b")
    return m


def m_cumsum(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])[:2]
    v = as_arr(I, v)
    if ax is None:
        v = reshape(I, v, (-1,))
        ax = 0
    ax = axis_of(I, ax, v.ndim)
    rd = v.snapshot()
    return new_arr(v.shape, lambda idx: ssum("s", idx[ax] + 1, lambda t: rd(tuple(idx[:ax]) + (t,) + tuple(idx[ax + 1:]))), v.dtype)


def np_trace(I, a, kw):
    v = as_arr(I, a[0])
    if v.ndim != 2:
        raise Unsupported("trace")
    x, y = v.shape
    n = x if x == y else (x if I.branch(ind("ge", y - x)) else y)
    rd = v.snapshot()
    return num(ssum("s", n, lambda t: rd((t, t))), v.dtype)


def m_var(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])[:2]
    v = as_arr(I, v)
    mu = m_mean(I, [v], {"axis": ax, "keepdims": True})
    d = arith(I, "Sub", v, mu)
    return m_mean(I, [arith(I, "Mult", d, d)], {"axis": ax})


# ------------------------------------------------------------------ elementwise

def ufunc(f, dtype=None):
    def m(I, a, kw):
        if kw.get("out") is not None:
            kw = dict(kw)
            out = kw.pop("out")
            if isinstance(out, tuple) and len(out) == 1:
                out, = out
            if not isinstance(out, Arr):
                raise Unsupported("ufunc keyword out")
            v = m(I, a, kw)
            if isinstance(v, Arr) and (v.ndim != out.ndim or any(to_poly(x) != to_poly(y) for x, y in zip(v.shape, out.shape))):
                raise Unsupported("ufunc keyword out with another shape")
            I.setitem(out, Ellipsis, v)
            return out
        if kw and set(kw) - {"dtype"}:
            raise Unsupported("ufunc keyword " + ",".join(kw))
        args = [x if (isnum(x) or is_arrlike(x)) else as_arr(I, x) for x in a]
        if any(is_inf(x) for x in args):
            raise Unsupported("infinite operand")
        k = dtype
        if k is None:
            k = "b"
            for x in args:
                k = join_kind(k, dtype_of(x))
            if k == "b":
                k = "i"
        return scalarize(elementwise(I, f, args, k))
    return m


def binary(t):
    def m(I, a, kw):
        out = kw.get("out")
        r = scalarize_(arith(I, t, *a[:2]))
        if isinstance(out, tuple) and len(out) == 1:
            out, = out
        if out is not None:
            from .ops import RANK
            ra = as_arr(I, r)
            if not isinstance(out, Arr):
                raise Unsupported("ufunc keyword out")
            if RANK[ra.dtype] > RANK[out.dtype]:
                raise PyRaise("TypeError", ("cannot cast ufunc output",))
            if ra.ndim > out.ndim:
                raise_value("non-broadcastable output operand")
            store(I, out, r)
            return out
        return r
    return m


def scalarize_(x):
    return scalarize(x)


def comparator(t):
    import ast
    op = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[t]()
    return lambda I, a, kw: compare(I, op, a[0], a[1])


def np_sqrt(I, a, kw):
    x = a[0]
    if not (isnum(x) or is_arrlike(x)):
        x = as_arr(I, x)
    return scalarize(sqrt(I, x))


def np_where(I, a, kw):
    if len(a) == 1:
        raise Unsupported("np.where with one argument")
    c, x, y = a
    if is_inf(x) or is_inf(y):
        raise Unsupported("infinite array element")
    xs = [v if (isnum(v) or is_arrlike(v)) else as_arr(I, v) for v in (c, x, y)]
    cb = dtype_of(xs[0]) == "b"
    k = join_kind(dtype_of(xs[1]), dtype_of(xs[2]))

    def f(q, u, v):
        if not cb:
            q = ONE - ind("eqr", q)
        return alg.ite(q, u, v)
    return scalarize(elementwise(I, f, xs, k))


def np_clip(I, a, kw):
    v, lo, hi = arg(a, kw, ["a", "a_min", "a_max"], [_MISSING, None, None])
    v = v if isnum(v) else as_arr(I, v)
    if lo is not None and not (is_inf(lo) and lo < 0):
        v = NP["maximum"](I, [v, lo], {})
    if hi is not None and not (is_inf(hi) and hi > 0):
        v = NP["minimum"](I, [v, hi], {})
    return v


def np_isnan(I, a, kw):
    v = a[0] if isnum(a[0]) else as_arr(I, a[0])
    return scalarize(elementwise(I, lambda x: ZERO, (v,), "b"))


def np_nan_to_num(I, a, kw):
    return copy_arr(I, as_arr(I, a[0]))


def np_allclose(I, a, kw):
    raise Unsupported("np.allclose")


def np_array_equal(I, a, kw):
    x, y = as_arr(I, a[0]), as_arr(I, a[1])
    if x.ndim != y.ndim:
        return False
    for p, q in zip(x.shape, y.shape):
        if p != q and not I.branch(int_eq(p, q)):
            return False
    import ast
    r = compare(I, ast.Eq(), x, y)
    return any_all(False)(I, [r], {})


def np_array(I, a, kw):
    v, d, cp, _, ndmin = arg(a, kw, ["object", "dtype", "copy", "order", "ndmin"], [_MISSING, None, True, None, 0])
    if cp is not True or ndmin != 0:
        raise Unsupported("np.array with copy or ndmin")
    return array_from(I, v, d)


def np_asarray(I, a, kw):
    v, d = arg(a, kw, ["a", "dtype", "order"], [_MISSING, None, None])[:2]
    if isinstance(v, Arr):
        if d is None or (dtype_kind(d, True) == v.dtype and narrowing(d) is None):
            return v
        return cast(I, v, d)
    return array_from(I, v, d)


def np_copy(I, a, kw):
    v = a[0]
    if isinstance(v, Masked):
        return v
    return copy_arr(I, as_arr(I, v))


def m_astype(I, a, kw):
    k = dtype_kind(a[1], True)
    if k == a[0].dtype and narrowing(a[1]) is None:
        return copy_arr(I, a[0])
    return cast(I, a[0], a[1])


def m_item(I, a, kw):
    v = a[0]
    if len(a) > 1:
        from . import attrs
        ix = tuple(a[1:]) if not isinstance(a[1], tuple) else a[1]
        return attrs.arr_getitem(I, v, ix if len(ix) == v.ndim else _unsup("item"))
    for d in v.shape:
        if not I.branch(int_eq(d, 1)):
            raise_value("can only convert an array of size 1 to a Python scalar")
    return num(v.at((ZERO,) * v.ndim), v.dtype)


def _unsup(m):
    raise Unsupported(m)


def m_fill(I, a, kw):
    p = P(a[1])
    a[0].write(lambda idx: p)


def m_tolist(I, a, kw):
    v = a[0]
    if v.ndim == 0:
        return num(v.at(()), v.dtype)
    from .interp import SymSeq
    s = I.as_seq(v)
    if isinstance(s, list):
        return PList([m_tolist(I, [x], {}) if isinstance(x, Arr) else x for x in s])
    if v.ndim == 1:
        rd = v.snapshot()
        return PList(None, s.n, lambda j: num(rd((j,)), v.dtype))
    return PList(None, s.n, lambda j: m_tolist(I, [s.getf(j)], {}))


def np_shape(I, a, kw):
    return tuple(num(d, "i") for d in as_arr(I, a[0]).shape)


def np_size(I, a, kw):
    if isinstance(a[0], Masked):
        return masked_len(I, a[0])
    v = as_arr(I, a[0])
    if len(a) > 1:
        return num(v.shape[axis_of(I, a[1], v.ndim)], "i")
    return num(prod_dims(v.shape), "i")


def np_isscalar(I, a, kw):
    return isnum(a[0]) or isinstance(a[0], str)


def np_count_nonzero(I, a, kw):
    v = a[0]
    if isinstance(v, Masked):
        raise Unsupported("count_nonzero of a selection")
    v = as_arr(I, v)
    rd = v.snapshot()
    b = new_arr(v.shape, (lambda idx: rd(idx)) if v.dtype == "b" else (lambda idx: ONE - ind("eqr", rd(idx))), "i")
    return m_sum(I, [b], kw)


def np_triu(lower):
    def m(I, a, kw):
        v, k = arg(a, kw, ["m", "k"], [_MISSING, 0])
        rd = as_arr(I, v).snapshot()
        v = as_arr(I, v)
        if lower:
            return new_arr(v.shape, lambda i: ind("ge", i[0] + k - i[1]) * rd(i), v.dtype)
        return new_arr(v.shape, lambda i: ind("ge", i[1] - i[0] - k) * rd(i), v.dtype)
    return m


def np_prod_builtin(I, a, kw):
    return m_prod(I, a, kw)


def np_argsort(I, a, kw):
    raise Unsupported("argsort")


def np_isfinite(I, a, kw):
    v = a[0] if isnum(a[0]) else as_arr(I, a[0])
    if is_inf(v):
        return False
    return scalarize(elementwise(I, lambda x: ONE, (v,), "b"))


def np_issubdtype(I, a, kw):
    raise Unsupported("issubdtype")


# ------------------------------------------------------------------ linear algebra (contracts on external functions)

def np_norm(I, a, kw):
    v, o, ax, keep = arg(a, kw, ["x", "ord", "axis", "keepdims"], [_MISSING, None, None, False])
    v = as_arr(I, v)
    keep = I.truth(keep)
    nred = v.ndim if ax is None else len(axes_of(I, ax, v.ndim))
    if o == "fro" or o is None or (isinstance(o, int) and o == 2 and nred == 1):
        if o == "fro" and nred != 2:
            raise_value("Invalid norm order.")
        sq = new_arr(v.shape, lambda idx, rd=v.snapshot(): _sq(rd(idx)), "f")
        s = reduce_(I, sq, ax, keep, _sum_over, "f")
        return scalarize(elementwise(I, lambda x: fn("sqrt", x), (s,), "f"))
    if nred == 1 and isinstance(o, int) and o == 1:
        sq = new_arr(v.shape, lambda idx, rd=v.snapshot(): fn("abs", rd(idx)), "f")
        return reduce_(I, sq, ax, keep, _sum_over, "f")
    if nred == 1 and is_inf(o) and o > 0:
        sq = new_arr(v.shape, lambda idx, rd=v.snapshot(): fn("abs", rd(idx)), "f")
        return extremum("max")(I, [sq], {"axis": ax, "keepdims": keep})
    raise Unsupported("norm order")


def _sq(x):
    return x * x


def ext_key(I, name, *arrs):
    """Functional consistency: equal arguments give the same result symbols."""
    ks = [name]
    for a in arrs:
        if isinstance(a, Arr):
            names = []
            idx = []
            for k, d in enumerate(a.shape):
                t, n = index_var("x", d)
                idx.append(t)
                names.append(n)
            p = a.at(tuple(idx))
            canon = alg.rename_raw(p, {n: f"~{k}" for k, n in enumerate(names)})
            ks.append((tuple(d.key for d in a.shape), canon.key))
        else:
            ks.append(a)
    return tuple(ks)


class Ext:
    """Record of one external call: kind, inputs (readers), outputs (arrays)."""

    def __init__(self, kind_, ins, outs, info=None):
        self.kind, self.ins, self.outs, self.info = kind_, ins, outs, info or {}


def ext_call(I, name, ins, mk):
    key = (tuple(I.loops),) + ext_key(I, name, *ins)
    r = I.ext_memo.get(key)
    if r is None:
        r = mk()
        I.ext_memo[key] = r
        I.ext_calls.append(r)
        I.ext_all.append(r)
        I.externals_used.add(name)
        h = I.ext_hooks.get(name)
        if h is not None:
            h(I, r)
    # every call returns fresh arrays
    return tuple(copy_arr(I, o) if isinstance(o, Arr) else o for o in r.outs)


def snap(I, a):
    return copy_arr(I, a)


def min_dim(I, m, n):
    if m == n:
        return m
    if prove_ge(n - m):
        return m
    if prove_ge(m - n):
        return n
    return m if I.branch(ind("ge", n - m)) else n


def np_svd(I, a, kw):
    v, fm, cu = arg(a, kw, ["a", "full_matrices", "compute_uv"], [_MISSING, True, True])[:3]
    v = as_arr(I, v)
    if v.ndim != 2:
        raise Unsupported("svd of a stack")
    m, n = v.shape
    k = min_dim(I, m, n)
    if not I.truth(cu):
        u, s, w = ext_call(I, "svd", [v], lambda: _mk_svd(I, v, m, n, k))
        return s
    if I.truth(fm):
        u, s, w = ext_call(I, "svd_full", [v], lambda: _mk_svd(I, v, m, n, k, True))
        return (u, s, w)
    u, s, w = ext_call(I, "svd", [v], lambda: _mk_svd(I, v, m, n, k))
    return (u, s, w)


def _mk_svd(I, v, m, n, k, full_=False):
    v = snap(I, v)
    u, un, ux = fresh_arr("svdU", (m, m if full_ else k))
    s, sn, sx = fresh_arr("svdS", (k,))
    w, wn, wx = fresh_arr("svdV", (n if full_ else k, n))
    ne = len(ux)
    c = I.ctx
    # S >= 0
    c.app_facts[sn] = lambda args: [("ge0", app(sn, args))]
    # orthonormal columns of U, orthonormal rows of Vh
    add_orthonormal(c, un, ne, 0, 1, per_loop(m, ux))
    add_orthonormal(c, wn, ne, 1, 0, per_loop(n, ux))
    if full_:
        add_orthonormal(c, un, ne, 1, 0, per_loop(m, ux))
        add_orthonormal(c, wn, ne, 0, 1, per_loop(n, ux))
    else:
        if m == k:
            add_orthonormal(c, un, ne, 1, 0, per_loop(k, ux))
        if n == k:
            add_orthonormal(c, wn, ne, 0, 1, per_loop(k, ux))
    return Ext("svd_full" if full_ else "svd", [v], (u, s, w), {"u": un, "s": sn, "vh": wn, "extra": ux, "k": k})


def per_loop(rng, ex):
    """A range as a function of the indices of the enclosing symbolic loops (ex) the array was created in."""
    names = [list(e.fv)[0] for e in ex]
    rng = to_poly(rng)
    if not any(n in rng.fv for n in names):
        return rng
    return lambda e: alg.subst(rng, dict(zip(names, e)))


def add_orthonormal(ctx, name, ne, sum_axis, free_axis, rng):
    """sum_t Q[.., t at sum_axis] Q[.., t] = [free indices equal] (t over the whole axis)."""
    def rule(vs, body):
        cand = [(a, e) for a, e in body if a.kind == "app" and a.data[0] == name]
        if not cand:
            return None
        pairs = []
        for i, (a, e) in enumerate(cand):
            if e >= 2:
                pairs.append((a, a))
            for b, f in cand[i + 1:]:
                pairs.append((a, b))
        for a, b in pairs:
            xa, xb = a.data[1], b.data[1]
            ta, tb = xa[ne + sum_axis], xb[ne + sum_axis]
            if ta.key != tb.key:
                continue
            if any(p.key != q.key for p, q in zip(xa[:ne], xb[:ne])):
                continue
            for k, (n, r) in enumerate(vs):
                if ta.key != var(n).key or r != (rng(xa[:ne]) if callable(rng) else rng):
                    continue
                fa, fb = xa[ne + free_axis], xb[ne + free_axis]
                if n in fa.fv or n in fb.fv or any(n in p.fv for p in xa[:ne]):
                    continue
                if any(n in rr.fv for j, (_, rr) in enumerate(vs) if j != k):
                    continue
                rest = {}
                for c, e in body:
                    rest[c] = rest.get(c, 0) + e
                rest[a] -= 1
                rest[b] -= 1
                rest = {c: e for c, e in rest.items() if e}
                if any(n in c.fv for c in rest):
                    continue
                p = alg.simplify_mono(rest) if rest else ONE
                return [v for j, v in enumerate(vs) if j != k], alg.pmul(p, int_eq(fa, fb))
        return None
    ctx.contract.append(rule)


def np_qr(I, a, kw):
    v, mode = arg(a, kw, ["a", "mode"], [_MISSING, "reduced"])
    v = as_arr(I, v)
    if v.ndim != 2 or mode not in ("reduced", "economic"):
        raise Unsupported("qr mode")
    m, n = v.shape
    k = min_dim(I, m, n)

    def mk():
        vv = snap(I, v)
        q, qn, ex = fresh_arr("qrQ", (m, k))
        r0, rn, _ = fresh_arr("qrR", (k, n))
        rd = r0.snapshot()
        r = new_arr((k, n), lambda i: ind("ge", i[1] - i[0]) * rd(i), "f")
        add_orthonormal(I.ctx, qn, len(ex), 0, 1, per_loop(m, ex))
        if m == k:
            add_orthonormal(I.ctx, qn, len(ex), 1, 0, per_loop(k, ex))
        return Ext("qr", [vv], (q, r), {"q": qn, "r": rn, "extra": ex, "k": k})
    return ext_call(I, "qr", [v], mk)


def np_inv(I, a, kw):
    v = as_arr(I, a[0])
    if v.ndim != 2:
        raise Unsupported("inv of a stack")
    same_dim(I, v.shape[0], v.shape[1], "Last 2 dimensions of the array must be square")

    def mk():
        r, rn, ex = fresh_arr("inv", v.shape)
        return Ext("inv", [snap(I, v)], (r,), {"x": rn, "extra": ex})
    return ext_call(I, "inv", [v], mk)[0]


def coarse_cutoff(I, vals, extra=()):
    """Does the solver discard singular values that are not numerically zero? (relative cut-offs above 1e-10)"""
    bad = False
    for c in vals:
        if c is None or c is _MISSING:
            continue
        q = P(c).const()
        if q is None:
            raise Unsupported("a symbolic cut-off for singular values")
        bad = bad or q > Fraction(1, 10**10)
    return bad


def np_pinv(I, a, kw):
    v = as_arr(I, a[0])
    if v.ndim != 2:
        raise Unsupported("pinv of a stack")
    if set(kw) - {"rcond", "rtol", "atol", "hermitian", "check_finite"} or kw.get("hermitian") or len(a) > 2:
        raise Unsupported("pinv options")
    if coarse_cutoff(I, list(a[1:]) + [kw.get(k) for k in ("rcond", "rtol", "atol")]):
        # not the Moore-Penrose inverse: nothing is known about the result
        return fresh_arr("cutpinv", (v.shape[1], v.shape[0]))[0]

    def mk():
        r, rn, ex = fresh_arr("pinv", (v.shape[1], v.shape[0]))
        return Ext("pinv", [snap(I, v)], (r,), {"x": rn, "extra": ex})
    return ext_call(I, "pinv", [v], mk)[0]


def np_lstsq(I, a, kw):
    A, b = as_arr(I, a[0]), as_arr(I, a[1])
    if A.ndim != 2:
        raise PyRaise("LinAlgError", ("array must be two-dimensional",))
    same_dim(I, A.shape[0], b.shape[0], "Incompatible dimensions")
    cut = coarse_cutoff(I, list(a[2:3]) + [kw.get(k) for k in ("rcond", "cond")])

    def mk():
        x, xn, ex = fresh_arr("lsq", (A.shape[1],) + b.shape[1:])
        return Ext("lstsq", [snap(I, A), snap(I, b)], (x,), {"x": xn, "extra": ex})
    x = fresh_arr("cutlsq", (A.shape[1],) + b.shape[1:])[0] if cut else ext_call(I, "lstsq", [A, b], mk)[0]
    from .interp import Poison
    return (x, Poison("residuals of lstsq"), fresh_num("rank", "i", 0), fresh_arr("sv", (fn("min", *A.shape),))[0])


def np_solve(I, a, kw):
    A, b = as_arr(I, a[0]), as_arr(I, a[1])
    if A.ndim != 2:
        raise Unsupported("solve of a stack")
    same_dim(I, A.shape[0], A.shape[1], "Last 2 dimensions of the array must be square")
    same_dim(I, A.shape[0], b.shape[0], "solve: mismatch in its core dimension")

    def mk():
        x, xn, ex = fresh_arr("slv", (A.shape[1],) + b.shape[1:])
        return Ext("solve", [snap(I, A), snap(I, b)], (x,), {"x": xn, "extra": ex})
    return ext_call(I, "solve", [A, b], mk)[0]


def sp_nnls(I, a, kw):
    A, b = arg(a, kw, ["A", "b", "maxiter"], [_MISSING, _MISSING, None])[:2]
    A, b = as_arr(I, A), as_arr(I, b)
    if A.ndim != 2 or b.ndim != 1:
        raise_value("Expected a two-dimensional array and a one-dimensional array")
    same_dim(I, A.shape[0], b.shape[0], "Incompatible dimensions")

    def mk():
        x, xn, ex = fresh_arr("nnls", (A.shape[1],))
        I.ctx.app_facts[xn] = lambda args: [("ge0", app(xn, args))]
        return Ext("nnls", [snap(I, A), snap(I, b)], (x,), {"x": xn, "extra": ex})
    x = ext_call(I, "nnls", [A, b], mk)[0]
    ra, rb, rx = A.snapshot(), b.snapshot(), x.snapshot()
    rn = fn("sqrt", ssum("s", A.shape[0], lambda i: _sq(ssum("s", A.shape[1], lambda j: ra((i, j)) * rx((j,))) - rb((i,)))))
    return (x, Num(rn, "f"))


def sp_solve_triangular(I, a, kw):
    A, b, trans, lower = arg(a, kw, ["a", "b", "trans", "lower"], [_MISSING, _MISSING, 0, False])
    A, b = as_arr(I, A), as_arr(I, b)
    if trans in (1, "T"):
        A = transpose(I, A, None)
        lower = not I.truth(lower)
    elif trans not in (0, "N"):
        raise Unsupported("solve_triangular trans")
    rd = A.snapshot()
    if I.truth(lower):
        T = new_arr(A.shape, lambda i: ind("ge", i[0] - i[1]) * rd(i), "f")
    else:
        T = new_arr(A.shape, lambda i: ind("ge", i[1] - i[0]) * rd(i), "f")
    same_dim(I, A.shape[0], A.shape[1], "expected square matrix")
    same_dim(I, A.shape[0], b.shape[0], "incompatible dimensions")

    def mk():
        x, xn, ex = fresh_arr("slv", (A.shape[1],) + b.shape[1:])
        return Ext("solve", [snap(I, T), snap(I, b)], (x,), {"x": xn, "extra": ex})
    return ext_call(I, "solve", [T, b], mk)[0]


def np_matrix_power(I, a, kw):
    v = as_arr(I, a[0])
    r = v
    if not isinstance(a[1], int) or a[1] < 1:
        raise Unsupported("matrix_power")
    for _ in range(a[1] - 1):
        r = matmul(I, r, v)
    return r


# ------------------------------------------------------------------ random

def rnd_arr(nonneg=False, lo=None, hi=None):
    def f(I, shape):
        if not shape:
            raise Unsupported("scalar random number")
        arr, n, ex = fresh_arr("rnd", shape_arg(I, shape))
        I.externals_used.add("random")
        if nonneg:
            I.ctx.app_facts[n] = lambda args: [("ge0", app(n, args))]
        I.random.append((n, arr))
        return copy_arr(I, arr)
    return f


def rnd_size(nonneg, posargs):
    g = rnd_arr(nonneg)

    def f(I, a, kw):
        size = kw.get("size", a[posargs] if len(a) > posargs else None)
        nn = nonneg
        if size is None:
            v = fresh_num("rnd", "f")
            if nonneg:
                I.assume(ONE - ind("gt", -v.p))
            return v
        if not isinstance(size, (tuple, PList)):
            size = (size,)
        return g(I, size)
    return f


def rnd_uniform(I, a, kw):
    lo, hi, size = arg(a, kw, ["low", "high", "size"], [0, 1, None])
    nn = isnum(lo) and not is_inf(lo) and I.prove(ONE - ind("gt", -P(lo)))
    if size is None:
        return rnd_size(nn, 99)(I, [], {})
    if not isinstance(size, (tuple, PList)):
        size = (size,)
    return rnd_arr(nn)(I, size)


def rnd_randint(I, a, kw):
    lo, hi, size = arg(a, kw, ["low", "high", "size"], [_MISSING, None, None])
    if hi is None:
        lo, hi = 0, lo
    if size is not None:
        raise Unsupported("randint with a size")
    v = fresh_num("rndi", "i")
    nm = [n for n in v.p.fv]
    I.assume(ind("ge", v.p - P(lo)))
    I.assume(int_lt(v.p, P(hi)))
    return v


# ------------------------------------------------------------------ argument helper

def arg(a, kw, names, defaults):
    out = list(defaults)
    for k, x in enumerate(a):
        if k >= len(names):
            raise Unsupported("too many positional arguments for a modelled function")
        out[k] = x
    for n, v in kw.items():
        if n not in names:
            raise Unsupported(f"keyword {n} of a modelled function")
        out[names.index(n)] = v
    for n, x in zip(names, out):
        if x is _MISSING:
            raise PyRaise("TypeError", (f"missing argument {n}",))
    return out


NP = {
    "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray, "ascontiguousarray": np_asarray, "copy": np_copy,
    "zeros": np_zeros, "ones": np_ones, "empty": np_empty, "full": np_full,
    "zeros_like": like(ZERO), "ones_like": like(ONE), "empty_like": like(ZERO, True),
    "eye": np_eye, "identity": np_eye, "diag": np_diag, "diagonal": np_diagonal, "fill_diagonal": np_fill_diagonal,
    "arange": np_arange, "reshape": np_reshape, "transpose": np_transpose,
    "moveaxis": lambda I, a, kw: moveaxis(I, *arg(a, kw, ["a", "source", "destination"], [_MISSING] * 3)),
    "swapaxes": np_swapaxes, "squeeze": np_squeeze, "expand_dims": np_expand_dims, "ravel": np_ravel,
    "rollaxis": lambda I, a, kw: _unsup("rollaxis"),
    "broadcast_to": np_broadcast_to, "tile": np_tile, "repeat": np_repeat, "flip": np_flip,
    "concatenate": np_concatenate, "stack": np_stack, "vstack": np_vstack, "hstack": np_hstack,
    "column_stack": np_column_stack, "row_stack": np_vstack,
    "matmul": lambda I, a, kw: matmul(I, a[0], a[1]), "dot": lambda I, a, kw: dot(I, a[0], a[1]),
    "vdot": lambda I, a, kw: matmul(I, reshape(I, as_arr(I, a[0]), (-1,)), reshape(I, as_arr(I, a[1]), (-1,))),
    "tensordot": lambda I, a, kw: tensordot(I, *arg(a, kw, ["a", "b", "axes"], [_MISSING, _MISSING, 2])),
    "einsum": np_einsum, "outer": np_outer, "inner": np_inner, "kron": np_kron, "trace": np_trace,
    "sum": m_sum, "mean": m_mean, "average": m_mean, "prod": m_prod, "product": m_prod, "var": m_var,
    "min": extremum("min"), "max": extremum("max"), "amin": extremum("min"), "amax": extremum("max"),
    "argmin": arg_extremum("argmin"), "argmax": arg_extremum("argmax"),
    "any": any_all(True), "all": any_all(False), "cumsum": m_cumsum,
    "abs": ufunc(lambda x: fn("abs", x)), "absolute": ufunc(lambda x: fn("abs", x)), "fabs": ufunc(lambda x: fn("abs", x), "f"),
    "sign": ufunc(lambda x: fn("sign", x)), "square": ufunc(_sq), "negative": ufunc(lambda x: -x),
    "sqrt": np_sqrt, "exp": ufunc(lambda x: fn("exp", x), "f"), "log": ufunc(lambda x: fn("log", x), "f"),
    "maximum": ufunc(lambda x, y: fn("max", x, y)), "minimum": ufunc(lambda x, y: fn("min", x, y)),
    "add": binary("Add"), "subtract": binary("Sub"), "multiply": binary("Mult"), "divide": binary("Div"),
    "true_divide": binary("Div"), "power": binary("Pow"), "mod": binary("Mod"), "floor_divide": binary("FloorDiv"),
    "logical_and": binary("BitAnd"), "logical_or": binary("BitOr"),
    "logical_not": lambda I, a, kw: elementwise(I, lambda x: ONE - x, (a[0],), "b") if dtype_of(a[0]) == "b" else _unsup("logical_not"),
    "equal": comparator("eq"), "not_equal": comparator("ne"), "less": comparator("lt"), "less_equal": comparator("le"),
    "greater": comparator("gt"), "greater_equal": comparator("ge"),
    "where": np_where, "clip": np_clip, "isnan": np_isnan, "isfinite": np_isfinite, "nan_to_num": np_nan_to_num,
    "isinf": np_isnan, "allclose": np_allclose, "array_equal": np_array_equal, "shape": np_shape, "size": np_size,
    "ndim": lambda I, a, kw: as_arr(I, a[0]).ndim, "isscalar": np_isscalar, "count_nonzero": np_count_nonzero,
    "triu": np_triu(False), "tril": np_triu(True), "argsort": np_argsort, "issubdtype": np_issubdtype,
    "atleast_2d": lambda I, a, kw: as_arr(I, a[0]) if as_arr(I, a[0]).ndim >= 2 else reshape(I, as_arr(I, a[0]), (1, -1)),
    "atleast_1d": lambda I, a, kw: as_arr(I, a[0]) if as_arr(I, a[0]).ndim >= 1 else reshape(I, as_arr(I, a[0]), (1,)),
    "iterable": lambda I, a, kw: isinstance(a[0], (PList, tuple, Arr, SymTuple)),
}

LINALG = {
    "norm": np_norm, "svd": np_svd, "qr": np_qr, "inv": np_inv, "pinv": np_pinv, "lstsq": np_lstsq, "solve": np_solve,
    "multi_dot": np_multi_dot, "matrix_power": np_matrix_power,
}

SLA = {"solve_triangular": sp_solve_triangular, "khatri_rao": sla_khatri_rao, "norm": np_norm, "inv": np_inv,
       "pinv": np_pinv, "solve": np_solve, "qr": np_qr}

RANDOM = {
    "randn": lambda I, a, kw: rnd_arr()(I, tuple(a)) if a else rnd_size(False, 9)(I, [], {}),
    "rand": lambda I, a, kw: rnd_arr(True)(I, tuple(a)) if a else rnd_size(True, 9)(I, [], {}),
    "random": rnd_size(True, 0), "random_sample": rnd_size(True, 0), "uniform": rnd_uniform,
    "standard_normal": rnd_size(False, 0), "normal": rnd_size(False, 2), "randint": rnd_randint,
    "seed": lambda I, a, kw: None,
}

METHODS = {
    "reshape": m_reshape, "transpose": m_transpose, "sum": m_sum, "mean": m_mean, "prod": m_prod, "var": m_var,
    "min": extremum("min"), "max": extremum("max"), "argmin": arg_extremum("argmin"), "argmax": arg_extremum("argmax"),
    "any": any_all(True), "all": any_all(False), "copy": np_copy, "__copy__": np_copy, "astype": m_astype, "ravel": np_ravel,
    "flatten": m_flatten, "squeeze": np_squeeze, "dot": lambda I, a, kw: dot(I, a[0], a[1]), "item": m_item,
    "tolist": m_tolist, "fill": m_fill, "cumsum": m_cumsum, "trace": np_trace, "diagonal": np_diagonal, "swapaxes": np_swapaxes,
    "conj": lambda I, a, kw: a[0], "repeat": np_repeat, "clip": np_clip,
    "__getitem__": lambda I, a, kw: I.getitem(a[0], a[1]),
}


# ------------------------------------------------------------------ further functions, argument checks

def with_out(f):
    """The out= argument of a function that does not handle it itself."""
    def g(I, a, kw):
        out = kw.get("out")
        if out is None:
            return f(I, a, {k: v for k, v in kw.items() if k != "out"})
        if isinstance(out, tuple) and len(out) == 1:
            out, = out
        if not isinstance(out, Arr):
            raise Unsupported("keyword out")
        v = f(I, a, {k: v for k, v in kw.items() if k != "out"})
        va = as_arr(I, v)
        if va.ndim != out.ndim or va.dtype != out.dtype or any(x != y for x, y in zip(va.shape, out.shape)):
            raise Unsupported("keyword out with another shape or type")
        I.setitem(out, Ellipsis, v)
        return out
    return g


def strict(f, names, need=None):
    """Keyword arguments by position; anything the model would ignore is not modelled."""
    def g(I, a, kw):
        a = list(a)
        kw = dict(kw)
        while len(a) < len(names) and names[len(a)] in kw:
            a.append(kw.pop(names[len(a)]))
        if kw:
            raise Unsupported("keyword " + ", ".join(kw) + " of a modelled function")
        if len(a) > len(names):
            raise Unsupported("too many positional arguments for a modelled function")
        if len(a) < (len(names) if need is None else need):
            raise PyRaise("TypeError", ("missing argument",))
        return f(I, a, {})
    return g


def no_extra(f, allowed):
    def g(I, a, kw):
        bad = set(kw) - set(allowed)
        if bad:
            raise Unsupported("keyword " + ", ".join(sorted(bad)) + " of a modelled function")
        return f(I, a, kw)
    return g


def np_full_like(I, a, kw):
    x, v, d = arg(a, kw, ["a", "fill_value", "dtype"], [_MISSING, _MISSING, None])
    x = as_arr(I, x)
    if not isnum(v) or is_inf(v):
        raise Unsupported("full_like")
    v = cast(I, v, d) if d is not None else (v if x.dtype == "f" or kind(v) == x.dtype else cast(I, v, DType(x.dtype)))
    k, v = x.dtype if d is None else dtype_kind(d), P(v)
    return new_arr(x.shape, lambda idx: v, k)


def np_reciprocal(I, a, kw):
    if dtype_of(as_arr(I, a[0])) != "f":
        raise Unsupported("reciprocal of integers")
    return NP["divide"](I, [1, *a], kw)


def np_copyto(I, a, kw):
    dst, src = arg(a, kw, ["dst", "src"], [_MISSING, _MISSING])
    if dtype_of(src) == "f" and dst.dtype != "f":
        raise PyRaise("TypeError", ("Cannot cast array data",))
    I.setitem(dst, Ellipsis, src)


def np_vecdot(I, a, kw):
    x, y, ax = arg(a, kw, ["x1", "x2", "axis"], [_MISSING, _MISSING, -1])
    x, y = as_arr(I, x), as_arr(I, y)
    if x.ndim == 0 or y.ndim == 0 or ax != -1:
        raise Unsupported("vecdot")
    same_dim(I, x.shape[-1], y.shape[-1], "vecdot: mismatch in its core dimension")
    return m_sum(I, [arith(I, "Mult", x, y)], {"axis": -1})


def np_take(I, a, kw):
    v, ix, ax = arg(a, kw, ["a", "indices", "axis"], [_MISSING, _MISSING, None])
    v = as_arr(I, v)
    if ax is None:
        v, ax = reshape(I, v, (-1,)), 0
    ax = axis_of(I, ax, v.ndim)
    r = I.getitem(v, tuple([slice(None)] * ax) + (ix,))
    return copy_arr(I, r) if isinstance(r, Arr) else r


def np_append(I, a, kw):
    x, y, ax = arg(a, kw, ["arr", "values", "axis"], [_MISSING, _MISSING, None])
    x, y = as_arr(I, x), as_arr(I, y)
    if ax is None:
        return concat(I, [reshape(I, x, (-1,)), reshape(I, y, (-1,))], 0)
    return concat(I, [x, y], ax)


def np_broadcast_arrays(I, a, kw):
    arrs = [as_arr(I, x) for x in a]
    sh = broadcast(I, [x.shape for x in arrs])[0]
    return tuple(np_broadcast_to(I, [x, tuple(num(d, "i") for d in sh)], {}) for x in arrs)


def np_dstack(I, a, kw):
    s = seq_arrays(I, a[0])
    if not isinstance(s, list):
        raise Unsupported("dstack")
    out = []
    for x in s:
        if x.ndim == 1:
            x = reshape(I, x, (1, -1, 1))
        elif x.ndim == 2:
            x = I.getitem(x, (slice(None), slice(None), None))
        elif x.ndim < 2:
            raise Unsupported("dstack")
        out.append(x)
    return concat(I, out, 2)


def np_roll(I, a, kw):
    v, k, ax = arg(a, kw, ["a", "shift", "axis"], [_MISSING, _MISSING, None])
    v = as_arr(I, v)
    if ax is None:
        if v.ndim != 1:
            raise Unsupported("roll")
        ax = 0
    ax = axis_of(I, ax, v.ndim)
    if kind(k) != "i":
        raise Unsupported("roll")
    rd, n, k = v.snapshot(), v.shape[ax], P(k)
    return new_arr(v.shape, lambda idx: rd(tuple(idx[:ax]) + (pmod(idx[ax] - k, n),) + tuple(idx[ax + 1:])), v.dtype)


def np_split(equal):
    def f(I, a, kw):
        v, n, ax = arg(a, kw, ["ary", "indices_or_sections", "axis"], [_MISSING, _MISSING, 0])
        v = as_arr(I, v)
        ax = axis_of(I, ax, v.ndim)
        L = v.shape[ax]
        pre = tuple([slice(None)] * ax)
        if isinstance(n, int) and not isinstance(n, bool) and 1 <= n <= 8:
            if not pmod(L, to_poly(n)).is_zero():
                if not equal:
                    raise Unsupported("array_split into unequal parts")
                if not I.branch(int_eq(pmod(L, to_poly(n)), 0)):
                    raise_value("array split does not result in an equal division")
            q = fdiv(L, to_poly(n))
            cuts = [(q * k, q * (k + 1)) for k in range(n)]
            return PList([I.getitem(v, pre + (slice(num(x, "i"), num(y, "i")),)) for x, y in cuts])
        if isinstance(n, (PList, tuple)):
            at = [None] + list(I.iter_concrete(n)) + [None]
            return PList([I.getitem(v, pre + (slice(x, y),)) for x, y in zip(at, at[1:])])
        raise Unsupported("split")
    return f


def np_diff(I, a, kw):
    v, n, ax = arg(a, kw, ["a", "n", "axis"], [_MISSING, 1, -1])
    v = as_arr(I, v)
    if n != 1 or v.ndim == 0 or v.dtype == "b":
        raise Unsupported("diff")
    pre = tuple([slice(None)] * axis_of(I, ax, v.ndim))
    return arith(I, "Sub", I.getitem(v, pre + (slice(1, None),)), I.getitem(v, pre + (slice(None, -1),)))


def np_cumprod(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])
    v = as_arr(I, v)
    if ax is None:
        v, ax = reshape(I, v, (-1,)), 0
    ax = axis_of(I, ax, v.ndim)
    rd = v.snapshot()

    def elem(idx):
        t, nm = index_var("s", idx[ax] + 1)
        return mk_bind("prod", [(nm, idx[ax] + 1)], [rd(tuple(idx[:ax]) + (t,) + tuple(idx[ax + 1:]))], "real")
    return new_arr(v.shape, elem, "i" if v.dtype == "b" else v.dtype)


def np_std(I, a, kw):
    return np_sqrt(I, [m_var(I, a, kw)], {})


def np_ptp(I, a, kw):
    v, ax = arg(a, kw, ["a", "axis"], [_MISSING, None])
    return scalarize_(arith(I, "Sub", extremum("max")(I, [v], {"axis": ax}), extremum("min")(I, [v], {"axis": ax})))


def np_average(I, a, kw):
    v, ax, w = arg(a, kw, ["a", "axis", "weights"], [_MISSING, None, None])
    if w is None:
        return m_mean(I, [v], {"axis": ax})
    v, w = as_arr(I, v), as_arr(I, w)
    if v.ndim == w.ndim and all(x == y for x, y in zip(v.shape, w.shape)):
        ww = w
    elif w.ndim == 1 and isinstance(ax, int):
        k = axis_of(I, ax, v.ndim)
        same_dim(I, w.shape[0], v.shape[k], "Length of weights not compatible with specified axis.")
        ww = reshape(I, w, tuple([1] * k + [-1] + [1] * (v.ndim - k - 1)))
    else:
        raise Unsupported("average with these weights")
    tot = m_sum(I, [w if ww is not w else ww], {"axis": ax if ww is w else None})
    return scalarize_(arith(I, "Div", m_sum(I, [arith(I, "Mult", v, ww)], {"axis": ax}), tot))


def np_delete(I, a, kw):
    v, k, ax = arg(a, kw, ["arr", "obj", "axis"], [_MISSING, _MISSING, None])
    v = as_arr(I, v)
    if ax is None:
        v, ax = reshape(I, v, (-1,)), 0
    ax = axis_of(I, ax, v.ndim)
    if kind(k) != "i" or not isnum(k):
        raise Unsupported("delete")
    n, k = v.shape[ax], P(k)
    if not prove_ge(k):
        if not I.branch(ind("ge", k)):
            k = k + n
            if not prove_ge(k) and not I.branch(ind("ge", k)):
                raise PyRaise("IndexError", ("index out of bounds",))
    if not prove_ge(n - 1 - k) and not I.branch(ind("ge", n - 1 - k)):
        raise PyRaise("IndexError", ("index out of bounds",))
    rd = v.snapshot()

    def elem(idx):
        j = idx[ax]
        before = int_lt(j, k)
        at = lambda q: rd(tuple(idx[:ax]) + (q,) + tuple(idx[ax + 1:]))
        return before * at(j) + (ONE - before) * at(j + 1)
    return new_arr(v.shape[:ax] + (n - 1,) + v.shape[ax + 1:], elem, v.dtype)


def np_vector_norm(I, a, kw):
    x, ax, keep, o = arg(a, kw, ["x", "axis", "keepdims", "ord"], [_MISSING, None, False, 2])
    x = as_arr(I, x)
    if ax is None:
        if I.truth(keep):
            raise Unsupported("vector_norm")
        return np_norm(I, [reshape(I, x, (-1,)), o], {})
    return np_norm(I, [x, o, ax, keep], {})


def np_matrix_norm(I, a, kw):
    x, keep, o = arg(a, kw, ["x", "keepdims", "ord"], [_MISSING, False, "fro"])
    x = as_arr(I, x)
    if x.ndim < 2:
        raise Unsupported("matrix_norm")
    return np_norm(I, [x, o, (-2, -1), keep], {})


def np_last_two(f):
    def g(I, a, kw):
        x = as_arr(I, a[0])
        if x.ndim != 2:
            raise Unsupported("stacked matrices")
        return f(I, [x], {})
    return g


def matrix_transpose(I, a, kw):
    x = as_arr(I, a[0])
    if x.ndim < 2:
        raise_value("Input array must be at least 2-dimensional")
    return np_swapaxes(I, [x, -1, -2], {})


def np_logical(op):
    def f(I, a, kw):
        b = [x if dtype_of(x) == "b" else compare(I, _NE, x, 0) for x in a[:2]]
        return scalarize_(elementwise(I, op, tuple(b), "b"))
    return f


def np_ediff1d(I, a, kw):
    return np_diff(I, [reshape(I, as_arr(I, a[0]), (-1,))], {})


def ufunc_reduce(red, default=0):
    """np.add.reduce and np.multiply.reduce reduce the first axis by default."""
    def f(I, a, kw):
        v, ax = arg(a, kw, ["array", "axis"], [_MISSING, default])
        return red(I, [v], {"axis": ax})
    return f


def ufunc_outer(t):
    def f(I, a, kw):
        x, y = as_arr(I, a[0]), as_arr(I, a[1])
        return arith(I, t, reshape(I, x, tuple(x.shape) + (ONE,) * y.ndim), y)
    return f


import ast as _ast          # noqa: E402
_NE = _ast.NotEq()

SIG = {
    "vstack": ["tup"], "hstack": ["tup"], "column_stack": ["tup"], "row_stack": ["tup"], "fill_diagonal": ["a", "val"],
    "swapaxes": ["a", "axis1", "axis2"], "broadcast_to": ["array", "shape"], "tile": ["A", "reps"], "outer": ["a", "b"],
    "inner": ["a", "b"], "kron": ["a", "b"], "trace": ["a"], "where": ["condition", "x", "y"], "isnan": ["x"], "isinf": ["x"], "isfinite": ["x"],
    "nan_to_num": ["x"], "array_equal": ["a1", "a2"], "shape": ["a"], "isscalar": ["element"], "ndim": ["a"],
    "vdot": ["a", "b"], "matmul": ["x1", "x2"], "dot": ["a", "b"], "logical_not": ["x"], "equal": ["x1", "x2"], "not_equal": ["x1", "x2"],
    "less": ["x1", "x2"], "less_equal": ["x1", "x2"], "greater": ["x1", "x2"], "greater_equal": ["x1", "x2"], "atleast_2d": ["ary"],
    "atleast_1d": ["ary"], "sqrt": ["x"], "issubdtype": ["arg1", "arg2"],
}
for _n, _s in SIG.items():
    NP[_n] = strict(NP[_n], _s, {"where": 3, "size": 1}.get(_n))
for _n in ("matmul", "dot", "outer", "sqrt", "logical_not", "equal", "not_equal", "less", "less_equal", "greater", "greater_equal", "vdot"):
    NP[_n] = with_out(NP[_n])
NP["arange"] = no_extra(NP["arange"], ())
NP["einsum"] = with_out(no_extra(NP["einsum"], ("optimize", "out")))
for _n in ("add", "subtract", "multiply", "divide", "true_divide", "power", "mod", "floor_divide", "logical_and", "logical_or"):
    NP[_n] = no_extra(NP[_n], ("out",))
NP["size"] = strict(NP["size"], ["a", "axis"], 1)
NP["copy"] = no_extra(NP["copy"], ("order",))
LINALG["inv"] = strict(LINALG["inv"], ["a"])
LINALG["solve"] = strict(LINALG["solve"], ["a", "b"])
LINALG["matrix_power"] = strict(LINALG["matrix_power"], ["a", "n"])
LINALG["multi_dot"] = with_out(strict(LINALG["multi_dot"], ["arrays"]))
for _t in (NP, METHODS):
    for _n in ("sum", "mean", "prod", "min", "max", "amin", "amax", "any", "all", "cumsum"):
        if _n in _t:
            _t[_n] = with_out(_t[_n])
NP.update({
    "full_like": np_full_like, "positive": ufunc(lambda x: x), "reciprocal": np_reciprocal,
    "fmax": NP["maximum"], "fmin": NP["minimum"], "permute_dims": np_transpose, "matrix_transpose": matrix_transpose, "concat": np_concatenate,
    "copyto": np_copyto, "vecdot": np_vecdot, "take": np_take, "append": np_append, "broadcast_arrays": np_broadcast_arrays, "dstack": np_dstack,
    "roll": np_roll, "split": np_split(True), "array_split": np_split(False), "diff": np_diff, "ediff1d": np_ediff1d, "cumprod": np_cumprod,
    "vsplit": lambda I, a, kw: np_split(True)(I, [a[0], a[1], 0], kw), "hsplit": lambda I, a, kw: np_split(True)(I, [a[0], a[1], 0 if as_arr(I, a[0]).ndim == 1 else 1], kw),
    "hypot": ufunc(lambda x, y: fn("sqrt", x * x + y * y), "f"),
    "std": np_std, "ptp": np_ptp, "average": np_average, "delete": np_delete, "nansum": NP["sum"], "nanmean": NP["mean"],
    "trunc": lambda I, a, kw: _trunc_f(I, a, kw), "logical_xor": np_logical(lambda x, y: x + y - x * y * 2),
})


def _trunc_f(I, a, kw):
    from .ops import trunc
    return ufunc(trunc, "f")(I, a, kw)


LINALG.update({
    "vector_norm": np_vector_norm, "matrix_norm": np_matrix_norm, "outer": NP["outer"], "trace": np_last_two(np_trace), "diagonal": np_last_two(np_diagonal),
    "matmul": NP["matmul"], "tensordot": NP["tensordot"], "vecdot": np_vecdot, "matrix_transpose": matrix_transpose,
})
METHODS.update({"std": np_std, "take": np_take, "ptp": np_ptp, "view": strict(lambda I, a, kw: I.getitem(a[0], Ellipsis), ["self"])})
METHODS["astype"] = strict(METHODS["astype"], ["self", "dtype"])
METHODS["dot"] = with_out(strict(METHODS["dot"], ["self", "b"]))
UFUNC_METHODS = {
    "add": {"reduce": ufunc_reduce(m_sum), "outer": ufunc_outer("Add")},
    "multiply": {"reduce": ufunc_reduce(m_prod), "outer": ufunc_outer("Mult")},
    "subtract": {"outer": ufunc_outer("Sub")},
    "maximum": {"reduce": ufunc_reduce(extremum("max"))}, "minimum": {"reduce": ufunc_reduce(extremum("min"))},
    "logical_and": {"reduce": ufunc_reduce(any_all(False))}, "logical_or": {"reduce": ufunc_reduce(any_all(True))},
}

# ------------------------------------------------------------------ modules

def _mod(name, table, extra=None):
    from .interp import PModule, Builtin
    m = PModule(name)
    for k, f in table.items():
        m.attrs[k] = Builtin(k, f)
    if extra:
        m.attrs.update(extra)
    return m


def external_module(I, name):
    from .interp import PModule, Builtin, PProp, ExcClass, PClass, OBJECT
    from . import builtins_
    if name == "numpy":
        m = _mod("numpy", NP)
        m.attrs["linalg"] = I.import_module("numpy.linalg")
        m.attrs["random"] = I.import_module("numpy.random")
        m.attrs.update(newaxis=None, inf=float("inf"), Inf=float("inf"), ndarray=builtins_.TYPES["ndarray"], pi=Num(app("pi", ()), "f"))
        for n in ("float64", "float32", "double", "single", "float16", "half"):
            m.attrs[n] = Builtin(n, lambda I, a, kw, n=n: cast(I, a[0], n if n in NARROW else DType("f")))
        for n in ("int64", "int32", "intp"):
            m.attrs[n] = Builtin(n, lambda I, a, kw: cast(I, a[0], DType("i")))
        m.attrs["bool_"] = Builtin("bool_", lambda I, a, kw: cast(I, a[0], DType("b")))
        m.attrs["errstate"] = Builtin("errstate", lambda I, a, kw: NullCM())

        def lazy(n):
            import numpy
            if n in ("asscalar", "float", "int", "bool", "product") or not hasattr(numpy, n):
                return None
            return Builtin(n, lambda I, a, kw: _unsup(f"numpy.{n}"))
        m.lazy = lazy
        m.attrs.pop("product", None)
        return m
    if name == "numpy.linalg":
        return _mod(name, LINALG, {"LinAlgError": ExcClass("LinAlgError")})
    if name == "numpy.random":
        return _mod(name, RANDOM)
    if name == "scipy":
        m = PModule("scipy")
        m.attrs["linalg"] = I.import_module("scipy.linalg")
        m.attrs["optimize"] = I.import_module("scipy.optimize")
        return m
    if name == "scipy.linalg":
        return _mod(name, SLA)
    if name == "scipy.optimize":
        return _mod(name, {"nnls": sp_nnls, "linear_sum_assignment": lambda I, a, kw: _unsup("linear_sum_assignment")})
    if name == "scipy.optimize.nnls":
        return _mod(name, {})
    if name == "h5py":
        from . import h5model
        return h5model.module(I)
    if name == "itertools":
        from . import itermod
        return itermod.module(I)
    if name == "copy":
        return _mod(name, {"deepcopy": lambda I, a, kw: deepcopy(I, a[0], {}), "copy": lambda I, a, kw: shallow(I, a[0])})
    if name == "math":
        return _mod(name, {
            "sqrt": np_sqrt, "fabs": NP["fabs"], "prod": m_prod, "ceil": lambda I, a, kw: ceil(I, a[0]),
            "floor": lambda I, a, kw: floor(I, a[0]),
            "isinf": lambda I, a, kw: is_inf(a[0]), "isnan": lambda I, a, kw: False, "isfinite": lambda I, a, kw: not is_inf(a[0]),
            "factorial": lambda I, a, kw: _fact(a[0]),
            "log": NP["log"], "exp": NP["exp"]}, {"inf": float("inf")})
    if name == "pathlib":
        from . import h5model
        return h5model.pathlib_module(I)
    if name == "abc":
        m = PModule("abc")
        m.attrs["ABC"] = "ABC"

        def abstract(I, a, kw):
            f = a[0]
            return AbstractMethod(f)
        m.attrs["abstractmethod"] = Builtin("abstractmethod", abstract)
        m.attrs["abstractclassmethod"] = Builtin("abstractclassmethod", abstract)
        m.attrs["abstractproperty"] = Builtin("abstractproperty", abstract)
        m.attrs["abstractstaticmethod"] = Builtin("abstractstaticmethod", abstract)
        m.attrs["ABCMeta"] = "ABCMeta"
        return m
    if name == "warnings":
        return _mod(name, {"warn": lambda I, a, kw: None, "catch_warnings": lambda I, a, kw: NullCM(),
                           "simplefilter": lambda I, a, kw: None, "filterwarnings": lambda I, a, kw: None},
                    {})
    if name == "functools":
        return _mod(name, {"reduce": builtins_.b_reduce, "wraps": lambda I, a, kw: Builtin("wraps", lambda I, b, k: b[0]),
                           "partial": builtins_.b_partial, "lru_cache": lambda I, a, kw: _unsup("lru_cache")})
    if name == "operator":
        return _mod(name, {"mul": binary("Mult"), "add": binary("Add"), "sub": binary("Sub"), "matmul": NP["matmul"],
                           "truediv": binary("Div"), "itemgetter": lambda I, a, kw: Builtin("itemgetter", lambda I, b, k: I.getitem(b[0], a[0])),
                           "attrgetter": lambda I, a, kw: Builtin("attrgetter", lambda I, b, k: I.getattr(b[0], a[0]))})
    if name in ("typing", "collections", "sys", "os", "time", "datetime", "logging", "collections.abc", "numbers", "os.path",
                "string", "re", "types", "contextlib", "enum", "dataclasses", "json", "inspect"):
        m = PModule(name)
        m.lazy = lambda n: Builtin(f"{name}.{n}", lambda I, a, kw: _unsup(f"{name}.{n}"))
        if name == "typing":
            m.lazy = lambda n: TypingThing()
        if name == "numbers":
            m.attrs["Number"] = builtins_.TYPES["Number"]
            m.attrs["Integral"] = builtins_.TYPES["int"]
            m.attrs["Real"] = builtins_.TYPES["Number"]
        if name == "contextlib":
            m.attrs["suppress"] = Builtin("suppress", lambda I, a, kw: _unsup("suppress"))
        if name == "os":
            m.attrs["path"] = I.import_module("os.path")
        return m
    top = name.split(".")[0]
    if top == "tenkit":
        raise PyRaise("ModuleNotFoundError", (name,))
    raise Unsupported(f"module {name}")


class TypingThing:
    def sym_getitem(self, I, ix):
        return self


def _fact(n):
    import math
    if isinstance(n, int):
        return math.factorial(n)
    raise Unsupported("symbolic factorial")


def ceil(I, x):
    if isinstance(x, (int, Fraction)):
        import math
        return math.ceil(x)
    if isinstance(x, Num) and x.k == "i":
        return x
    if isinstance(x, Num):
        q = _ratio(x.p)
        if q is not None:
            return num(-fdiv(-q[0], q[1]), "i")
    raise Unsupported("ceil of a real")


def floor(I, x):
    if isinstance(x, int):
        return x
    if isinstance(x, Num) and x.k == "i":
        return x
    if isinstance(x, Num):
        q = _ratio(x.p)
        if q is not None:
            return num(fdiv(q[0], q[1]), "i")
    raise Unsupported("floor of a real")


def _ratio(p):
    """p = a/b with integer a and integer constant b > 0 (or an inv atom of an integer term)."""
    den = 1
    from math import lcm
    invs = set()
    for m, c in p.t.items():
        den = lcm(den, Fraction(c).denominator)
        for a, e in m:
            if a.kind == "inv":
                invs.add(a)
    if not invs:
        q = p * den
        return (q, to_poly(den)) if q.sort_is_int() else None
    if len(invs) == 1:
        a = next(iter(invs))
        d = a.data[0]
        q = p * d * den
        if d.sort_is_int() and q.sort_is_int() and prove_ge(d - 1):
            return q, d * den
    return None


class NullCM:
    def sym_enter(self, I):
        return None

    def sym_exit(self, I, e):
        return None


class AbstractMethod:
    abstract = True

    def __init__(self, f):
        self.f = f


def deepcopy(I, v, memo):
    if isinstance(v, Arr):
        return copy_arr(I, v)
    if isinstance(v, PList):
        if id(v) in memo:
            return memo[id(v)]
        if v.items is not None:
            r = PList([])
            memo[id(v)] = r
            r.items = [deepcopy(I, x, memo) for x in v.items]
            return r
        g = v.getf
        return PList(None, v.n, lambda j: deepcopy(I, g(j), {}))
    if isinstance(v, SymTuple):
        g = v.getf
        return SymTuple(v.n, lambda j: deepcopy(I, g(j), {}))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, PDict):
        return PDict({k: deepcopy(I, x, memo) for k, x in v.d.items()})
    if isinstance(v, PSet):
        return PSet(v.s)
    if isinstance(v, PObj):
        if id(v) in memo:
            return memo[id(v)]
        o = PObj(v.cls)
        memo[id(v)] = o
        for k, x in v.attrs.items():
            o.attrs[k] = deepcopy(I, x, memo)
        return o
    return v


def shallow(I, v):
    if isinstance(v, Arr):
        return copy_arr(I, v)
    if isinstance(v, PList):
        return PList(None if v.items is None else list(v.items), v.n, v.getf)
    if isinstance(v, PDict):
        return PDict(dict(v.d))
    if isinstance(v, PObj):
        return PObj(v.cls, dict(v.attrs))
    return v
