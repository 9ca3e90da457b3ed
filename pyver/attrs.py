"""Attribute access and indexing."""
from fractions import Fraction
from . import alg
from .alg import Poly, to_poly, ONE, ZERO, ind, int_eq, int_ge, int_lt, fn, inv, subst
from .vals import *
from .vals import _MISSING, _rag, RAG
from .ops import Masked, as_arr, store, generic_idx, elementwise, same_mask


def getattr_(I, o, n):
    from .interp import (PModule, PClass, PFunc, Bound, Builtin, PProp, PClassMethod, PStatic, Super, SymSeq, ExcClass)
    if isinstance(o, PObj):
        v = o.cls.lookup(n)
        if isinstance(v, PProp):
            return I.call(Bound(v.fget, o), [], {})
        if n in o.attrs:
            x = o.attrs[n]
            from .interp import Poison
            if isinstance(x, Poison):
                raise Unsupported(f"read of attribute {n}: {x.why}")
            return x
        if v is not _MISSING:
            return bind(I, v, o, o.cls)
        if n == "__class__":
            return o.cls
        if n == "__dict__":
            return PDict(dict(o.attrs))
        g = o.cls.lookup("__getattr__")
        if g is not _MISSING:
            return I.call(Bound(g, o), [n], {})
        raise PyRaise("AttributeError", (f"'{o.cls.name}' object has no attribute '{n}'",))
    if isinstance(o, Arr):
        return arr_attr(I, o, n)
    if isinstance(o, PModule):
        try:
            return o.get(n)
        except KeyError:
            full = o.name + "." + n
            if I.repo.path_of(full) is not None:
                m = I.import_module(full)
                o.attrs[n] = m
                return m
            if I.repo.path_of(o.name) is not None or o.name == "tenkit" or getattr(o, "strict", False):
                raise PyRaise("AttributeError", (f"module '{o.name}' has no attribute '{n}'",))
            raise Unsupported(f"{o.name}.{n}")
    if isinstance(o, PClass):
        if n == "__name__" or n == "__qualname__":
            return o.name
        if n == "__mro__":
            return tuple(o.mro)
        v = o.lookup(n)
        if v is _MISSING:
            raise PyRaise("AttributeError", (f"type object '{o.name}' has no attribute '{n}'",))
        if isinstance(v, PClassMethod):
            return Bound(v.f, o)
        if isinstance(v, PStatic):
            return v.f
        return v
    if isinstance(o, Super):
        cls = o.obj.cls if isinstance(o.obj, PObj) else o.obj
        mro = cls.mro
        k = mro.index(o.cls)
        for c in mro[k + 1:]:
            if n in c.attrs:
                v = c.attrs[n]
                if isinstance(v, PProp):
                    return I.call(Bound(v.fget, o.obj), [], {})
                if isinstance(o.obj, PClass):
                    return bind_cls(I, v, o.obj)
                return bind(I, v, o.obj, cls)
        if n == "__init__":
            return Builtin("object.__init__", lambda I, a, k: None)
        raise PyRaise("AttributeError", (f"'super' object has no attribute '{n}'",))
    if isinstance(o, (PFunc, Builtin)):
        if n == "__name__":
            return o.name
        if isinstance(o, PFunc) and n in o.attrs:
            return o.attrs[n]
        if n == "__doc__":
            return None
        if isinstance(o, Builtin):
            from . import npmod
            m = npmod.UFUNC_METHODS.get(o.name, {}).get(n) if o.f is npmod.NP.get(o.name) else None
            if m is None:
                raise Unsupported(f"attribute {n} of {o.name}")
            return Builtin(f"{o.name}.{n}", m)
        raise PyRaise("AttributeError", (n,))
    if isinstance(o, Bound):
        if n == "__self__":
            return o.obj
        return getattr_(I, o.f, n)
    if isinstance(o, (Num, int, float, bool, Fraction)):
        return num_attr(I, o, n)
    if isinstance(o, PList):
        m = LIST.get(n)
        if m is not None:
            return Builtin("list." + n, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, (tuple, SymTuple)):
        if n in ("index", "count"):
            m = LIST[n]
            return Builtin("tuple." + n, lambda I, a, k: m(I, PList(list(o)), *a, **k))
    if isinstance(o, PDict):
        m = DICT.get(n)
        if m is not None:
            return Builtin("dict." + n, lambda I, a, k: m(I, o, *a, **k))
    if isinstance(o, PSet):
        if n == "add":
            def add(I, a, k):
                if not any(x == a[0] for x in o.s):
                    o.s.append(a[0])
            return Builtin("set.add", add)
    if isinstance(o, (str, SymStr)):
        return str_attr(I, o, n)
    if isinstance(o, slice):
        return {"start": o.start, "stop": o.stop, "step": o.step}[n]
    if isinstance(o, Masked):
        return masked_attr(I, o, n)
    if isinstance(o, DType):
        if n == "kind":
            return o.k
        raise Unsupported("dtype." + n)
    if isinstance(o, PyRaise):
        if n == "args":
            return tuple(o.eargs)
    if hasattr(o, "sym_getattr"):
        return o.sym_getattr(I, n)
    if o is None:
        raise PyRaise("AttributeError", (f"'NoneType' object has no attribute '{n}'",))
    if isinstance(o, ExcClass) and n == "__name__":
        return o.name
    if isinstance(o, PProp) and n in ("setter", "getter"):
        return Builtin(n, lambda I, a, kw: PProp(o.fget if n == "setter" else a[0], a[0] if n == "setter" else o.fset))
    if isinstance(o, (PList, tuple, SymTuple, PDict, SymSeq, PProp)):
        raise PyRaise("AttributeError", (f"'{type(o).__name__}' object has no attribute '{n}'",))
    raise Unsupported(f"attribute {n} of {type(o).__name__}")


def bind(I, v, o, cls):
    from .interp import PFunc, Bound, PClassMethod, PStatic, Builtin
    if getattr(v, "abstract", False):
        v = v.f
        if isinstance(v, str):
            raise Unsupported("abstract attribute")
        return bind(I, v, o, cls)
    if isinstance(v, (PFunc, Builtin)):
        return Bound(v, o)
    if isinstance(v, PClassMethod):
        return Bound(v.f, cls)
    if isinstance(v, PStatic):
        return v.f
    return v


def bind_cls(I, v, cls):
    from .interp import PClassMethod, PStatic, Bound
    if isinstance(v, PClassMethod):
        return Bound(v.f, cls)
    if isinstance(v, PStatic):
        return v.f
    return v


# ------------------------------------------------------------------ numbers

def num_attr(I, o, n):
    from .interp import Builtin
    k = kind(o)
    if n == "shape":
        return ()
    if n in ("T", "real"):
        return o
    if n == "ndim":
        return 0
    if n == "size":
        return 1
    if n == "dtype":
        return DType(k)
    if n in ("item", "copy", "sum", "min", "max", "mean", "prod", "squeeze", "conj", "tolist", "ravel", "flatten"):
        if n in ("ravel", "flatten"):
            return Builtin(n, lambda I, a, kw: new_arr((ONE,), lambda idx: P(o), k))
        return Builtin(n, lambda I, a, kw: o)
    if n == "astype":
        from . import npmod
        return Builtin(n, lambda I, a, kw: npmod.cast(I, o, a[0]))
    if n == "is_integer":
        raise Unsupported("is_integer")
    if n == "reshape":
        return Builtin(n, lambda I, a, kw: getattr_(I, as_arr(I, o), "reshape").f(I, a, kw))
    if n in ("any", "all"):
        return Builtin(n, lambda I, a, kw: I.truth(o))
    raise PyRaise("AttributeError", (f"number has no attribute '{n}'",))


# ------------------------------------------------------------------ strings

def str_attr(I, o, n):
    from .interp import Builtin
    if n == "format":
        def fmt(I, a, k):
            import string
            if not isinstance(o, str):
                raise Unsupported("format of a symbolic string")
            parts = []
            auto = 0
            for lit, fld, spec, conv in string.Formatter().parse(o):
                if lit:
                    parts.append(lit)
                if fld is None:
                    continue
                if fld == "":
                    if auto >= len(a):
                        raise PyRaise("IndexError", ("Replacement index out of range",))
                    v = a[auto]
                    auto += 1
                elif fld.isdigit():
                    v = a[int(fld)]
                elif fld in k:
                    v = k[fld]
                else:
                    raise Unsupported("format field " + fld)
                parts.append(I.format_value(v, spec or ""))
            return I.join_str(parts)
        return Builtin("str.format", fmt)
    if isinstance(o, str):
        if n == "join":
            return Builtin("str.join", lambda I, a, k: I.join_str([x for i, y in enumerate(I.iter_concrete(a[0])) for x in ((o, y) if i else (y,))]))
        if hasattr(o, n):
            m = getattr(o, n)

            def call(I, a, k):
                if any(isinstance(x, (Num, SymStr)) for x in a):
                    raise Unsupported("string method with symbolic argument")
                r = m(*a, **k)
                if isinstance(r, list):
                    return PList(r)
                return r
            return Builtin("str." + n, call)
        raise PyRaise("AttributeError", (n,))
    if n == "startswith":
        def sw(I, a, k):
            p0 = o.parts[0]
            if isinstance(p0, str):
                if len(p0) >= len(a[0]):
                    return p0.startswith(a[0])
                if not a[0].startswith(p0):
                    return False
            raise Unsupported("startswith on a formatted string")
        return Builtin("startswith", sw)
    raise Unsupported(f"method {n} of a formatted string")


# ------------------------------------------------------------------ lists and dicts

def _l_append(I, l, v):
    l.save()
    if l.items is not None:
        l.items = l.items + [v]
    else:
        n, g = l.n, l.getf
        app_hook = getattr(l.getf, "on_append", None)
        if app_hook is not None:
            r = app_hook(l, v)
            if r is not None:
                l.n, l.getf = r
                return
        r = I.concat_segs([(n, g), (ONE, lambda j: v)])
        l.n, l.getf = r.n, r.getf


def _l_extend(I, l, v):
    import ast
    from . import ops
    ops.iop(I, ast.Add(), l, v)


def _l_pop(I, l, k=-1):
    if l.items is None:
        raise Unsupported("pop from a symbolic-length list")
    if not isinstance(k, int):
        if isinstance(k, Num):
            raise Unsupported("pop at a symbolic index")
        raise PyRaise("TypeError", ("pop index",))
    if not -len(l.items) <= k < len(l.items):
        raise PyRaise("IndexError", ("pop index out of range",))
    l.save()
    items = list(l.items)
    v = items.pop(k)
    l.items = items
    return v


def _l_insert(I, l, k, v):
    if l.items is None or not isinstance(k, int):
        raise Unsupported("insert into a symbolic list")
    l.save()
    items = list(l.items)
    items.insert(k, v)
    l.items = items


def _l_copy(I, l):
    return PList(list(l.items)) if l.items is not None else PList(None, l.n, l.getf)


def _l_index(I, l, v, *a):
    if l.items is None:
        raise Unsupported("index in a symbolic list")
    from . import ops
    for i, x in enumerate(l.items):
        if I.truth(ops.equals(I, x, v)):
            return i
    raise PyRaise("ValueError", ("not in list",))


def _l_reverse(I, l):
    if l.items is None:
        n, g = l.n, l.getf
        l.save()
        l.getf = lambda j: g(n - 1 - j)
        return
    l.save()
    l.items = l.items[::-1]


def _l_remove(I, l, v):
    k = _l_index(I, l, v)
    _l_pop(I, l, k)


def _l_count(I, l, v):
    from . import ops
    return sum(1 for x in l.items if I.truth(ops.equals(I, x, v)))


def _l_clear(I, l):
    l.save()
    l.items = []
    l.n = l.getf = None


def _l_sort(I, l, key=None, reverse=False):
    from .builtins_ import b_sorted
    r = b_sorted(I, [l], {"key": key, "reverse": reverse})
    l.save()
    l.items = r.items


LIST = {"append": _l_append, "extend": _l_extend, "pop": _l_pop, "insert": _l_insert, "copy": _l_copy,
        "index": _l_index, "reverse": _l_reverse, "remove": _l_remove, "count": _l_count, "clear": _l_clear,
        "sort": _l_sort}


def _d_get(I, d, k, default=None):
    return d.d.get(I.hashable(k), default)


def _d_items(I, d):
    return PList([(k, v) for k, v in d.d.items()])


def _d_setdefault(I, d, k, v=None):
    k = I.hashable(k)
    if k not in d.d:
        d.set(k, v)
    return d.d[k]


def _d_pop(I, d, k, *default):
    k = I.hashable(k)
    if k not in d.d:
        if default:
            return default[0]
        raise PyRaise("KeyError", (k,))
    d.save()
    return d.d.pop(k)


def _d_update(I, d, o=None, **kw):
    d.save()
    if o is not None:
        if isinstance(o, PDict):
            d.d.update(o.d)
        else:
            for kv in I.iter_concrete(o):
                a, b = I.iter_concrete(kv)
                d.d[I.hashable(a)] = b
    d.d.update(kw)


DICT = {"get": _d_get, "items": _d_items, "keys": lambda I, d: PList(list(d.d.keys())),
        "values": lambda I, d: PList(list(d.d.values())), "setdefault": _d_setdefault, "pop": _d_pop,
        "update": _d_update, "copy": lambda I, d: PDict(dict(d.d))}


# ------------------------------------------------------------------ arrays

def arr_attr(I, o, n):
    from .interp import Builtin
    from . import npmod
    if n == "shape":
        return tuple(num(d, "i") for d in o.shape)
    if n == "ndim":
        return o.ndim
    if n == "size":
        r = ONE
        for d in o.shape:
            r = r * d
        return num(r, "i")
    if n == "dtype":
        return DType(o.dtype)
    if n == "T":
        return npmod.transpose(I, o, None)
    if n == "mT":
        return npmod.matrix_transpose(I, [o], {})
    if n == "real":
        return o
    if n == "flat":
        return npmod.reshape(I, o, (-1,))
    m = npmod.METHODS.get(n)
    if m is not None:
        return Builtin("ndarray." + n, lambda I, a, k: m(I, [o] + list(a), k))
    if n == "__len__":
        return Builtin("len", lambda I, a, k: num(o.shape[0], "i"))
    import numpy
    if hasattr(numpy.ndarray, n):
        raise Unsupported(f"ndarray.{n}")
    raise PyRaise("AttributeError", (f"'numpy.ndarray' object has no attribute '{n}'",))


def masked_attr(I, o, n):
    from .interp import Builtin
    from . import npmod
    if n in ("sum",):
        return Builtin(n, lambda I, a, k: npmod.masked_sum(I, o))
    if n == "size":
        return npmod.masked_len(I, o)
    if n == "shape":
        return (npmod.masked_len(I, o),)
    if n == "astype":
        return Builtin(n, lambda I, a, k: Masked(o.shape, o.mask, o.val, npmod.dtype_kind(a[0])))
    if n == "copy":
        return Builtin(n, lambda I, a, k: o)
    raise Unsupported(f"selection.{n}")


def norm_index(I, i, n):
    """Python index -> Poly in [0, n), or IndexError."""
    if isinstance(i, bool):
        raise Unsupported("boolean index")
    if isinstance(i, int) and i < 0:
        p = n + i
    elif isinstance(i, int):
        p = to_poly(i)
    else:
        p = i.p
        if p.const() is None or p.const() < 0:
            if not alg.prove_ge(p):
                if not I.branch(ind("ge", p)):
                    p = p + n
    if alg.prove_ge(p) and alg.prove_ge(n - 1 - p):
        return p
    if not I.branch(ind("ge", p)):
        raise PyRaise("IndexError", ("index out of bounds",))
    if not I.branch(int_lt(p, n)):
        raise PyRaise("IndexError", ("index out of bounds",))
    return p


def slice_bound(I, b, n, default):
    if b is None:
        return default
    if isinstance(b, Arr) and b.ndim == 0:
        b = num(b.at(()), b.dtype)
    if isinstance(b, Num) and b.k == "f":
        raise PyRaise("TypeError", ("slice indices must be integers",))
    p = P(b)
    if alg.prove_ge(p) or I.branch(ind("ge", p)):
        if alg.prove_ge(n - p) or I.branch(ind("ge", n - p)):
            return p
        return n
    if alg.prove_ge(p + n) or I.branch(ind("ge", p + n)):
        return p + n
    return ZERO


def slice_range(I, s, n):
    """(start, length, step) of a slice on an axis of length n."""
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")
    if step == 0:
        raise PyRaise("ValueError", ("slice step cannot be zero",))
    if step > 0:
        st = slice_bound(I, s.start, n, ZERO)
        en = slice_bound(I, s.stop, n, n)
        ln = en - st
        if not (alg.prove_ge(ln) or I.branch(ind("ge", ln))):
            return st, ZERO, step
        if step != 1:
            ln = alg.fdiv(ln + (step - 1), step)
        return st, ln, step
    # negative step
    st = n - 1 if s.start is None else slice_bound(I, s.start, n, n - 1)
    if s.start is not None:
        if I.branch(ind("ge", st - n)):
            st = n - 1
    if s.stop is None:
        en = to_poly(-1)
    else:
        en = slice_bound(I, s.stop, n, ZERO)
    ln = st - en
    if not I.branch(ind("ge", ln)):
        return st, ZERO, step
    if step != -1:
        ln = alg.fdiv(ln + (-step - 1), -step)
    return st, ln, step


def expand_index(o_ndim, ix):
    if not isinstance(ix, tuple):
        ix = (ix,)
    used = sum(1 for x in ix if x is not None and x is not Ellipsis and not (isinstance(x, Arr) and x.dtype == "b" and x.ndim > 1))
    used += sum(x.ndim for x in ix if isinstance(x, Arr) and x.dtype == "b" and x.ndim > 1)
    out = []
    seen = False
    for x in ix:
        if x is Ellipsis:
            if seen:
                raise PyRaise("IndexError", ("an index can only have a single ellipsis",))
            seen = True
            out.extend([slice(None)] * (o_ndim - used))
        else:
            out.append(x)
    if used > o_ndim:
        raise PyRaise("IndexError", ("too many indices for array",))
    if not seen:
        out.extend([slice(None)] * (o_ndim - used))
    return out


def is_int_index(x):
    if isinstance(x, bool):
        return False
    if isinstance(x, int):
        return True
    if isinstance(x, Num) and x.k == "i":
        return True
    return False


def arr_getitem(I, o, ix):
    # normalise 0-d integer arrays
    if isinstance(ix, tuple):
        ix = tuple(_scal(x) for x in ix)
    else:
        ix = _scal(ix)
    if isinstance(ix, Num) and ix.k == "f" or isinstance(ix, tuple) and any(isinstance(x, Num) and x.k == "f" for x in ix):
        raise PyRaise("IndexError", ("only integers, slices, ... are valid indices",))
    if isinstance(ix, (str, SymStr)):
        raise PyRaise("IndexError", ("only integers, slices ... are valid indices",))
    if isinstance(ix, Arr) and ix.dtype == "b":
        return mask_select(I, o, ix)
    if isinstance(ix, PList) or isinstance(ix, Arr) or isinstance(ix, SymTuple):
        ix = (ix,)
    ixs = expand_index(o.ndim, ix)
    if all(x is None or is_int_index(x) or isinstance(x, slice) for x in ixs):
        return basic_view(I, o, ixs)
    return advanced(I, o, ixs)


def _scal(x):
    if isinstance(x, Arr) and x.ndim == 0:
        return num(x.at(()), x.dtype)
    return x


def basic_view(I, o, ixs):
    # view axis plan
    plan = []           # per view-in axis: ('fix', p) | ('ax', newaxis, start, step)
    shape = []
    k = 0
    for x in ixs:
        if x is None:
            shape.append(ONE)
            continue
        n = o.shape[k]
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                plan.append(("ax", len(shape), ZERO, 1))
                shape.append(n)
            else:
                st, ln, step = slice_range(I, x, n)
                plan.append(("ax", len(shape), st, step))
                shape.append(ln)
        else:
            plan.append(("fix", norm_index(I, x, n)))
        k += 1
    # ragged leading axis: dimensions depend on the index of axis 0
    axes = []
    for a in o.axes:
        if a[0] == "fix":
            axes.append(a)
            continue
        _, va, st, step = a
        p = plan[va]
        if p[0] == "fix":
            axes.append(("fix", st + p[1] * step if step != 1 else st + p[1]))
        else:
            axes.append(("ax", p[1], st + p[2] * step if step != 1 else st + p[2], step * p[3]))
    if any(RAG in d.fv for d in shape):
        f0 = plan[0]
        if f0[0] != "fix":
            if ixs and isinstance(ixs[0], slice) and shape and all(True for _ in ()):
                raise Unsupported("slice of a ragged array")
        else:
            shape = [subst(d, {RAG: f0[1]}) for d in shape]
    r = Arr(o.buf, axes, shape, o.ro, o.dep)
    if not shape:
        return num(r.at(()), o.dtype)
    return r


def index_array(I, x):
    """Index sequence -> (shape, idx -> Poly)."""
    if isinstance(x, (tuple, PList, SymTuple)):
        from .interp import SymSeq
        s = I.as_seq(x)
        if isinstance(s, SymSeq):
            return (s.n,), (lambda idx: P(s.getf(idx[0])))
        if all(is_int_index(y) for y in s):
            ps = [P(y) for y in s]
            if len(ps) == 0:
                return (ZERO,), (lambda idx: ZERO)

            def at(idx):
                c = idx[0].const()
                if c is not None:
                    return ps[int(c)]
                r = ZERO
                for j, p in enumerate(ps):
                    r = r + int_eq(idx[0], j) * p
                return r
            return (to_poly(len(ps)),), at
        x = as_arr(I, x)
    if isinstance(x, range):
        return index_array(I, PList(list(x)))
    from .interp import SymSeq
    if isinstance(x, SymSeq):
        return (x.n,), (lambda idx: P(x.getf(idx[0])))
    if isinstance(x, Arr):
        if x.dtype == "b":
            raise Unsupported("boolean mask combined with other indices")
        if x.dtype == "f":
            raise PyRaise("IndexError", ("arrays used as indices must be of integer (or boolean) type",))
        return x.shape, x.snapshot()
    raise Unsupported(f"index of type {type(x).__name__}")


def advanced(I, o, ixs):
    adv = [k for k, x in enumerate(ixs) if not (x is None or isinstance(x, slice))]
    # integer scalars take part in advanced indexing as 0-d arrays
    specs = {}
    for k in adv:
        x = ixs[k]
        if is_int_index(x):
            specs[k] = ((), None, x)
        else:
            sh, at = index_array(I, x)
            specs[k] = (sh, at, None)
    from .ops import broadcast
    shapes = [specs[k][0] for k in adv]
    bshape, maps = broadcast(I, shapes)
    contiguous = all(b == a + 1 for a, b in zip(adv, adv[1:]))
    # input axis of each index entry
    inax = {}
    j = 0
    for k, x in enumerate(ixs):
        if x is not None:
            inax[k] = j
            j += 1
    oshape = []
    pos_b = None
    src = {}        # k -> for slices: ('s', outaxis, start, step)
    if not contiguous:
        pos_b = 0
        oshape.extend(bshape)
    for k, x in enumerate(ixs):
        if k in specs:
            if pos_b is None:
                pos_b = len(oshape)
                oshape.extend(bshape)
            continue
        if x is None:
            oshape.append(ONE)
            continue
        st, ln, step = slice_range(I, x, o.shape[inax[k]])
        src[k] = (len(oshape), st, step)
        oshape.append(ln)
    rd = o.snapshot()
    nb = len(bshape)
    ents = []
    for k, x in enumerate(ixs):
        if x is None:
            continue
        n = o.shape[inax[k]]
        if k in src:
            ents.append(("s",) + src[k])
        else:
            sh, at, sc = specs[k]
            if sc is not None:
                ents.append(("c", norm_index(I, sc, n)))
            else:
                m = maps[adv.index(k)]
                g = generic_idx(sh)
                v = at(g)
                neg = not alg.prove_ge(v)
                if neg and v.const() is None:
                    # constant entries handled pointwise
                    pass
                I.defined(ind("ge", v + n) * int_lt(v, n), "index array within bounds")
                ents.append(("a", at, m, n, neg))
    if any(RAG in d.fv for d in o.shape):
        raise Unsupported("advanced indexing of a ragged array")

    def elem(idx):
        bi = idx[pos_b:pos_b + nb]
        out = []
        for e in ents:
            if e[0] == "s":
                _, oa, st, step = e
                out.append(st + idx[oa] * step)
            elif e[0] == "c":
                out.append(e[1])
            else:
                _, at, m, n, neg = e
                v = at(m(bi))
                c = v.const()
                if c is not None:
                    v = v if c >= 0 else v + n
                elif neg and not alg.prove_ge(v):
                    v = v + n * (ONE - ind("ge", v))
                out.append(v)
        return rd(tuple(out))
    return new_arr(oshape, elem, o.dtype)


def mask_select(I, o, m):
    if m.ndim == o.ndim:
        for a, b in zip(o.shape, m.shape):
            if a != b and not I.branch(int_eq(a, b)):
                raise PyRaise("IndexError", ("boolean index did not match indexed array",))
        return Masked(o.shape, m.snapshot(), o.snapshot(), o.dtype)
    raise Unsupported("boolean mask on a leading axis")


def getitem(I, o, ix):
    from .interp import PModule, PClass, Bound, SymSeq
    if isinstance(o, Arr):
        return arr_getitem(I, o, ix)
    if isinstance(o, PList) or isinstance(o, (tuple, SymTuple)):
        return list_getitem(I, o, ix)
    if isinstance(o, PDict):
        k = I.hashable(ix)
        if k not in o.d:
            raise PyRaise("KeyError", (k,))
        return o.d[k]
    if isinstance(o, str):
        if isinstance(ix, int) or isinstance(ix, slice):
            return o[ix]
    if isinstance(o, PObj):
        m = o.cls.lookup("__getitem__")
        if m is _MISSING:
            raise PyRaise("TypeError", (f"'{o.cls.name}' object is not subscriptable",))
        return I.call(Bound(m, o), [ix], {})
    if isinstance(o, Masked):
        raise Unsupported("indexing a masked selection")
    if hasattr(o, "sym_getitem"):
        return o.sym_getitem(I, ix)
    if isinstance(o, range):
        if isinstance(ix, int):
            return o[ix]
        return list_getitem(I, tuple(o), ix)
    if isinstance(o, SymSeq):
        return list_getitem(I, PList(None, o.n, o.getf), ix)
    if isinstance(o, PClass):
        return o
    if isinstance(o, Num) or isnum(o):
        if ix == () or ix is Ellipsis:
            return o
        raise PyRaise("IndexError", ("invalid index to scalar variable.",))
    if type(o).__name__ == "Builtin":
        raise Unsupported(f"subscript of {o.name}")
    raise PyRaise("TypeError", (f"'{type(o).__name__}' object is not subscriptable",))


def list_getitem(I, o, ix):
    if isinstance(ix, Arr) and ix.ndim == 0:
        ix = num(ix.at(()), ix.dtype)
    tup = isinstance(o, (tuple, SymTuple))
    if isinstance(o, tuple):
        items, n, g = list(o), len(o), None
    elif isinstance(o, SymTuple):
        items, n, g = None, o.n, o.getf
    else:
        items, n, g = o.items, o.n, o.getf
    if isinstance(ix, bool):
        ix = int(ix)
    if items is not None:
        if isinstance(ix, int):
            if not -len(items) <= ix < len(items):
                raise PyRaise("IndexError", ("list index out of range",))
            return items[ix]
        if isinstance(ix, slice):
            lo, hi, st = ix.start, ix.stop, ix.step
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                r = items[ix]
                return tuple(r) if tup else PList(r)
            raise Unsupported("symbolic slice of a concrete list")
        if isinstance(ix, Num) and ix.k == "i":
            # case split over the positions
            for k in range(len(items)):
                if I.branch(int_eq(ix.p, k)):
                    return items[k]
            for k in range(1, len(items) + 1):
                if I.branch(int_eq(ix.p, -k)):
                    return items[-k]
            raise PyRaise("IndexError", ("list index out of range",))
        if isinstance(ix, tuple) or isinstance(ix, (Num, str, PList, Arr)):
            raise PyRaise("TypeError", ("list indices must be integers or slices",))
        raise PyRaise("TypeError", ("list indices must be integers or slices",))
    if is_int_index(ix):
        return g(norm_index(I, ix, n))
    if isinstance(ix, slice):
        st, ln, step = slice_range(I, ix, n)
        h = lambda j: g(st + j * step)
        return SymTuple(ln, h) if tup else PList(None, ln, h)
    raise PyRaise("TypeError", ("list indices must be integers or slices",))


def setitem(I, o, ix, v):
    from .interp import Bound
    if isinstance(o, Arr):
        return arr_setitem(I, o, ix, v)
    if isinstance(o, PList):
        if isinstance(ix, Arr) and ix.ndim == 0:
            ix = num(ix.at(()), ix.dtype)
        if o.items is not None:
            if isinstance(ix, int):
                if not -len(o.items) <= ix < len(o.items):
                    raise PyRaise("IndexError", ("list assignment index out of range",))
                o.save()
                items = list(o.items)
                items[ix] = v
                o.items = items
                return
            if isinstance(ix, slice) and all(x is None or isinstance(x, int) for x in (ix.start, ix.stop, ix.step)):
                s = I.iter_concrete(v)
                o.save()
                items = list(o.items)
                items[ix] = s
                o.items = items
                return
            if isinstance(ix, Num):
                for k in range(len(o.items)):
                    if I.branch(int_eq(ix.p, k)):
                        return setitem(I, o, k, v)
                raise PyRaise("IndexError", ("list assignment index out of range",))
            raise Unsupported("list assignment")
        if is_int_index(ix):
            p = norm_index(I, ix, o.n)
            g = o.getf
            o.save()
            hook = getattr(g, "on_set", None)
            if hook is not None:
                r = hook(o, p, v)
                if r is not None:
                    o.getf = r
                    return
            o.getf = list_overlay(I, g, p, v)
            return
        raise Unsupported("assignment to a symbolic list")
    if isinstance(o, PDict):
        o.set(I.hashable(ix), v)
        return
    if isinstance(o, PObj):
        m = o.cls.lookup("__setitem__")
        if m is _MISSING:
            raise PyRaise("TypeError", ("object does not support item assignment",))
        I.call(Bound(m, o), [ix, v], {})
        return
    if isinstance(o, tuple) or isinstance(o, SymTuple):
        raise PyRaise("TypeError", ("'tuple' object does not support item assignment",))
    if hasattr(o, "sym_setitem"):
        return o.sym_setitem(I, ix, v)
    if o is None:
        raise PyRaise("TypeError", ("'NoneType' object does not support item assignment",))
    if isinstance(o, (Num, int, float)):
        raise PyRaise("TypeError", ("number does not support item assignment",))
    raise Unsupported(f"item assignment on {type(o).__name__}")


def list_overlay(I, g, p, v):
    def get(j):
        d = j - p
        if d.is_zero():
            return v
        c = int_eq(j, p)
        if c.const() == 1:
            return v
        if c.const() == 0:
            return g(j)
        if I.branch(c):
            return v
        return g(j)
    get.base = g
    get.at = p
    get.val = v
    return get


def partial_mask_assign(I, o, mk, v):
    if mk is None:
        raise Unsupported("boolean mask on a leading axis")
    if isinstance(v, Arr) and v.ndim == 0:
        v = num(v.at(()), v.dtype)
    if not isnum(v) or is_inf(v):
        raise Unsupported("assignment of an array to a partial selection")
    p = P(v)
    if o.dtype != "f" and kind(v) != o.dtype:
        raise Unsupported("assignment with conversion to a partial selection")
    old = o.snapshot()
    o.write(lambda idx: mk(idx) * p + (ONE - mk(idx)) * old(idx))


def arr_setitem(I, o, ix, v):
    if isinstance(ix, tuple):
        ix = tuple(_scal(x) for x in ix)
    else:
        ix = _scal(ix)
    if isinstance(ix, Arr) and ix.dtype == "b":
        return mask_assign(I, o, ix, v)
    if isinstance(ix, tuple) and any(isinstance(x, Arr) and x.dtype == "b" for x in ix):
        return partial_mask_assign(I, o, partial_mask(I, o, ix), v)
    if isinstance(ix, (PList, Arr, SymTuple)):
        ix = (ix,)
    ixs = expand_index(o.ndim, ix)
    if all(x is None or is_int_index(x) or isinstance(x, slice) for x in ixs):
        w = basic_view_w(I, o, ixs)
        store(I, w, v)
        return
    # one advanced index: concrete integers are written one by one
    adv = [k for k, x in enumerate(ixs) if not (x is None or is_int_index(x) or isinstance(x, slice))]
    if len(adv) == 1 and isinstance(ixs[adv[0]], (tuple, PList)):
        seq = I.iter_concrete(ixs[adv[0]])
        if all(isinstance(y, int) for y in seq) and all(x is not None for x in ixs):
            va = v if isnum(v) else as_arr(I, v)
            for t, y in enumerate(seq):
                nix = list(ixs)
                nix[adv[0]] = y
                w = basic_view_w(I, o, nix)
                if isnum(va) or va.ndim == 0:
                    store(I, w, va)
                else:
                    ax = adv[0] - (o.ndim - va.ndim)
                    sub = [slice(None)] * va.ndim
                    if ax >= 0:
                        sub[ax] = t if va.shape[ax].const() != 1 else 0
                    store(I, w, arr_getitem(I, va, tuple(sub)))
            return
    if len(adv) >= 1 and all(x is not None for x in ixs):
        return scatter(I, o, ixs, adv, v)
    raise Unsupported("assignment through an index array")


def scatter(I, o, ixs, adv, v):
    """x[..., idx, ...] = value where the index map is the identity range (e.g. arange)."""
    specs = []
    for k in adv:
        sh, at = index_array(I, ixs[k])
        if len(sh) != 1:
            raise Unsupported("assignment through an index array")
        specs.append((k, sh[0], at))
    g = alg.index_var("g", specs[0][1])[0]
    if not all(at((g,)) == g for _, _, at in specs):
        raise Unsupported("assignment through an index array")
    if any(isinstance(x, slice) or is_int_index(x) for k, x in enumerate(ixs) if k not in adv):
        raise Unsupported("assignment through an index array")
    n = specs[0][1]
    va = as_arr(I, v)
    if va.ndim > 1:
        raise Unsupported("assignment through an index array")
    rd = va.snapshot()
    one = va.ndim == 0 or va.shape[0].const() == 1
    old = o.snapshot()

    def val(idx):
        c = ONE
        x0 = idx[adv[0]]
        for k in adv[1:]:
            c = c * int_eq(idx[k], x0)
        c = c * int_lt(x0, n)
        return c * rd(() if va.ndim == 0 else (ZERO,) if one else (x0,)) + (ONE - c) * old(idx)
    o.write(val)


def basic_view_w(I, o, ixs):
    """Like basic_view but never collapses to a number."""
    plan, shape = [], []
    k = 0
    for x in ixs:
        if x is None:
            shape.append(ONE)
            continue
        n = o.shape[k]
        if isinstance(x, slice):
            if x.start is None and x.stop is None and x.step is None:
                plan.append(("ax", len(shape), ZERO, 1))
                shape.append(n)
            else:
                st, ln, step = slice_range(I, x, n)
                plan.append(("ax", len(shape), st, step))
                shape.append(ln)
        else:
            plan.append(("fix", norm_index(I, x, n)))
        k += 1
    axes = []
    for a in o.axes:
        if a[0] == "fix":
            axes.append(a)
            continue
        _, va, st, step = a
        p = plan[va]
        if p[0] == "fix":
            axes.append(("fix", st + p[1] * step))
        else:
            axes.append(("ax", p[1], st + p[2] * step, step * p[3]))
    if any(RAG in d.fv for d in shape) and plan and plan[0][0] == "fix":
        shape = [subst(d, {RAG: plan[0][1]}) for d in shape]
    return Arr(o.buf, axes, shape, o.ro, o.dep)


def partial_mask(I, o, ix):
    """The mask over all of o selected by a mask of the leading axes or one mask among full slices, else None."""
    if isinstance(ix, Arr) and ix.dtype == "b" and 0 < ix.ndim < o.ndim:
        m, k0 = ix, 0
    elif isinstance(ix, tuple):
        ms = [x for x in ix if isinstance(x, Arr) and x.dtype == "b"]
        if len(ms) != 1 or ms[0].ndim != 1 or any(not (x is ms[0] or x is Ellipsis or isinstance(x, slice)) for x in ix):
            return None
        if sum(x is Ellipsis for x in ix) > 1 or len([x for x in ix if x is not Ellipsis]) > o.ndim:
            return None
        if any(isinstance(x, slice) and not (x.start is None and x.stop is None and x.step is None) for x in ix):
            return None
        m = ms[0]
        at = [k for k, x in enumerate(ix) if x is m][0]
        dots = [k for k, x in enumerate(ix) if x is Ellipsis]
        k0 = at if not dots or dots[0] > at else o.ndim - (len(ix) - at)
    else:
        return None
    for a, b in zip(o.shape[k0:], m.shape):
        if a != b and not I.branch(int_eq(a, b)):
            raise PyRaise("IndexError", ("boolean index did not match indexed array",))
    rd, nd = m.snapshot(), m.ndim
    return lambda idx: rd(tuple(idx[k0:k0 + nd]))


def partial_mask_aug(I, op, o, mk, v):
    """o[mask] op= scalar, where mk is the mask over all of o."""
    from . import ops
    if not (isnum(v) or isinstance(v, Arr) and v.ndim == 0):
        raise Unsupported("in-place operation between a partial selection and an array")
    old = o.snapshot()
    tmp = new_arr(o.shape, old, o.dtype)
    new = ops.iop(I, op, tmp, v).snapshot()
    o.write(lambda idx: mk(idx) * new(idx) + (ONE - mk(idx)) * old(idx))


def mask_assign(I, o, m, v):
    if m.ndim != o.ndim:
        mk = partial_mask(I, o, m)
        return partial_mask_assign(I, o, mk, v)
    for a, b in zip(o.shape, m.shape):
        if a != b and not I.branch(int_eq(a, b)):
            raise PyRaise("IndexError", ("boolean index did not match indexed array",))
    mk = m.snapshot()
    old = o.snapshot()
    if isinstance(v, Masked):
        tmp = Masked(o.shape, mk, old, o.dtype)
        if not same_mask(tmp, v):
            raise Unsupported("assignment between selections with different masks")
        val = v.val
    elif isnum(v):
        p = P(v)
        val = lambda idx: p
    elif isinstance(v, Arr) and v.ndim == 0:
        p = v.at(())
        val = lambda idx: p
    else:
        raise Unsupported("assignment of an array to a masked selection")
    if o.dtype == "i" and not isnum(v):
        from .ops import trunc
        val0 = val
        val = lambda idx: trunc(val0(idx))

    def f(idx):
        c = mk(idx)
        return c * val(idx) + (ONE - c) * old(idx)
    o.write(f)
