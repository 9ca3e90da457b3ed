"""Python builtins on symbolic values."""
from fractions import Fraction
import ast
from . import alg
from .alg import to_poly, ONE, ZERO, ind, int_eq, int_ge, int_lt, fn, ssum, index_var
from .vals import *
from .vals import _MISSING
from .ops import is_arrlike, Masked, elementwise, compare, binop, equals


class PType:
    """A builtin type object: callable and usable in isinstance."""

    def __init__(self, name, test, make=None):
        self.name, self.test, self.make = name, test, make

    def __call__(self, I, a, kw):
        if self.make is None:
            raise Unsupported(f"{self.name}()")
        return self.make(I, a, kw)

    def sym_getattr(self, I, n):
        if n == "__name__":
            return self.name
        from .interp import Builtin, _MISSING
        if self.name == "dict" and n == "fromkeys":
            return Builtin(n, lambda I, a, kw: PDict({I.hashable(k): (a[1] if len(a) > 1 else None) for k in I.iter_concrete(a[0])}))
        if self.name == "object" and n in ("__init__", "__init_subclass__"):
            return Builtin(n, lambda I, a, kw: None)
        raise Unsupported(f"{self.name}.{n}")

    def __repr__(self):
        return f"<type {self.name}>"


def _is_int(v):
    return isinstance(v, int) or (isinstance(v, Num) and v.k in ("i", "b"))


def _is_float(v):
    return isinstance(v, (float, Fraction)) or (isinstance(v, Num) and v.k == "f")


def to_list(I, v):
    s = I.as_seq(v)
    if isinstance(s, list):
        return PList(s)
    return PList(None, s.n, s.getf)


def b_list(I, a, kw):
    return to_list(I, a[0]) if a else PList([])


def b_tuple(I, a, kw):
    if not a:
        return ()
    s = I.as_seq(a[0])
    if isinstance(s, list):
        return tuple(s)
    return SymTuple(s.n, s.getf)


def b_dict(I, a, kw):
    d = {}
    if a:
        if isinstance(a[0], PDict):
            d.update(a[0].d)
        else:
            for p in I.iter_concrete(a[0]):
                k, v = I.iter_concrete(p)
                d[I.hashable(k)] = v
    d.update(kw)
    return PDict(d)


def b_set(I, a, kw):
    out = []
    if a:
        s = I.iter_concrete(a[0])
        for x in s:
            if not any(I.truth(equals(I, x, y)) for y in out):
                out.append(x)
    return PSet(out)


def b_float(I, a, kw):
    v = a[0] if a else 0
    if isinstance(v, Arr) :
        from .npmod import m_item
        v = m_item(I, [v], {})
    if isinstance(v, float):
        return v
    if isinstance(v, str):
        if v.lower() in ("inf", "+inf", "infinity"):
            return float("inf")
        if v.lower() == "-inf":
            return float("-inf")
        raise Unsupported("float of a string")
    return Num(P(v), "f")


def b_int(I, a, kw):
    v = a[0] if a else 0
    if isinstance(v, Arr):
        from .npmod import m_item
        v = m_item(I, [v], {})
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            raise PyRaise("ValueError", ("invalid literal for int()",))
    if isinstance(v, SymStr):
        # int('00012') of a formatted integer
        if len(v.parts) == 1 and not isinstance(v.parts[0], str):
            return num(v.parts[0][0], "i")
        raise Unsupported("int of a symbolic string")
    if _is_int(v):
        return int(v) if isinstance(v, bool) else (v if isinstance(v, int) else num(v.p, "i"))
    if isinstance(v, Num):
        from .ops import trunc
        from .npmod import _ratio, floor
        q = _ratio(v.p)
        if q is not None and alg.prove_ge(q[0]):
            return num(alg.fdiv(*q), "i")
        return num(trunc(v.p), "i")
    if v is None:
        raise PyRaise("TypeError", ("int() argument must be a number",))
    raise Unsupported("int()")


def b_bool(I, a, kw):
    if not a:
        return False
    v = a[0]
    if isinstance(v, Num) and v.k == "b":
        return v
    return I.truth(v)


def b_str(I, a, kw):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, SymStr)):
        return v
    from .h5model import PathVal
    if isinstance(v, PathVal):
        return v.s
    return I.format_value(v)


def b_len(I, a, kw):
    v = a[0]
    from .interp import Bound, SymSeq
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PList):
        return v.length()
    if isinstance(v, (SymTuple, SymSeq)):
        return num(v.n, "i")
    if isinstance(v, Arr):
        if v.ndim == 0:
            raise PyRaise("TypeError", ("len() of unsized object",))
        return num(v.shape[0], "i")
    if isinstance(v, Masked):
        from .npmod import masked_len
        return masked_len(I, v)
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, PSet):
        return len(v.s)
    if isinstance(v, range):
        return len(v)
    if isinstance(v, PObj):
        m = v.cls.lookup("__len__")
        if m is not _MISSING:
            return I.call(Bound(m, v), [], {})
    if hasattr(v, "sym_len"):
        return v.sym_len(I)
    raise PyRaise("TypeError", (f"object of type '{type(v).__name__}' has no len()",))


def b_range(I, a, kw):
    from .interp import SymSeq
    for x in a:
        if not _is_int(x):
            if isinstance(x, Arr) and x.ndim == 0 and x.dtype == "i":
                continue
            raise PyRaise("TypeError", ("'float' object cannot be interpreted as an integer",))
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi = P(lo), P(hi)
    if not isinstance(st, int):
        raise Unsupported("symbolic range step")
    if st == 0:
        raise PyRaise("ValueError", ("range() arg 3 must not be zero",))
    n = hi - lo if st > 0 else lo - hi
    if not alg.prove_ge(n):
        if not I.branch(ind("ge", n)):
            n = ZERO
    if abs(st) != 1:
        n = alg.fdiv(n + (abs(st) - 1), abs(st))
    c = n.const()
    if c is not None:
        return PList([num(lo + k * st, "i") for k in range(int(c))])
    return SymSeq(n, lambda j: num(lo + j * st, "i"))


def b_enumerate(I, a, kw):
    from .interp import SymSeq
    s = I.as_seq(a[0])
    st = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(s, list):
        return PList([(num(P(st) + k, "i"), x) for k, x in enumerate(s)])
    return SymSeq(s.n, lambda j: (num(j + P(st), "i"), s.getf(j)))


def b_zip(I, a, kw):
    from .interp import SymSeq
    ss = [I.as_seq(x) for x in a]
    if not ss:
        return PList([])
    if all(isinstance(s, list) for s in ss):
        if kw.get("strict") and len(set(map(len, ss))) > 1:
            raise PyRaise("ValueError", ("zip() arguments have different lengths",))
        return PList([tuple(t) for t in zip(*ss)])
    ln = [to_poly(len(s)) if isinstance(s, list) else s.n for s in ss]
    n = ln[0]
    for m in ln[1:]:
        if m == n or alg.prove_ge(m - n):
            continue
        if alg.prove_ge(n - m):
            n = m
            continue
        if I.branch(ind("ge", m - n)):
            continue
        n = m
    c = n.const()
    g = [(lambda j, s=s: _pick(I, s, j)) if isinstance(s, list) else s.getf for s in ss]
    if c is not None:
        return PList([tuple(f(to_poly(k)) for f in g) for k in range(int(c))])
    return SymSeq(n, lambda j: tuple(f(j) for f in g))


def _pick(I, items, j):
    c = j.const()
    if c is not None:
        return items[int(c)]
    for k in range(len(items)):
        if I.branch(int_eq(j, k)):
            return items[k]
    raise Unsupported("index beyond a list")


def b_reversed(I, a, kw):
    from .interp import SymSeq
    s = I.as_seq(a[0])
    if isinstance(s, list):
        return PList(s[::-1])
    return SymSeq(s.n, lambda j: s.getf(s.n - 1 - j))


def b_sum(I, a, kw):
    s = I.as_seq(a[0])
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    if isinstance(s, list):
        r = start
        for x in s:
            r = binop(I, ast.Add(), r, x)
        return r
    v, n = index_var("s", s.n)
    x = s.getf(v)
    if isnum(x):
        k = join_kind(kind(x), kind(start) if kind(start) != "b" else "i")
        k = "i" if k == "b" else k
        return num(P(start) + ssum("s", s.n, lambda t: P(s.getf(t))), k)
    if isinstance(x, Arr):
        if any(n in d.fv for d in x.shape):
            raise Unsupported("sum of arrays of varying shape")
        r = new_arr(x.shape, lambda idx: ssum("s", s.n, lambda t: s.getf(t).at(idx)), "i" if x.dtype == "b" else x.dtype)
        if isinstance(start, int) and start == 0:
            return r
        return binop(I, ast.Add(), start, r)
    raise Unsupported("sum of objects")


def b_minmax(op):
    def f(I, a, kw):
        from . import npmod
        if len(a) == 1:
            s = I.as_seq(a[0])
        else:
            s = []
            for x in a:
                if type(x).__name__ == "_SymSplat":
                    # the smallest / largest element of the unpacked sequence (nothing if it is empty)
                    if not I.branch(ind("ge", x.s.n - 1)):
                        continue
                    arr = npmod._array_from(I, PList(None, x.s.n, x.s.getf))
                    x = npmod.extremum(op)(I, [arr], {})
                s.append(x)
        key = kw.get("key")
        if not isinstance(s, list):
            if key is not None:
                raise Unsupported("min/max with a key over a symbolic sequence")
            arr = npmod._array_from(I, PList(None, s.n, s.getf))
            return npmod.extremum(op)(I, [arr], {})
        if not s:
            if "default" in kw:
                return kw["default"]
            raise PyRaise("ValueError", (f"{op}() arg is an empty sequence",))
        if key is not None:
            best, bk = s[0], I.call(key, [s[0]], {})
            for x in s[1:]:
                k = I.call(key, [x], {})
                if I.truth(compare(I, ast.Lt() if op == "min" else ast.Gt(), k, bk)):
                    best, bk = x, k
            return best
        r = s[0]
        for x in s[1:]:
            r = minmax2(I, op, r, x)
        return r
    return f


def minmax2(I, op, x, y):
    if is_inf(x):
        return y if (x > 0) == (op == "min") else x
    if is_inf(y):
        return x if (y > 0) == (op == "min") else y
    if isinstance(x, tuple) or isinstance(y, tuple) or isinstance(x, PList):
        return y if I.truth(compare(I, ast.Lt() if op == "min" else ast.Gt(), y, x)) else x
    if isinstance(x, Arr) or isinstance(y, Arr):
        from .npmod import m_item
        x = m_item(I, [x], {}) if isinstance(x, Arr) else x
        y = m_item(I, [y], {}) if isinstance(y, Arr) else y
    k = join_kind(kind(x), kind(y))
    if k == "i" and not (isinstance(x, int) and isinstance(y, int)):
        d = P(x) - P(y)
        ge = I.branch(ind("ge", d))
        return (x if ge else y) if op == "max" else (y if ge else x)
    return num(fn(op, P(x), P(y)), k)


def b_abs(I, a, kw):
    v = a[0]
    if is_inf(v):
        return abs(v)
    if isinstance(v, (PList, tuple)):
        raise PyRaise("TypeError", ("bad operand type for abs()",))
    from .npmod import NP
    return NP["abs"](I, [v], {})


def b_sorted(I, a, kw):
    s = I.iter_concrete(a[0])
    key = kw.get("key")
    rev = bool(kw.get("reverse", False))
    ks = [I.call(key, [x], {}) if key else x for x in s]
    order = []
    for i in range(len(s)):
        # stable insertion sort with decided comparisons
        pos = len(order)
        while pos > 0:
            x, y = ks[i], ks[order[pos - 1]]
            less = I.truth(compare(I, ast.Gt() if rev else ast.Lt(), x, y))
            if not less:
                break
            pos -= 1
        order.insert(pos, i)
    return PList([s[i] for i in order])


def b_map(I, a, kw):
    from .interp import SymSeq
    f = a[0]
    if len(a) == 2:
        s = I.as_seq(a[1])
        if isinstance(s, list):
            return PList([I.call(f, [x], {}) for x in s])
        return SymSeq(s.n, lambda j: I.call(f, [s.getf(j)], {}))
    z = I.as_seq(b_zip(I, a[1:], {}))
    if isinstance(z, list):
        return PList([I.call(f, list(t), {}) for t in z])
    return SymSeq(z.n, lambda j: I.call(f, list(z.getf(j)), {}))


def b_filter(I, a, kw):
    s = I.iter_concrete(a[1])
    return PList([x for x in s if I.truth(I.call(a[0], [x], {}) if a[0] is not None else x)])


def b_anyall(is_any):
    def f(I, a, kw):
        s = I.as_seq(a[0])
        if isinstance(s, list):
            if all(isinstance(x, bool) or (isinstance(x, Num) and x.k == "b") for x in s):
                r = ONE
                for x in s:
                    p = P(x)
                    r = r * ((ONE - p) if is_any else p)
                return num(ONE - r if is_any else r, "b")
            for x in s:
                if I.truth(x) == is_any:
                    return is_any
            return not is_any
        v, n = index_var("s", s.n)
        x = s.getf(v)
        if isinstance(x, (bool, Num)) and kind(x) == "b":
            body = lambda t: (P(s.getf(t)) if is_any else ONE - P(s.getf(t)))
            tot = ssum("s", s.n, body)
            c = ind("eqi", tot)
            if c.const() is None and not I.local_explorers:
                from . import loops
                if I.prove(c):
                    return not is_any
                if I.prove(ONE - c):
                    return is_any
                if I.explorer.choose(2) == 0:
                    I.ctx.assume(c)
                    v, n = index_var("s", s.n)
                    loops.add_universal(I.ctx, ONE - body(v), n, s.n)
                    return not is_any
                e = I.ctx.fresh("exit")
                I.ctx.bounds[e] = to_poly(s.n)
                e = alg.var(e)
                I.ctx.assume(ind("ge", e))
                I.ctx.assume(int_lt(e, to_poly(s.n)))
                g = body(e)
                if not g.t:
                    from .interp import PathEnd
                    raise PathEnd()
                I.ctx.assume(g)
                return is_any
            return num(ONE - c if is_any else c, "b")
        raise Unsupported("any/all over a symbolic sequence of non-booleans")
    return f


def type_matches(I, v, t):
    from .interp import PClass, ExcClass, Builtin
    if isinstance(t, tuple):
        return any(type_matches(I, v, x) for x in t)
    if isinstance(t, PType):
        return bool(t.test(v))
    if isinstance(t, PClass):
        return isinstance(v, PObj) and t in v.cls.mro
    if isinstance(t, ExcClass):
        return isinstance(v, PyRaise)
    if hasattr(t, "sym_isinstance"):
        return t.sym_isinstance(v)
    if isinstance(t, Builtin):
        raise Unsupported(f"isinstance of {t.name}")
    raise Unsupported("isinstance")


def b_isinstance(I, a, kw):
    return type_matches(I, a[0], a[1])


def b_issubclass(I, a, kw):
    from .interp import PClass
    c, t = a
    if isinstance(t, tuple):
        return any(b_issubclass(I, [c, x], {}) for x in t)
    if isinstance(c, PClass) and isinstance(t, PClass):
        return t in c.mro
    raise Unsupported("issubclass")


def b_hasattr(I, a, kw):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if e.etype == "AttributeError":
            return False
        raise


def b_getattr(I, a, kw):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with a symbolic name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], a[1])
        except PyRaise as e:
            if e.etype == "AttributeError":
                return a[2]
            raise
    return I.getattr(a[0], a[1])


def b_setattr(I, a, kw):
    I.setattr(a[0], a[1], a[2])


def b_type(I, a, kw):
    v = a[0]
    if isinstance(v, PObj):
        return v.cls
    for n in ("bool", "int", "float", "str", "list", "tuple", "dict", "ndarray"):
        if TYPES[n].test(v):
            return TYPES[n]
    if v is None:
        return TYPES["NoneType"]
    raise Unsupported("type()")


def b_print(I, a, kw):
    I.printed.append(a)


def b_next(I, a, kw):
    s = I.as_seq(a[0])
    if isinstance(s, list):
        if not s:
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration")
        if isinstance(a[0], PList):
            I.nexted[a[0].id] = a[0]
        return s[0]
    raise Unsupported("next of a symbolic iterator")


def b_iter(I, a, kw):
    s = I.as_seq(a[0])
    return PList(s) if isinstance(s, list) else PList(None, s.n, s.getf)


def b_round(I, a, kw):
    v = a[0]
    if isinstance(v, int):
        return v
    raise Unsupported("round")


def b_pow(I, a, kw):
    return binop(I, ast.Pow(), a[0], a[1])


def b_divmod(I, a, kw):
    return (binop(I, ast.FloorDiv(), a[0], a[1]), binop(I, ast.Mod(), a[0], a[1]))


def b_slice(I, a, kw):
    return slice(*a)


def b_id(I, a, kw):
    return id(a[0])


def b_callable(I, a, kw):
    from .interp import PFunc, Bound, Builtin, PClass
    v = a[0]
    return isinstance(v, (PFunc, Bound, Builtin, PClass)) or (isinstance(v, PObj) and v.cls.lookup("__call__") is not _MISSING)


def b_reduce(I, a, kw):
    s = I.as_seq(a[1])
    if not isinstance(s, list):
        raise Unsupported("reduce over a symbolic sequence")
    if len(a) > 2:
        r = a[2]
    else:
        if not s:
            raise PyRaise("TypeError", ("reduce() of empty iterable with no initial value",))
        r, s = s[0], s[1:]
    for x in s:
        r = I.call(a[0], [r, x], {})
    return r


def b_partial(I, a, kw):
    from .interp import Builtin
    f, pre = a[0], list(a[1:])
    return Builtin("partial", lambda I, b, k: I.call(f, pre + list(b), {**kw, **k}))


def b_property(I, a, kw):
    from .interp import PProp
    f = a[0] if a else kw.get("fget")
    p = PProp(f, a[1] if len(a) > 1 else kw.get("fset"))
    if getattr(f, "abstract", False):
        p.abstract = True
        p.fget = f.f
    return p


def b_classmethod(I, a, kw):
    from .interp import PClassMethod
    f = a[0]
    if getattr(f, "abstract", False):
        c = PClassMethod(f.f)
        c.abstract = True
        return c
    return PClassMethod(f)


def b_static(I, a, kw):
    from .interp import PStatic
    return PStatic(a[0])


def b_vars(I, a, kw):
    return PDict(dict(a[0].attrs))


def _is_path(v):
    from .h5model import PathVal
    return isinstance(v, PathVal)


TYPES = {}


def _types():
    T = PType
    TYPES.update({
        "int": T("int", _is_int, b_int),
        "float": T("float", _is_float, b_float),
        "bool": T("bool", lambda v: isinstance(v, bool) or (isinstance(v, Num) and v.k == "b"), b_bool),
        "str": T("str", lambda v: isinstance(v, (str, SymStr)), b_str),
        "list": T("list", lambda v: isinstance(v, PList) and not v.is_tuple, b_list),
        "tuple": T("tuple", lambda v: isinstance(v, (tuple, SymTuple)), b_tuple),
        "dict": T("dict", lambda v: isinstance(v, PDict), b_dict),
        "set": T("set", lambda v: isinstance(v, PSet), b_set),
        "frozenset": T("frozenset", lambda v: isinstance(v, PSet), b_set),
        "ndarray": T("ndarray", lambda v: isinstance(v, (Arr, Masked))),
        "Number": T("Number", lambda v: isnum(v)),
        "NoneType": T("NoneType", lambda v: v is None),
        "object": T("object", lambda v: True, lambda I, a, kw: PObj(_obj())),
        "complex": T("complex", lambda v: False),
        "bytes": T("bytes", lambda v: False),
    })


def _obj():
    from .interp import OBJECT
    return OBJECT


_types()


def make(I):
    from .interp import Builtin
    d = {}
    for n, f in dict(len=b_len, range=b_range, enumerate=b_enumerate, zip=b_zip, reversed=b_reversed, sum=b_sum,
                     min=b_minmax("min"), max=b_minmax("max"), abs=b_abs, sorted=b_sorted, map=b_map, filter=b_filter,
                     any=b_anyall(True), all=b_anyall(False), isinstance=b_isinstance, issubclass=b_issubclass,
                     hasattr=b_hasattr, getattr=b_getattr, setattr=b_setattr, type=b_type, print=b_print, next=b_next,
                     iter=b_iter, round=b_round, pow=b_pow, divmod=b_divmod, slice=b_slice, id=b_id, callable=b_callable,
                     property=b_property, classmethod=b_classmethod, staticmethod=b_static, vars=b_vars,
                     repr=b_str, format=lambda I, a, kw: I.format_value(a[0], a[1] if len(a) > 1 else "")).items():
        d[n] = Builtin(n, f)
    for n in ("int", "float", "bool", "str", "list", "tuple", "dict", "set", "frozenset", "object", "complex", "bytes"):
        d[n] = TYPES[n]
    d["NotImplemented"] = "NotImplemented"
    d["Ellipsis"] = Ellipsis
    d["__name__"] = "__verified__"
    return d
