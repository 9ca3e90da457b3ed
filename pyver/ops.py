"""Operators on symbolic values."""
import ast
from fractions import Fraction
from . import alg
from .alg import (Poly, to_poly, ONE, ZERO, Undecided, ind, int_eq, int_ge, int_lt, fn, inv, fdiv, pmod, ite, b_not)
from .vals import *
from .vals import _MISSING

INF = float("inf")


# ------------------------------------------------------------------ masked selections

class Masked:
    """arr[mask]: a selection of dynamic length, kept as a full-index function with its mask."""
    __slots__ = ("shape", "mask", "val", "dtype")

    def __init__(self, shape, mask, val, dtype):
        self.shape, self.mask, self.val, self.dtype = tuple(shape), mask, val, dtype


def generic_idx(shape):
    return tuple(alg.index_var("g", d)[0] for d in shape)


def same_mask(a, b):
    if len(a.shape) != len(b.shape) or any(x != y for x, y in zip(a.shape, b.shape)):
        return False
    g = generic_idx(a.shape)
    return (a.mask(g) - b.mask(g)).is_zero()


# ------------------------------------------------------------------ broadcasting

def bdim(I, a, b):
    """Broadcast two dimensions: (result, a is stretched, b is stretched)."""
    if a == b:
        return a, False, False
    if a.const() == 1:
        return b, True, False
    if b.const() == 1:
        return a, False, True
    d = a - b
    if I.branch(ind("eqi", d)):
        return a, False, False
    if I.branch(int_eq(a, 1)):
        return b, True, False
    if I.branch(int_eq(b, 1)):
        return a, False, True
    raise PyRaise("ValueError", ("operands could not be broadcast together",))


def broadcast(I, shapes):
    """Result shape and per-operand index maps."""
    nd = max(len(s) for s in shapes)
    out = [ONE] * nd
    stretch = [[False] * nd for _ in shapes]
    for k in range(nd):
        cur = None
        for j, s in enumerate(shapes):
            o = k - (nd - len(s))
            if o < 0:
                continue
            if cur is None:
                cur = s[o]
                continue
            r, sa, sb = bdim(I, cur, s[o])
            if sa:
                for jj in range(j):
                    stretch[jj][k] = True
            if sb:
                stretch[j][k] = True
            cur = r
        out[k] = cur
    maps = []
    for j, s in enumerate(shapes):
        off = nd - len(s)
        st = stretch[j]

        def mp(idx, off=off, st=st, n=len(s)):
            return tuple(ZERO if st[off + q] else idx[off + q] for q in range(n))
        maps.append(mp)
    return tuple(out), maps


def as_arr(I, v):
    """Coerce to Arr (numbers become 0-d)."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (Num, int, float, bool, Fraction)):
        if is_inf(v):
            raise Unsupported("infinite array element")
        p = P(v)
        return Arr(Buf((), lambda idx: p, kind(v)))
    if isinstance(v, (PList, tuple, SymTuple, SymSeq_())):
        from . import npmod
        return npmod.array_from(I, v)
    if isinstance(v, Masked):
        raise Unsupported("masked selection used as an array")
    if hasattr(v, "sym_array"):
        return v.sym_array(I)
    if isinstance(v, PObj):
        from . import npmod
        return npmod.array_from(I, v)
    raise Unsupported(f"cannot convert {type(v).__name__} to an array")


def SymSeq_():
    from .interp import SymSeq
    return SymSeq


def is_arrlike(v):
    return isinstance(v, (Arr, Masked))


def scalarize(a):
    """0-d results are numbers."""
    if isinstance(a, Arr) and a.ndim == 0:
        return num(a.at(()), a.dtype)
    return a


def elementwise(I, f, args, dtype):
    """Apply f(polys...) -> poly elementwise with broadcasting."""
    if any(isinstance(a, Masked) for a in args):
        ms = [a for a in args if isinstance(a, Masked)]
        m0 = ms[0]
        for m in ms[1:]:
            if not same_mask(m0, m):
                raise Unsupported("operation on selections with different masks")
        getters = []
        for a in args:
            if isinstance(a, Masked):
                getters.append(a.val)
            elif isnum(a):
                p = P(a)
                getters.append(lambda idx, p=p: p)
            elif isinstance(a, Arr) and a.ndim == 0:
                p = a.at(())
                getters.append(lambda idx, p=p: p)
            else:
                raise Unsupported("operation on a masked selection and an array")
        return Masked(m0.shape, m0.mask, lambda idx: f(*[g(idx) for g in getters]), dtype)
    if all(isnum(a) or (isinstance(a, Arr) and a.ndim == 0) for a in args):
        return num(f(*[P(a) for a in args]), dtype)
    arrs = [as_arr(I, a) for a in args]
    shape, maps = broadcast(I, [a.shape for a in arrs])
    rds = [a.snapshot() for a in arrs]
    return new_arr(shape, lambda idx: f(*[r(m(idx)) for r, m in zip(rds, maps)]), dtype)


def dtype_of(v):
    if isinstance(v, (Arr, Masked)):
        return v.dtype
    return kind(v)


# ------------------------------------------------------------------ binary operators

def binop(I, op, a, b):
    t = type(op).__name__
    # sequences and strings
    if isinstance(a, (str, SymStr)) or (isinstance(b, (str, SymStr)) and t == "Add"):
        return strop(I, t, a, b)
    if isinstance(a, (PList, tuple)) and not is_arrlike(b) or isinstance(b, (PList, tuple)) and not is_arrlike(a):
        return seqop(I, t, a, b)
    if isinstance(a, PObj) or isinstance(b, PObj):
        return objop(I, t, a, b)
    if isinstance(a, PSet) and isinstance(b, PSet):
        if t == "Sub":
            return PSet([x for x in a.s if x not in b.s])
        if t == "BitOr":
            return PSet(a.s + [x for x in b.s if x not in a.s])
        if t == "BitAnd":
            return PSet([x for x in a.s if x in b.s])
    if a is None or b is None:
        raise PyRaise("TypeError", (f"unsupported operand type(s) for {t}: NoneType",))
    if t == "MatMult":
        from . import npmod
        return npmod.matmul(I, a, b)
    if hasattr(a, "sym_binop"):
        return a.sym_binop(I, t, b)
    return arith(I, t, a, b)


def strop(I, t, a, b):
    if t == "Add" and isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return I.join_str([a, b])
    if t == "Mult":
        s, n = (a, b) if isinstance(a, str) else (b, a)
        if isinstance(s, str) and isinstance(n, int):
            return s * n
    if t == "Mod" and isinstance(a, str):
        args = b if isinstance(b, tuple) else (b,)
        if not any(isinstance(x, (Num, SymStr)) for x in args):
            try:
                return a % args
            except (TypeError, ValueError) as e:
                raise PyRaise(type(e).__name__, e.args)
        # %d / %05d of integers
        import re
        parts = []
        pos = 0
        args = list(args)
        for m in re.finditer(r"%(0?\d*)([dsif])", a):
            parts.append(a[pos:m.start()])
            v = args.pop(0)
            parts.append(I.format_value(v, m.group(1) + ("d" if m.group(2) in "di" and isnum(v) else "")))
            pos = m.end()
        parts.append(a[pos:])
        return I.join_str(parts)
    if t == "Div":
        raise PyRaise("TypeError", ("str / str",))
    raise PyRaise("TypeError", (f"unsupported operand types for {t}",))


def seqop(I, t, a, b):
    if t == "Add":
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            if a.items is not None and b.items is not None:
                return PList(a.items + b.items)
            segs = []
            for x in (a, b):
                if x.items is None:
                    segs.append((x.n, x.getf))
                else:
                    for v in x.items:
                        segs.append((ONE, lambda j, v=v: v))
            return I.concat_segs(segs)
        raise PyRaise("TypeError", ("can only concatenate list to list",))
    if t == "Mult":
        s, n = (a, b) if isinstance(a, (PList, tuple)) else (b, a)
        if isinstance(n, bool) or isinstance(n, int):
            if isinstance(s, tuple):
                return s * n
            if s.items is not None:
                return PList(s.items * n)
        if isinstance(n, Num) and n.k in "ib":
            items = list(s) if isinstance(s, tuple) else s.items
            if items is not None and len(items) == 1:
                v = items[0]
                if not I.branch(ind("ge", n.p)):
                    return PList([]) if isinstance(s, PList) else ()
                if isinstance(s, tuple):
                    return SymTuple(n.p, lambda j: v)
                return PList(None, n.p, lambda j: v)
        raise Unsupported("sequence repetition")
    if isnum(a) or isnum(b):
        raise PyRaise("TypeError", (f"unsupported operand types for {t}",))
    raise Unsupported(f"sequence operator {t}")


DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Mod": "mod",
          "FloorDiv": "floordiv", "Pow": "pow", "BitAnd": "and", "BitOr": "or"}


def objop(I, t, a, b):
    from .interp import Bound
    n = DUNDER.get(t)
    if isinstance(a, PObj):
        m = a.cls.lookup(f"__{n}__")
        if m is not _MISSING:
            return I.call(Bound(m, a), [b], {})
    if isinstance(b, PObj):
        m = b.cls.lookup(f"__r{n}__")
        if m is not _MISSING:
            return I.call(Bound(m, b), [a], {})
    raise PyRaise("TypeError", (f"unsupported operand types for {t}",))


def arith(I, t, a, b):
    if is_inf(a) or is_inf(b):
        return inf_arith(I, t, a, b)
    if not (isnum(a) or is_arrlike(a)):
        a = as_arr(I, a)
    if not (isnum(b) or is_arrlike(b)):
        b = as_arr(I, b)
    ka, kb = dtype_of(a), dtype_of(b)
    k = join_kind(ka, kb)
    kk = "i" if k == "b" else k
    if t == "Add":
        if k == "b" and (is_arrlike(a) or is_arrlike(b)):
            return elementwise(I, lambda x, y: ONE - (ONE - x) * (ONE - y), (a, b), "b")
        return elementwise(I, lambda x, y: x + y, (a, b), kk)
    if t == "Sub":
        if k == "b" and (is_arrlike(a) or is_arrlike(b)):
            raise PyRaise("TypeError", ("numpy boolean subtract",))
        return elementwise(I, lambda x, y: x - y, (a, b), kk)
    if t == "Mult":
        return elementwise(I, lambda x, y: x * y, (a, b), k if k == "b" and (is_arrlike(a) or is_arrlike(b)) else kk)
    if t == "Div":
        check_nonzero(I, b, a)
        return elementwise(I, lambda x, y: x * inv0(y), (a, b), "f")
    if t == "Pow":
        return power(I, a, b, kk)
    if t in ("FloorDiv", "Mod"):
        if kk == "f":
            raise Unsupported("real floor division")
        return elementwise(I, lambda x, y: int_divmod(I, x, y)[0 if t == "FloorDiv" else 1], (a, b), "i")
    if t in ("BitAnd", "BitOr", "BitXor"):
        if k == "b":
            f = {"BitAnd": lambda x, y: x * y, "BitOr": lambda x, y: ONE - (ONE - x) * (ONE - y),
                 "BitXor": lambda x, y: x + y - 2 * x * y}[t]
            return elementwise(I, f, (a, b), "b")
        if isinstance(a, int) and isinstance(b, int):
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[t]
    if t in ("LShift", "RShift") and isinstance(a, int) and isinstance(b, int):
        return a << b if t == "LShift" else a >> b
    raise Unsupported(f"operator {t}")


def inv0(y):
    c = y.const()
    if c is not None and c == 0:
        return alg.app("undef!div0", ())
    return inv(y)


def check_nonzero(I, b, a=None):
    if isinstance(b, (int, float, Fraction)) and not isinstance(b, bool):
        if b == 0:
            if not is_arrlike(a):
                raise PyRaise("ZeroDivisionError", ("division by zero",))
            I.defined(ZERO, "division by zero")
        return
    if not I.check_defined:
        return
    if isinstance(b, Num):
        I.defined(ONE - ind("eqr", b.p), "non-zero divisor")
    elif isinstance(b, Masked):
        g = generic_idx(b.shape)
        m = b.mask(g)
        I.defined(ONE - m * ind("eqr", b.val(g)), "non-zero divisor")
    elif isinstance(b, Arr):
        g = generic_idx(b.shape)
        I.defined(ONE - ind("eqr", b.at(g)), "non-zero divisor")


def int_divmod(I, x, y):
    c = y.const()
    if c is None:
        if I.branch(ind("ge", y - 1)):
            return fdiv(x, y), pmod(x, y)
        if I.branch(int_eq(y, 0)):
            raise PyRaise("ZeroDivisionError", ("integer modulo by zero",))
        return fdiv(-x, -y), -pmod(-x, -y)
    if c == 0:
        raise PyRaise("ZeroDivisionError", ("integer division or modulo by zero",))
    if c < 0:
        return fdiv(-x, to_poly(-c)), -pmod(-x, to_poly(-c))
    return fdiv(x, y), pmod(x, y)


def power(I, a, b, kk):
    if isinstance(b, Arr) and b.ndim == 0:
        b = num(b.at(()), b.dtype)
    if isinstance(b, Num):
        c = b.p.const()
        if c is not None:
            b = c
        else:
            e = b.p
            if b.k == "i" and kk == "i":
                pass
            return elementwise(I, lambda x: pow_fn(x, e), (a,), "f")
    if isinstance(b, (int, Fraction)) and Fraction(b).denominator == 1:
        n = int(b)
        if n >= 0:
            return elementwise(I, lambda x: alg.ppow(x, n), (a,), kk if not isinstance(b, Fraction) else "f")
        check_nonzero(I, a, a)
        return elementwise(I, lambda x: alg.ppow(inv0(x), -n), (a,), "f")
    if isinstance(b, Fraction):
        if b == Fraction(1, 2):
            return sqrt(I, a)
        if b == Fraction(-1, 2):
            return elementwise(I, lambda x: inv0(fn("sqrt", x)), (a,), "f")
        e = to_poly(b)
        return elementwise(I, lambda x: pow_fn(x, e), (a,), "f")
    if isinstance(b, Arr):
        return elementwise(I, pow_fn, (a, b), "f")
    raise Unsupported("exponent")


def pow_fn(x, e):
    c = e.const()
    if c is not None and Fraction(c).denominator == 1 and c >= 0:
        return alg.ppow(x, int(c))
    if x.const() == 1:
        return ONE
    return fn("pow", x, e)


def sqrt(I, a):
    if I.check_defined:
        if isinstance(a, Num) or isinstance(a, (int, Fraction)):
            I.defined(ONE - ind("gt", -P(a)), "non-negative radicand")
        elif isinstance(a, Arr):
            g = generic_idx(a.shape)
            I.defined(ONE - ind("gt", -a.at(g)), "non-negative radicand")
    return elementwise(I, lambda x: fn("sqrt", x), (a,), "f")


def inf_arith(I, t, a, b):
    if is_arrlike(a) or is_arrlike(b):
        raise Unsupported("infinite array element")
    ca = a if is_inf(a) else None
    cb = b if is_inf(b) else None
    if t == "Add" and ca is not None and (cb is None or ca == cb):
        return ca
    if t == "Add" and cb is not None and ca is None:
        return cb
    if t == "Sub":
        if ca is not None and cb is None:
            return ca
        if cb is not None and ca is None:
            return -cb
    if t == "Div" and ca is None:
        return Num(ZERO, "f")
    if t == "Mult":
        o = a if ca is None else b
        x = ca if ca is not None else cb
        if is_inf(o):
            return x * o
        if I.branch(ind("gt", P(o))):
            return x
        if I.branch(ind("gt", -P(o))):
            return -x
    raise Unsupported(f"arithmetic with an infinite value ({t})")


# ------------------------------------------------------------------ unary, in-place

def unop(I, op, v):
    t = type(op).__name__
    if t == "Not":
        if isinstance(v, Num) and v.k == "b":
            return num(ONE - v.p, "b")
        return not I.truth(v)
    if isinstance(v, PObj):
        raise PyRaise("TypeError", ("bad operand type for unary operator",))
    if t == "USub":
        if is_inf(v):
            return -v
        k = dtype_of(v) if (isnum(v) or is_arrlike(v)) else None
        if k is None:
            raise PyRaise("TypeError", ("bad operand type for unary -",))
        return elementwise(I, lambda x: -x, (v,), "i" if k == "b" else k)
    if t == "UAdd":
        return v
    if t == "Invert":
        if isinstance(v, (Arr, Masked)) and v.dtype == "b":
            return elementwise(I, lambda x: ONE - x, (v,), "b")
        if isinstance(v, Num) and v.k == "b":
            return num(ONE - v.p, "b")
        if isinstance(v, bool):
            return not v        # numpy booleans; Python's ~True is an integer and is not used on conditions
        if isinstance(v, (int, Num)):
            return arith(I, "Sub", -1, v)
    raise Unsupported(f"unary {t}")


def iop(I, op, cur, v):
    """In-place operator: mutates arrays and lists, rebinds otherwise."""
    t = type(op).__name__
    if isinstance(cur, Arr):
        r = binop(I, op, cur, v)
        if isinstance(r, Num) or isnum(r):
            r = as_arr(I, r)
        if not isinstance(r, Arr):
            raise Unsupported("in-place operation with a masked selection")
        if cur.ndim == 0 and r.ndim == 0:
            pass
        if RANK[r.dtype] > RANK[cur.dtype]:
            raise PyRaise("TypeError", (f"cannot cast ufunc output from {r.dtype} to {cur.dtype}",))
        if r.ndim > cur.ndim:
            raise PyRaise("ValueError", ("non-broadcastable output operand",))
        store(I, cur, r)
        return cur
    if isinstance(cur, PList) and t == "Add":
        s = I.as_seq(v)
        from .interp import SymSeq
        cur.save()
        if cur.items is not None and not isinstance(s, SymSeq):
            cur.items = cur.items + list(s)
        else:
            segs = []
            if cur.items is not None:
                segs += [(ONE, lambda j, x=x: x) for x in cur.items]
            else:
                segs.append((cur.n, cur.getf))
            if isinstance(s, SymSeq):
                segs.append((s.n, s.getf))
            else:
                segs += [(ONE, lambda j, x=x: x) for x in s]
            r = I.concat_segs(segs)
            cur.items, cur.n, cur.getf = None, r.n, r.getf
        return cur
    if isinstance(cur, PObj):
        from .interp import Bound
        m = cur.cls.lookup(f"__i{DUNDER.get(t)}__")
        if m is not _MISSING:
            return I.call(Bound(m, cur), [v], {})
    return binop(I, op, cur, v)


def store(I, dst, src):
    """dst[...] = src with broadcasting of src into dst's shape."""
    if isinstance(src, Masked):
        raise Unsupported("assignment from a masked selection")
    src = as_arr(I, src)
    nd, ns = dst.ndim, src.ndim
    sshape = src.shape
    off = 0
    if ns > nd:
        for d in sshape[:ns - nd]:
            if not I.branch(int_eq(d, 1)):
                raise PyRaise("ValueError", ("could not broadcast input array",))
    stretch = []
    for k in range(nd):
        o = k - (nd - ns)
        if o < 0:
            stretch.append(None)
            continue
        s, d = sshape[o], dst.shape[k]
        if s == d:
            stretch.append(False)
        elif s.const() == 1:
            stretch.append(True)
        elif I.branch(int_eq(s, d)):
            stretch.append(False)
        elif I.branch(int_eq(s, 1)):
            stretch.append(True)
        else:
            raise PyRaise("ValueError", ("could not broadcast input array into shape",))
    rd = src.snapshot()
    lead = max(ns - nd, 0)

    def value(idx):
        out = [ZERO] * lead
        for k in range(nd):
            if stretch[k] is None:
                continue
            out.append(ZERO if stretch[k] else idx[k])
        return rd(tuple(out))
    if dst.dtype == "i" and src.dtype == "f":
        f = value
        def value(idx, f=f):                    # truncation toward zero
            x = f(idx)
            return trunc(x)
    if dst.dtype == "b" and src.dtype != "b":
        f2 = value
        def value(idx, f=f2):
            return ONE - ind("eqr", f(idx))
    dst.write(value)


def trunc(x):
    if x.sort_is_int():
        return x
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if len(m) == 1 and m[0][1] == 1 and c in (1, -1) and m[0][0].kind == "fn" and m[0][0].data[0] == "sign":
            return x
    return fn("trunc", x)


# ------------------------------------------------------------------ comparisons

def compare(I, op, a, b):
    t = type(op).__name__
    if t == "Is":
        return is_same(I, a, b)
    if t == "IsNot":
        return not is_same(I, a, b)
    if t in ("In", "NotIn"):
        r = contains(I, b, a)
        if t == "In":
            return r
        return unop(I, ast.Not(), r)
    if t in ("Eq", "NotEq"):
        r = equals(I, a, b)
        if t == "Eq":
            return r
        if isinstance(r, (Arr, Masked)):
            return elementwise(I, lambda x: ONE - x, (r,), "b")
        return unop(I, ast.Not(), r)
    if a is None or b is None:
        raise PyRaise("TypeError", (f"'{t}' not supported between instances with NoneType",))
    if is_inf(a) or is_inf(b):
        return inf_compare(I, t, a, b)
    if isinstance(a, (str, tuple)) and isinstance(b, (str, tuple)) and type(a) is type(b):
        if isinstance(a, tuple) and any(isinstance(x, Num) for x in a + b):
            raise Unsupported("ordering of symbolic tuples")
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[t]
    if isinstance(a, (str, SymStr, PObj, PDict)) or isinstance(b, (str, SymStr, PObj, PDict)):
        raise PyRaise("TypeError", (f"'{t}' not supported between instances",))
    if not (isnum(a) or is_arrlike(a)):
        a = as_arr(I, a)
    if not (isnum(b) or is_arrlike(b)):
        b = as_arr(I, b)
    k = join_kind(dtype_of(a), dtype_of(b))
    return elementwise(I, lambda x, y: cmp_poly(t, x, y, k), (a, b), "b")


def cmp_poly(t, x, y, k):
    if t == "Gt":
        x, y, t = y, x, "Lt"
    if t == "GtE":
        x, y, t = y, x, "LtE"
    d = y - x
    integral = k != "f" or (x.sort_is_int() and y.sort_is_int())
    if t == "Lt":
        return ind("ge", d - 1) if integral and d.sort_is_int() else ind("gt", d)
    return ind("ge", d) if integral and d.sort_is_int() else ONE - ind("gt", -d)


def inf_compare(I, t, a, b):
    if is_arrlike(a) or is_arrlike(b):
        raise Unsupported("comparison with an infinite value")
    x = a if is_inf(a) else 0.0
    y = b if is_inf(b) else 0.0
    if is_inf(a) and is_inf(b):
        pass
    return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[t]


def is_same(I, a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (bool,)) or isinstance(b, bool):
        if isinstance(a, Num) and a.k == "b":
            return num(a.p if b else ONE - a.p, "b")
        if isinstance(b, Num) and b.k == "b":
            return num(b.p if a else ONE - b.p, "b")
        return False
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a is b:
            return True
        return False
    if isinstance(a, (str, int)) and isinstance(b, (str, int)):
        return a == b
    if isinstance(a, DType) or isinstance(b, DType):
        return a == b
    return a is b


def equals(I, a, b):
    if a is None or b is None:
        if is_arrlike(a) or is_arrlike(b):
            x = a if is_arrlike(a) else b
            return elementwise(I, lambda p: ZERO, (x,), "b")
        return a is b
    if is_inf(a) or is_inf(b):
        if is_inf(a) and is_inf(b):
            return a == b
        return False
    if isinstance(a, (str, SymStr)) or isinstance(b, (str, SymStr)):
        return str_eq(I, a, b)
    if is_arrlike(a) or is_arrlike(b):
        if isinstance(a, (PDict,)) or isinstance(b, (PDict,)):
            return False
        a2 = a if (is_arrlike(a) or isnum(a)) else as_arr(I, a)
        b2 = b if (is_arrlike(b) or isnum(b)) else as_arr(I, b)
        return elementwise(I, lambda x, y: ind("eqi" if (x - y).sort_is_int() else "eqr", x - y), (a2, b2), "b")
    if isnum(a) and isnum(b):
        d = P(a) - P(b)
        return num(ind("eqi" if d.sort_is_int() else "eqr", d), "b")
    if isinstance(a, (tuple, PList, SymTuple)) and isinstance(b, (tuple, PList, SymTuple)):
        if isinstance(a, PList) != isinstance(b, PList):
            return False
        return seq_eq(I, a, b)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(a.d) != set(b.d):
            return False
        r = True
        for k in a.d:
            e = equals(I, a.d[k], b.d[k])
            if not I.truth(e):
                return False
        return True
    if isinstance(a, DType) or isinstance(b, DType):
        return dtype_eq(a, b)
    if isinstance(a, PObj):
        from .interp import Bound
        m = a.cls.lookup("__eq__")
        if m is not _MISSING:
            return I.call(Bound(m, a), [b], {})
        return a is b
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set(a.s) == set(b.s)
    return a is b


def dtype_eq(a, b):
    def k(x):
        if isinstance(x, DType):
            return x.k
        n = getattr(x, "name", None)
        return {"float": "f", "int": "i", "bool": "b", "float64": "f", "int64": "i"}.get(n)
    return k(a) == k(b)


def seq_eq(I, a, b):
    from .interp import SymSeq
    x, y = I.as_seq(a), I.as_seq(b)
    if isinstance(x, SymSeq) or isinstance(y, SymSeq):
        if not isinstance(x, SymSeq):
            return I.truth(num(int_eq(y.n, len(x)), "b")) and seq_eq_conc(I, x, [y.getf(to_poly(k)) for k in range(len(x))])
        if not isinstance(y, SymSeq):
            return I.truth(num(int_eq(x.n, len(y)), "b")) and seq_eq_conc(I, y, [x.getf(to_poly(k)) for k in range(len(y))])
        from . import builtins_
        if not I.truth(num(int_eq(x.n, y.n), "b")):
            return False

        def same(t):
            u, v = x.getf(t), y.getf(t)
            if not (isnum(u) and isnum(v)):
                raise Unsupported("equality of symbolic-length sequences")
            return num(int_eq(P(u), P(v)) if kind(u) in "ib" and kind(v) in "ib" else ind("eqr", P(u) - P(v)), "b")
        return I.truth(builtins_.b_anyall(False)(I, [SymSeq(x.n, same)], {}))
    return seq_eq_conc(I, x, y)


def seq_eq_conc(I, x, y):
    if len(x) != len(y):
        return False
    acc = ONE
    for p, q in zip(x, y):
        e = equals(I, p, q)
        if isinstance(e, bool):
            if not e:
                return False
            continue
        if isinstance(e, Num):
            acc = acc * e.p
            continue
        if not I.truth(e):
            return False
    return num(acc, "b")


def str_eq(I, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
        return False
    pa = a.parts if isinstance(a, SymStr) else (a,)
    pb = b.parts if isinstance(b, SymStr) else (b,)
    if len(pa) == 1 and isinstance(pa[0], str) or len(pb) == 1 and isinstance(pb[0], str):
        # literal against pattern
        lit, pat = (pa[0], pb) if len(pa) == 1 and isinstance(pa[0], str) else (pb[0], pa)
        return str_match(I, pat, lit)
    if len(pa) == len(pb):
        acc = ONE
        for x, y in zip(pa, pb):
            if isinstance(x, str) != isinstance(y, str):
                raise Unsupported("comparison of formatted strings")
            if isinstance(x, str):
                if x != y:
                    # different literal segments around the same number of fields
                    return False if _lit_distinct(pa, pb) else _unsup("comparison of formatted strings")
            else:
                if x[1] != y[1]:
                    raise Unsupported("comparison of formatted strings")
                acc = acc * int_eq(x[0], y[0])
        return num(acc, "b")
    if _lit_distinct(pa, pb):
        return False
    raise Unsupported("comparison of formatted strings")


def _unsup(m):
    raise Unsupported(m)


def _lit_distinct(pa, pb):
    x = pa[0] if isinstance(pa[0], str) else ""
    y = pb[0] if isinstance(pb[0], str) else ""
    n = min(len(x), len(y))
    return x[:n] != y[:n]


def str_match(I, pat, lit):
    """pattern with one integer field against a literal."""
    import re
    flds = [p for p in pat if not isinstance(p, str)]
    if len(flds) != 1:
        raise Unsupported("comparison of formatted strings")
    k = [i for i, p in enumerate(pat) if not isinstance(p, str)][0]
    pre = "".join(pat[:k])
    post = "".join(pat[k + 1:])
    if not (lit.startswith(pre) and lit.endswith(post) and len(lit) >= len(pre) + len(post)):
        return False
    mid = lit[len(pre):len(lit) - len(post) if post else None]
    if not re.fullmatch(r"-?\d+", mid):
        return False
    n = int(mid)
    if format(n, flds[0][1]) != mid:
        return False
    return num(int_eq(flds[0][0], n), "b")


def contains(I, c, x):
    if isinstance(c, (tuple, PList, PSet)):
        if isinstance(c, PList) and c.items is None:
            raise Unsupported("membership in a symbolic-length list")
        items = list(c) if isinstance(c, tuple) else c.items if isinstance(c, PList) else c.s
        for v in items:
            e = equals(I, v, x)
            if I.truth(e):
                return True
        return False
    if isinstance(c, PDict):
        k = I.hashable(x)
        return k in c.d
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if hasattr(c, "sym_contains"):
        return c.sym_contains(I, x)
    if isinstance(c, range) and isinstance(x, int):
        return x in c
    if isinstance(c, PObj):
        from .interp import Bound
        m = c.cls.lookup("__contains__")
        if m is not _MISSING:
            return I.call(Bound(m, c), [x], {})
    from .interp import SymSeq
    if isinstance(c, SymSeq) and getattr(c, "rng", None):
        pass
    raise Unsupported(f"membership test in {type(c).__name__}")
