"""Symbolic values: numbers, arrays (buffers and writable views), lists, objects."""
import itertools
from fractions import Fraction
from . import alg
from .alg import (Poly, to_poly, ONE, ZERO, Undecided, subst, ind, int_eq, int_ge, int_lt, ite, fn, inv, ssum,
                  index_var, var, prove_ge, app, fdiv, pmod)


class Unsupported(Undecided):
    """A construct outside the verified dialect."""


class PyRaise(Exception):
    """An exception raised by the verified program."""

    def __init__(self, etype, args=(), obj=None):
        Exception.__init__(self, f"{etype}: {args}")
        self.etype = etype          # exception class name
        self.eargs = args
        self.obj = obj


# ------------------------------------------------------------------ session (set by the interpreter)

class Session:
    cur = None


def S():
    return Session.cur


# ------------------------------------------------------------------ numbers

class Num:
    """Symbolic number: kind 'i' integer, 'f' real, 'b' boolean (0/1 polynomial)."""
    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p = p
        self.k = k

    def __repr__(self):
        return f"<{self.k}:{self.p!r}>"


def num(p, k):
    if not isinstance(p, Poly):
        p = to_poly(p)
    c = p.const()
    if c is not None:
        if k == "b":
            return bool(c)
        if k == "i":
            return int(c)
    return Num(p, k)


def isnum(v):
    return isinstance(v, (Num, int, float, bool, Fraction)) or type(v).__name__ == "complex"


def kind(v):
    if isinstance(v, Num):
        return v.k
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, (float, Fraction)):
        return "f"
    raise Unsupported(f"not a number: {v!r}")


def P(v):
    """Poly of a numeric value."""
    if isinstance(v, Num):
        return v.p
    if isinstance(v, Poly):
        return v
    if isinstance(v, (bool, int, Fraction, float)):
        return to_poly(v)
    if isinstance(v, Arr) and len(v.shape) == 0:
        return v.at(())
    raise Unsupported(f"expected a number, got {type(v).__name__}")


def is_inf(v):
    return isinstance(v, float) and v in (float("inf"), float("-inf"))


RANK = {"b": 0, "i": 1, "f": 2}


def join_kind(a, b):
    return a if RANK[a] >= RANK[b] else b


# ------------------------------------------------------------------ journal

class Journal:
    """Undo log of heap mutations; also the list of cells a loop body wrote."""

    def __init__(self):
        self.log = []

    def rec(self, obj, slot, undo):
        self.log.append((obj, slot, undo))

    def mark(self):
        return len(self.log)

    def rollback(self, m):
        while len(self.log) > m:
            _, _, undo = self.log.pop()
            undo()


_ids = itertools.count(1)


class HeapObj:
    """Anything with identity and mutable state."""
    __slots__ = ()


_MISSING = object()


# ------------------------------------------------------------------ buffers and views

class Buf(HeapObj):
    __slots__ = ("id", "shape", "_elem", "dtype", "version", "memo", "name", "owner", "loopix", "layout")

    def __init__(self, shape, elem, dtype="f", name=None):
        self.id = next(_ids)
        self.shape = tuple(shape)
        self._elem = elem
        self.dtype = dtype
        self.version = 0
        self.memo = {}
        self.name = name
        self.owner = None
        self.loopix = ()
        self.layout = None      # "C": known to be contiguous

    def get(self, idx):
        k = (alg.CTX.epoch,) + tuple(i.key for i in idx)
        v = self.memo.get(k)
        if v is None:
            v = self._elem(idx)
            self.memo[k] = v
        return v

    @property
    def elem(self):
        """Snapshot reader: the current contents as a function."""
        e, memo = self._elem, self.memo

        def rd(idx):
            k = (alg.CTX.epoch,) + tuple(i.key for i in idx)
            v = memo.get(k)
            if v is None:
                v = e(idx)
                memo[k] = v
            return v
        return rd

    def set_elem(self, elem):
        old, oldmemo, oldver = self._elem, self.memo, self.version

        def undo():
            self._elem, self.memo, self.version = old, oldmemo, oldver
        s = S()
        if s is not None:
            s.journal.rec(self, "elem", undo)
            s.on_buf_write(self)
        self._elem = elem
        self.memo = {}
        self.version = next(_ids)


class Dep(tuple):
    """The sources (buffer, version) of a reshape result; up is the source array and the map of its indices to ours."""

    def __new__(cls, items, up=None):
        d = tuple.__new__(cls, items)
        d.up = up
        return d


class Arr:
    """View of a buffer.  axes[k] describes buffer axis k: ('fix', Poly) or ('ax', view axis, start Poly, step)."""
    __slots__ = ("buf", "axes", "shape", "ro", "dep")

    def __init__(self, buf, axes=None, shape=None, ro=False, dep=None):
        self.buf = buf
        if axes is None:
            axes = tuple(("ax", k, ZERO, 1) for k in range(len(buf.shape)))
            shape = buf.shape
        self.axes = tuple(axes)
        self.shape = tuple(shape)
        self.ro = ro
        self.dep = dep      # (source buffer, version) for copies that might be views in numpy

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def dtype(self):
        return self.buf.dtype

    def check_dep(self):
        if self.dep is not None:
            for b, v in self.dep:
                if b.version != v:
                    raise Unsupported("read of a reshape result after its source was modified (view or copy depends on memory layout)")

    def bidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                _, k, st, step = a
                x = idx[k]
                out.append(st + x if step == 1 else st + x * step)
        return tuple(out)

    def at(self, idx):
        if self.dep is not None:
            if self.sure_view():
                src, back, fwd = self.dep.up
                return fwd(src.snapshot())(self.bidx(idx))
            self.check_dep()
        return self.buf.get(self.bidx(idx))

    def snapshot(self):
        """Reader over the present contents."""
        rd = self.buf.elem
        if self.dep is not None:
            if self.sure_view():
                src, back, fwd = self.dep.up
                rd = fwd(src.snapshot())
            else:
                self.check_dep()
        bidx = self.bidx
        return lambda idx: rd(bidx(idx))

    def is_whole(self):
        return (not self.ro and len(self.axes) == len(self.shape)
                and all(a[0] == "ax" and a[1] == k and a[2].is_zero() and a[3] == 1 for k, a in enumerate(self.axes))
                and all(x == y for x, y in zip(self.shape, self.buf.shape)))

    def sure_view(self):
        """The source is known to be contiguous: a reshape is a view of it."""
        up = getattr(self.dep, "up", None)
        return up is not None and up[0].buf.layout == "C" and up[0].dep is None and up[0].is_whole() and up[2] is not None

    def set_dep(self, dep):
        old = self.dep

        def undo():
            self.dep = old
        S().journal.rec(self, "dep", undo)
        self.dep = dep

    def write_reshaped(self, value_at, dtype=None):
        """A write through a reshape result: it may be a copy or a view of its source, depending on the memory layout
        of the source; both are explored."""
        dep, up = self.dep, getattr(self.dep, "up", None)
        if up is None or S() is None:
            raise Unsupported("write through a reshape result (view or copy depends on memory layout)")
        if self.sure_view():
            src, back, fwd = up
            old = src.snapshot()
            src.write(lambda si: self.written(lambda _: old(si), value_at)(back(si)), dtype)
            return
        if S().pick(2) == 0:
            self.set_dep(None)
            self.write(value_at, dtype)
            return
        self.check_dep()
        self.set_dep(None)
        self.write(value_at, dtype)
        src, back = up[:2]
        rd = self.buf.elem
        src.write(lambda si: rd(back(si)), dtype)
        self.set_dep(Dep(tuple((b, b.version) for b, _ in dep), up))

    def write(self, value_at, dtype=None):
        """Store value_at(view index) into every element of the view."""
        if self.ro:
            raise PyRaise("ValueError", ("assignment destination is read-only",))
        if self.dep is not None:
            self.write_reshaped(value_at, dtype)
            return
        b = self.buf
        if self.is_whole():
            b.set_elem(value_at)
            return
        b.set_elem(self.written(b.elem, value_at))

    def written(self, old, value_at):
        """The elements of the buffer after value_at was stored into the view."""
        axes, shape, bshape = self.axes, self.shape, self.buf.shape
        nview = len(shape)

        def elem(bi):
            cond = ONE
            vi = [ZERO] * nview
            for k, a in enumerate(axes):
                x = bi[k]
                if a[0] == "fix":
                    cond = cond * int_eq(x, a[1])
                else:
                    _, va, st, step = a
                    if step == 1:
                        y = x - st
                    elif step == -1:
                        y = st - x
                    else:
                        y = fdiv(x - st, step) if step > 0 else fdiv(st - x, -step)
                        cond = cond * int_eq(pmod(x - st, abs(step)), 0)
                    vi[va] = y
                    full = (st.is_zero() and step == 1 and shape[va] == _rag(bshape[k], bi))
                    if not full:
                        cond = cond * ind("ge", y) * int_lt(y, shape[va])
                if not cond.t:
                    return old(bi)
            if cond.const() == 1:
                return value_at(tuple(vi))
            return cond * value_at(tuple(vi)) + (ONE - cond) * old(bi)
        return elem


RAG = "@0"


def _rag(d, bi):
    if RAG in d.fv:
        return subst(d, {RAG: bi[0]})
    return d


def new_arr(shape, elem, dtype="f", name=None):
    b = Buf([to_poly(P(d)) if not isinstance(d, Poly) else d for d in shape], elem, dtype, name)
    s = S()
    if s is not None:
        s.on_alloc(b)
    return Arr(b)


def fresh_arr(base, shape, dtype="f"):
    """Array of unknown contents (fresh application symbol; skolem arguments for enclosing symbolic loops)."""
    s = S()
    name = alg.get_ctx().fresh(base)
    extra = tuple(var(n) for n in s.loop_vars()) if s is not None else ()
    sort = "real" if dtype == "f" else "int"
    a = new_arr(shape, lambda idx: app(name, extra + tuple(idx), sort), dtype, name)
    return a, name, extra


def fresh_num(base, k="f", lo=None):
    s = S()
    name = alg.get_ctx().fresh(base)
    extra = tuple(var(n) for n in s.loop_vars()) if s is not None else ()
    if extra:
        p = app(name, extra, "real" if k == "f" else "int")
    elif k == "f":
        p = app(name, (), "real")
    else:
        p = var(name)
        if lo is not None:
            alg.get_ctx().lower[name] = lo
    return Num(p, k)


def param_arr(name, shape, dtype="f"):
    """A named input array."""
    sort = "real" if dtype == "f" else "int"
    b = Buf([to_poly(d) for d in shape], lambda idx: app(name, tuple(idx), sort), dtype, name)
    return Arr(b)


# ------------------------------------------------------------------ lists, dicts, objects

class PList(HeapObj):
    """A Python list.  Concrete: items is a list.  Symbolic: n (Poly) and get(Poly)->value."""
    __slots__ = ("id", "items", "n", "getf", "is_tuple")

    def __init__(self, items=None, n=None, getf=None):
        self.id = next(_ids)
        self.items = items
        self.n = n
        self.getf = getf
        self.is_tuple = False

    @property
    def symbolic(self):
        return self.items is None

    def save(self):
        o = (None if self.items is None else list(self.items), self.n, self.getf)

        def undo():
            self.items, self.n, self.getf = (None if o[0] is None else list(o[0])), o[1], o[2]
        s = S()
        if s is not None:
            s.journal.rec(self, "items", undo)

    def length(self):
        return len(self.items) if self.items is not None else num(self.n, "i")

    def get(self, j):
        if self.items is not None:
            if isinstance(j, int):
                return self.items[j]
            raise Unsupported("symbolic index into a concrete list")
        return self.getf(to_poly(j) if not isinstance(j, Poly) else j)

    def __repr__(self):
        return f"PList({self.items})" if self.items is not None else f"PList(n={self.n})"


class SymTuple:
    """Immutable sequence of symbolic length."""
    __slots__ = ("n", "getf")

    def __init__(self, n, getf):
        self.n = n
        self.getf = getf


class PDict(HeapObj):
    __slots__ = ("id", "d")

    def __init__(self, d=None):
        self.id = next(_ids)
        self.d = d if d is not None else {}

    def save(self):
        o = dict(self.d)

        def undo():
            self.d.clear()
            self.d.update(o)
        s = S()
        if s is not None:
            s.journal.rec(self, "d", undo)

    def set(self, k, v):
        self.save()
        self.d[k] = v


class PSet(HeapObj):
    __slots__ = ("id", "s")

    def __init__(self, s=()):
        self.id = next(_ids)
        self.s = list(s)


class PObj(HeapObj):
    __slots__ = ("id", "cls", "attrs", "ghost")

    def __init__(self, cls, attrs=None):
        self.id = next(_ids)
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.ghost = {}

    def setattr(self, name, v):
        old = self.attrs.get(name, _MISSING)

        def undo():
            if old is _MISSING:
                self.attrs.pop(name, None)
            else:
                self.attrs[name] = old
        s = S()
        if s is not None:
            s.journal.rec(self, name, undo)
        self.attrs[name] = v

    def delattr(self, name):
        if name not in self.attrs:
            raise PyRaise("AttributeError", (name,))
        old = self.attrs[name]

        def undo():
            self.attrs[name] = old
        s = S()
        if s is not None:
            s.journal.rec(self, name, undo)
        del self.attrs[name]

    def __repr__(self):
        return f"<{self.cls.name} object #{self.id}>"


class SymStr:
    """A string with symbolic parts, e.g. f'checkpoint_{n:05d}'."""
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)       # str | (Poly, spec)

    @property
    def key(self):
        return tuple(p if isinstance(p, str) else (p[0].key, p[1]) for p in self.parts)

    def __repr__(self):
        return "SymStr" + repr(self.parts)


class DType:
    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f"dtype({self.k})"

    def __eq__(self, o):
        return isinstance(o, DType) and o.k == self.k

    def __hash__(self):
        return hash(self.k)


# ------------------------------------------------------------------ instantiate a template value at another index

def instantiate(v, mp, memo=None):
    """Substitute index variables in a value template (fresh arrays become read-only copies)."""
    if memo is None:
        memo = {}
    if v is None or isinstance(v, (int, float, bool, str, Fraction)):
        return v
    if isinstance(v, Num):
        return num(subst(v.p, mp), v.k)
    if isinstance(v, Arr):
        k = id(v)
        if k in memo:
            return memo[k]
        names = set(mp)
        axes = []
        for a in v.axes:
            if a[0] == "fix":
                axes.append(("fix", subst(a[1], mp)))
            else:
                axes.append(("ax", a[1], subst(a[2], mp), a[3]))
        shape = tuple(subst(d, mp) for d in v.shape)
        b = v.buf
        if set(b.loopix) & names:
            kb = ("buf", b.id)
            nb = memo.get(kb)
            if nb is None:
                rd = b.elem
                bshape = tuple(subst(d, mp) for d in b.shape)
                nb = Buf(bshape, lambda idx: _subst_elem(rd, idx, mp), b.dtype, b.name)
                memo[kb] = nb
            b = nb
        r = Arr(b, axes, shape, v.ro, v.dep)
        memo[k] = r
        return r
    if isinstance(v, tuple):
        return tuple(instantiate(x, mp, memo) for x in v)
    if isinstance(v, PList):
        if v.items is not None:
            return PList([instantiate(x, mp, memo) for x in v.items])
        g = v.getf
        return PList(None, subst(v.n, mp), lambda j: instantiate(g(j), mp))
    if isinstance(v, SymTuple):
        g = v.getf
        return SymTuple(subst(v.n, mp), lambda j: instantiate(g(j), mp))
    if isinstance(v, SymStr):
        return SymStr([p if isinstance(p, str) else (subst(p[0], mp), p[1]) for p in v.parts])
    if isinstance(v, PObj):
        if v.id in memo:
            return memo[v.id]
        if not getattr(S(), "obj_depends", lambda *_: True)(v, mp):
            return v
        o = PObj(v.cls, {})
        memo[v.id] = o
        o.attrs = {n: instantiate(x, mp, memo) for n, x in v.attrs.items()}
        return o
    if isinstance(v, PDict):
        return PDict({k: instantiate(x, mp, memo) for k, x in v.d.items()})
    return v


def _subst_elem(rd, idx, mp):
    # protect index arguments that mention the substituted variables themselves
    ren = {}
    args = []
    ctx = alg.get_ctx()
    for i in idx:
        if i.const() is not None:
            args.append(i)
            continue
        n = ctx.fresh("z")
        ren[n] = i
        args.append(var(n))
    # bounds for the placeholders are inherited loosely: instantiate with the real index first when independent
    names = set(mp)
    if not any(i.fv & names for i in idx):
        return subst(rd(tuple(idx)), mp)
    e = rd(tuple(args))
    m = dict(mp)
    m.update(ren)
    return subst(e, m)
