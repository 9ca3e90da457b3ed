"""Model of h5py and pathlib: a file is a tree of groups with attributes and datasets.

Only the documented behaviour is modelled: names are unique (creating an
existing one raises ValueError), a dataset owns its contents, opening modes
'r' (must exist), 'a' (create if missing), 'w' (truncate).  A group can hold a
*family* of members name(i), 0 <= i < n or where present(i), whose names contain
an integer field; families arise from loops of symbolic length and from the
unknown contents of a file that already exists.
"""
from fractions import Fraction
from . import alg
from .alg import to_poly, ONE, ZERO, int_eq, int_ge, int_lt, var, subst, app
from .vals import *
from .vals import _ids

OPAQUE = ("<num>", "<obj>", "?")


class H5Loop(Unsupported):
    """A group is written inside a loop of symbolic length."""


def raise_(t, msg=""):
    raise PyRaise(t, (msg,))


class PathVal:
    def __init__(self, s):
        self.s = s

    def sym_getattr(self, I, n):
        from .interp import Builtin
        if n in ("is_file", "exists"):
            return Builtin(n, lambda I, a, kw: isinstance(self.s, str) and self.s in I.files)
        if n == "is_dir":
            return Builtin(n, lambda I, a, kw: False)
        if n in ("resolve", "absolute", "expanduser"):
            return Builtin(n, lambda I, a, kw: self)
        if n == "name":
            return self.s.rsplit("/", 1)[-1]
        if n == "__fspath__":
            return Builtin(n, lambda I, a, kw: self.s)
        raise Unsupported("Path." + n)


def key_of(I, k):
    if isinstance(k, PathVal):
        k = k.s
    if isinstance(k, (str, SymStr)):
        parts = (k,) if isinstance(k, str) else k.parts
        if any(isinstance(p, str) and any(o in p for o in OPAQUE) for p in parts):
            raise Unsupported("a file or member name that is not known")
        return k
    raise PyRaise("TypeError", ("name must be a string",))


def freeze(I, v):
    """The value an attribute or dataset holds: a private copy."""
    from . import ops, attrs
    if v is None or isinstance(v, (PDict, PObj, PSet)):
        raise PyRaise("TypeError", ("Object dtype has no native HDF5 equivalent",))
    if isinstance(v, PathVal):
        raise PyRaise("TypeError", ("Object dtype has no native HDF5 equivalent",))
    if isinstance(v, (str, SymStr, int, float, bool, Fraction, Num)):
        return v
    if isinstance(v, (tuple, PList)):
        items = list(v) if isinstance(v, tuple) else v.items
        if items is not None and items and all(isinstance(x, (str, SymStr)) for x in items):
            return tuple(items)
        if items is not None and any(x is None or isinstance(x, (str, SymStr, PDict, PObj)) for x in items):
            raise PyRaise("TypeError", ("Object dtype has no native HDF5 equivalent",))
    a = ops.as_arr(I, v)
    return copy_arr(a)


def copy_arr(a):
    rd = a.snapshot()
    return new_arr(a.shape, rd, a.dtype)


class Member:
    """name -> value; or a family: name(i) -> value(i) for the i with present(i)."""

    def __init__(self, name, value, idx=None, n=None, present=None, live=None):
        self.name, self.value = name, value
        self.idx, self.n, self.live = idx, n, live
        self._present = present

    def present(self, e):
        if self._present is not None:
            return to_poly(self._present(e))
        return int_ge(e, ZERO) * int_lt(e, self.n)

    def at(self, e):
        if callable(self.value):
            return self.value(e)
        r = instantiate(self.value, {self.idx: e})
        if isinstance(r, Dataset):
            r = r.instance({self.idx: e})
        return r


def field_of(pattern, idx, key):
    """The value e of the index with pattern(e) == key: (e, extra condition) or None."""
    pp = pattern.parts
    k = [j for j, p in enumerate(pp) if not isinstance(p, str)]
    if len(k) != 1:
        raise Unsupported("family of names with several fields")
    k = k[0]
    pre, post = "".join(pp[:k]), "".join(pp[k + 1:])
    f, spec = pp[k]
    # f = +-idx + c
    c = subst(f, {idx: ZERO})
    s = subst(f, {idx: ONE}) - c
    if s.const() not in (1, -1) or not (c + s * var(idx) - f).is_zero():
        raise Unsupported("family of names")
    if isinstance(key, str):
        import re
        if not (key.startswith(pre) and key.endswith(post) and len(key) >= len(pre) + len(post)):
            return None
        mid = key[len(pre):len(key) - len(post) if post else None]
        if not re.fullmatch(r"-?\d+", mid) or format(int(mid), spec) != mid:
            return None
        v = to_poly(int(mid))
    else:
        kp = key.parts
        q = [j for j, p in enumerate(kp) if not isinstance(p, str)]
        if len(q) != 1:
            raise Unsupported("name with several fields")
        q = q[0]
        a, b = "".join(kp[:q]), "".join(kp[q + 1:])
        m = min(len(a), len(pre))
        if a[:m] != pre[:m]:
            return None
        if (a, b, kp[q][1]) != (pre, post, spec):
            raise Unsupported("comparison of formatted names")
        v = kp[q][0]
    return (v - c) * s


class AttrMap:
    def __init__(self, group):
        self.g = group

    def sym_contains(self, I, k):
        self.g.check()
        return key_of(I, k) in self.g.attrs

    def sym_getitem(self, I, k):
        self.g.check()
        k = key_of(I, k)
        if k not in self.g.attrs:
            raise_("KeyError", k)
        v = self.g.attrs[k]
        return copy_arr(v) if isinstance(v, Arr) else v

    def sym_setitem(self, I, k, v):
        self.g.check(write=True)
        k = key_of(I, k)
        if isinstance(k, SymStr):
            raise Unsupported("attribute with a symbolic name")
        v = freeze(I, v)
        self.g.touch(I)
        self.g.attrs[k] = v

    def sym_len(self, I):
        return len(self.g.attrs)

    def sym_iter(self, I):
        return sorted(self.g.attrs)

    def sym_delitem(self, I, k):
        self.g.check(write=True)
        if key_of(I, k) not in self.g.attrs:
            raise_("KeyError", k)
        self.g.touch(I)
        del self.g.attrs[k]

    def sym_getattr(self, I, n):
        from .interp import Builtin
        if n == "keys":
            return Builtin(n, lambda I, a, kw: PList(sorted(self.g.attrs)))
        if n == "values":
            return Builtin(n, lambda I, a, kw: PList([self.sym_getitem(I, k) for k in sorted(self.g.attrs)]))
        if n == "items":
            return Builtin(n, lambda I, a, kw: PList([(k, self.sym_getitem(I, k)) for k in sorted(self.g.attrs)]))
        if n == "get":
            return Builtin(n, lambda I, a, kw: self.sym_getitem(I, a[0]) if self.sym_contains(I, a[0]) else (a[1] if len(a) > 1 else None))
        if n == "update":
            def update(I, a, kw):
                for k, v in list(a[0].d.items() if a else []) + list(kw.items()):
                    self.sym_setitem(I, k, v)
            return Builtin(n, update)
        if n in ("create", "modify"):
            return Builtin(n, lambda I, a, kw: self.sym_setitem(I, a[0], a[1]))
        raise Unsupported("attrs." + n)


class Dataset(HeapObj):
    def __init__(self, value, cast=None, group=None, resizable=False):
        self.id = next(_ids)
        self.value = value          # Arr, or str
        self.cast = cast
        self.group = group
        self.resizable = resizable

    def instance(self, mp):
        d = Dataset(instantiate(self.value, mp), self.cast, self.group, self.resizable)
        return d

    def conv(self, I, v):
        if self.cast is None:
            return v
        from . import ops
        c = self.cast
        if isinstance(v, (PList, tuple, SymTuple)):
            v = ops.as_arr(I, v)
        if isinstance(v, Arr):
            rd = v.snapshot()
            return new_arr(v.shape, lambda ix: c(rd(ix)), v.dtype)
        return num(c(P(v)), "f")

    def sym_getitem(self, I, ix):
        from . import attrs
        self.group.check()
        if isinstance(self.value, (str, SymStr, tuple)):
            if ix == () or ix is Ellipsis:
                return self.value
            raise Unsupported("index into a stored string")
        if ix == ():
            return copy_arr(self.value) if self.value.ndim else num(self.value.at(()), self.value.dtype)
        r = attrs.arr_getitem(I, copy_arr(self.value), ix)
        return r

    def sym_setitem(self, I, ix, v):
        from . import attrs
        self.group.check(write=True)
        if not isinstance(self.value, Arr):
            if ix == () or ix is Ellipsis:
                self.touch(I)
                self.value = freeze(I, v)
                return
            raise Unsupported("write into a stored string")
        if isinstance(v, (str, SymStr)):
            raise Unsupported("string written into a dataset of numbers")
        attrs.arr_setitem(I, self.value, Ellipsis if ix == () else ix, self.conv(I, v))

    def touch(self, I):
        if I.loops:
            raise H5Loop("a dataset is replaced inside a loop of symbolic length")
        old = self.value

        def undo():
            self.value = old
        I.journal.rec(self, "value", undo)

    def sym_len(self, I):
        from .builtins_ import b_len
        return b_len(I, [self.value], {})

    def sym_array(self, I):
        if not isinstance(self.value, Arr):
            raise Unsupported("stored string used as an array")
        return copy_arr(self.value)

    def sym_iter(self, I):
        return I.as_seq(copy_arr(self.value))

    def resize(self, I, a, kw):
        self.group.check(write=True)
        if not self.resizable:
            raise_("TypeError", "Only chunked datasets can be resized")
        size = a[0] if a else kw["size"]
        axis = a[1] if len(a) > 1 else kw.get("axis")
        if self.value.ndim != 1:
            raise Unsupported("resize of a dataset with several dimensions")
        if axis is None:
            s = I.iter_concrete(size) if not isnum(size) else None
            if s is None or len(s) != 1:
                raise_("TypeError", "shape")
            size = s[0]
        elif axis not in (0, -1):
            raise_("ValueError", "axis")
        n, old = P(size), self.value
        if not I.truth(num(int_ge(n, ZERO), "b")):
            raise_("ValueError", "negative size")
        rd, on = old.snapshot(), old.shape[0]
        self.touch(I)
        self.value = new_arr((n,), lambda ix: alg.ite(int_lt(ix[0], on), rd(ix), ZERO), old.dtype)

    def sym_getattr(self, I, n):
        from .interp import Builtin
        from . import attrs
        if n == "resize":
            return Builtin(n, lambda I, a, kw: self.resize(I, a, kw))
        if n in ("shape", "dtype", "ndim", "size"):
            return attrs.arr_attr(I, self.value, n)
        if n == "attrs":
            raise Unsupported("attributes of a dataset")
        if n == "maxshape":
            raise Unsupported("maxshape")
        raise Unsupported("Dataset." + n)


class Group(HeapObj):
    def __init__(self, file):
        self.id = next(_ids)
        self.file = file
        self.attrs = {}
        self.members = []
        self.log = None             # records the successive writes if a list

    def touch(self, I):
        if I.loops and I.h5_family is None:
            raise H5Loop("a group is written inside a loop of symbolic length")
        oa, om = dict(self.attrs), list(self.members)

        def undo():
            self.attrs, self.members = oa, om
        I.journal.rec(self, "members", undo)
        self.attrs, self.members = dict(oa), list(om)

    def check(self, write=False):
        if self.file.mode is None:
            raise_("ValueError", "Invalid location identifier (file is closed)")
        if write and self.file.mode == "r":
            raise_("OSError", "no write intent on file")

    def find(self, I, k):
        """Member value or None."""
        from . import ops
        k = key_of(I, k)
        if isinstance(k, str) and "/" in k:
            parts = [p for p in k.split("/") if p]
            g = self
            for p in parts[:-1]:
                g = g.find(I, p)
                if not isinstance(g, Group):
                    return None
            return g.find(I, parts[-1])
        for m in reversed(self.members):
            if m.idx is None:
                if I.truth(ops.str_eq(I, m.name, k)):
                    return m.value
            else:
                e = field_of(m.name, m.idx, k)
                if e is not None and I.truth(num(m.present(e), "b")):
                    return m.at(e)
        return None

    def put(self, I, k, v):
        self.check(write=True)
        k = key_of(I, k)
        if isinstance(k, str) and "/" in k:
            parts = [p for p in k.split("/") if p]
            g = self
            for p in parts[:-1]:
                g = require(I, g, p)
            return g.put(I, parts[-1], v)
        if I.h5_family is not None and self.id < I.h5_family.mark:
            self.touch(I)
            I.h5_family.items.append((self, k, v))
            return
        if self.find(I, k) is not None:
            raise_("ValueError", f"Unable to create dataset or group (name already exists): {k}")
        self.touch(I)
        self.members.append(Member(k, v))

    def sym_contains(self, I, k):
        self.check()
        return self.find(I, k) is not None

    def sym_getitem(self, I, k):
        self.check()
        v = self.find(I, k)
        if v is None:
            raise_("KeyError", f"Unable to open object '{k}'")
        return v

    def sym_setitem(self, I, k, v):
        self.put(I, k, make_dataset(I, self, v))

    def sym_delitem(self, I, k):
        self.check(write=True)
        from . import ops
        k = key_of(I, k)
        for j, m in enumerate(self.members):
            if m.idx is not None:
                if field_of(m.name, m.idx, k) is not None:
                    raise Unsupported("deletion from a family of members")
            elif I.truth(ops.str_eq(I, m.name, k)):
                self.touch(I)
                del self.members[j]
                return
        raise_("KeyError", "Couldn't delete link (name doesn't exist)")

    def names(self):
        if any(m.idx is not None or not isinstance(m.name, str) for m in self.members):
            raise Unsupported("iteration over unknown member names")
        return sorted(m.name for m in self.members)

    def sym_iter(self, I):
        self.check()
        return self.names()

    def sym_len(self, I):
        return len(self.names())

    def sym_getattr(self, I, n):
        from .interp import Builtin
        if n == "attrs":
            return AttrMap(self)
        if n == "create_group":
            def create_group(I, a, kw):
                g = Group(self.file)
                self.put(I, a[0] if a else kw["name"], g)
                return g
            return Builtin(n, create_group)
        if n == "require_group":
            return Builtin(n, lambda I, a, kw: require(I, self, a[0] if a else kw["name"]))
        if n == "create_dataset":
            return Builtin(n, lambda I, a, kw: create_dataset(I, self, a, kw))
        if n == "require_dataset":
            raise Unsupported("require_dataset")
        if n == "keys":
            return Builtin(n, lambda I, a, kw: PList(self.names()))
        if n == "values":
            return Builtin(n, lambda I, a, kw: PList([self.find(I, k) for k in self.names()]))
        if n == "items":
            return Builtin(n, lambda I, a, kw: PList([(k, self.find(I, k)) for k in self.names()]))
        if n == "get":
            def get(I, a, kw):
                v = self.find(I, a[0])
                return v if v is not None else (a[1] if len(a) > 1 else None)
            return Builtin(n, get)
        if n == "file":
            return File(self.file)
        if n == "flush":
            return Builtin(n, lambda I, a, kw: None)
        raise Unsupported("h5py.Group." + n)


class FileState:
    def __init__(self):
        self.mode = None
        self.root = Group(self)


class File:
    """An open handle: behaves as the root group."""

    def __init__(self, state):
        self.state = state

    def sym_enter(self, I):
        return self

    def sym_exit(self, I, e):
        set_mode(I, self.state, None)

    def sym_getattr(self, I, n):
        from .interp import Builtin
        if n == "close":
            return Builtin(n, lambda I, a, kw: set_mode(I, self.state, None))
        if n == "mode":
            return "r" if self.state.mode == "r" else "r+"
        return self.state.root.sym_getattr(I, n)

    def sym_getitem(self, I, k):
        return self.state.root.sym_getitem(I, k)

    def sym_setitem(self, I, k, v):
        return self.state.root.sym_setitem(I, k, v)

    def sym_delitem(self, I, k):
        return self.state.root.sym_delitem(I, k)

    def sym_contains(self, I, k):
        return self.state.root.sym_contains(I, k)

    def sym_iter(self, I):
        return self.state.root.sym_iter(I)

    def sym_len(self, I):
        return self.state.root.sym_len(I)


class PlainCM:
    pass


def set_mode(I, st, mode):
    old = st.mode

    def undo():
        st.mode = old
    I.journal.rec(st.root, "mode", undo)
    st.mode = mode


def require(I, g, k):
    v = g.find(I, k)
    if v is None:
        v = Group(g.file)
        g.put(I, k, v)
        return v
    if not isinstance(v, Group):
        raise_("TypeError", "Incompatible object already exists")
    return v


def make_dataset(I, g, v, **kw):
    if isinstance(v, (Group, File)):
        raise Unsupported("hard link")
    if isinstance(v, Dataset):
        v = v.value
    v = freeze(I, v)
    if not isinstance(v, (Arr, str, SymStr, tuple)):
        p = P(v)
        v = new_arr((), lambda ix: p, kind(v))
    return Dataset(v, group=g, **kw)


def f32(p):
    """Rounding to single precision."""
    return app("f32", (to_poly(p),), "real")


def create_dataset(I, g, a, kw):
    from . import npmod, ops
    kw = dict(kw)
    names = ("name", "shape", "dtype", "data")
    for n, v in zip(names, a):
        kw[n] = v
    shape, dtype, data = kw.get("shape"), kw.get("dtype"), kw.get("data")
    for k in kw:
        if k not in names + ("maxshape", "chunks", "compression", "compression_opts", "shuffle"):
            raise Unsupported(f"create_dataset({k}=)")
    mx = kw.get("maxshape")
    resizable = False
    if mx is not None:
        m = I.iter_concrete(mx) if not isnum(mx) else [mx]
        resizable = all(x is None for x in m)
        if not resizable:
            raise Unsupported("bounded maxshape")
    cast = None
    k = "f"
    dn = getattr(dtype, "name", dtype)
    if isinstance(dtype, DType):
        k = dtype.k
    elif dn in ("float32", "f4", "single", "<f4"):
        cast = f32
    elif dn in ("float16", "half", "f2", "f2"):
        cast = lambda p: app("f16", (to_poly(p),), "real")
    elif dn in ("float", "float64", "double", "f8", "f", "d"):
        if dn == "f":
            cast = f32
    elif dn in ("int", "int64", "i8", "int32"):
        k = "i"
    elif dtype is not None:
        raise Unsupported("dtype of a dataset")
    if data is not None:
        d = make_dataset(I, g, data, resizable=resizable, cast=cast)
        if isinstance(d.value, Arr):
            if dtype is None and d.value.dtype != "f":
                pass
            v = d.conv(I, d.value)
            if dtype is not None and v.dtype != k:
                v = npmod.cast(I, v, DType(k))
            d.value = copy_arr(v) if isinstance(v, Arr) else v
        if shape is not None:
            raise Unsupported("create_dataset with data and shape")
    else:
        if dtype is None:
            cast = f32
        sh = [shape] if isnum(shape) else I.iter_concrete(shape)
        d = Dataset(new_arr([P(x) for x in sh], lambda ix: ZERO, k), cast, g, resizable)
    g.put(I, kw["name"], d)
    return d


def open_file(I, a, kw):
    kw = dict(kw)
    path = a[0] if a else kw["name"]
    mode = a[1] if len(a) > 1 else kw.get("mode", "r")
    p = key_of(I, path)
    if not isinstance(p, str):
        raise Unsupported("symbolic file name")
    if I.loops:
        raise H5Loop("a file is opened inside a loop of symbolic length")
    st = I.files.get(p)
    if mode in ("r", "r+") and st is None:
        raise_("FileNotFoundError", f"Unable to open file {p}")
    if mode in ("w-", "x") and st is not None:
        raise_("FileExistsError", "Unable to create file")
    if mode not in ("r", "r+", "a", "w", "w-", "x"):
        raise_("ValueError", "Invalid mode")
    if st is None or mode in ("w", "w-", "x"):
        if st is not None and st.mode is not None:
            raise_("OSError", "unable to truncate a file which is already open")
        old = I.files.get(p)

        def undo():
            if old is None:
                I.files.pop(p, None)
            else:
                I.files[p] = old
        st = FileState()
        I.journal.rec(st.root, "file", undo)
        I.files[p] = st
    elif st.mode is not None and (st.mode == "r") != (mode == "r"):
        raise_("OSError", "unable to lock file: already open in another mode")
    set_mode(I, st, "r" if mode == "r" else "a")
    return File(st)


def delitem(I, o, ix):
    if hasattr(o, "sym_delitem"):
        return o.sym_delitem(I, ix)
    raise Unsupported("del item")


# ------------------------------------------------------------------ loops that write members

class Collector:
    def __init__(self, mark):
        self.mark = mark
        self.items = []


def family_loop(I, n, body):
    """for i in range(n): writes of members with the index in their names.  Everything else the body may
    write are local variables, whose values are not used afterwards."""
    from . import loops
    from .interp import Env, Poison
    n = to_poly(n)
    iname = I.ctx.fresh("i")
    I.ctx.bounds[iname] = n
    got = []
    col = Collector(next(_ids))
    ext = loops._save(I)
    I.h5_family = col

    def setup():
        col.items = []

    def collect(p):
        if p.exit is not None:
            raise Unsupported("a loop writing a file is left early")
        temps = []
        for obj, slot, _ in I.journal.log[p.mark:]:
            if getattr(obj, "id", 0) > p.idmark or isinstance(obj, (Group, Dataset)):
                continue
            if not isinstance(obj, Env):
                raise Unsupported("a loop writing a file also writes other data")
            temps.append((obj, slot))
        got.append((p, list(col.items), temps))
    try:
        loops.run_paths(I, iname, body, setup, (), frozenset(), collect)
    finally:
        I.h5_family = None
    loops._restore(I, ext)
    if len(got) != 1 or got[0][0].conds and any(iname in c.fv for c in got[0][0].conds):
        raise Unsupported("a loop writing a file branches on the index")
    _, items, temps = got[0]
    for k, (g, name, v) in enumerate(items):
        if not isinstance(name, SymStr):
            # the same name in every iteration: the second one raises
            if I.branch(int_ge(n, to_poly(2))):
                raise_("ValueError", "name already exists")
            raise Unsupported("constant name in a loop")
        field_of(name, iname, name)
        for m in g.members:
            if m.idx is None:
                hit = field_of(name, iname, m.name) if isinstance(m.name, str) else field_of(name, iname, m.name)
                if hit is not None:
                    raise Unsupported("family of names overlapping another name")
            else:
                a, b = m.name.parts[0], name.parts[0]
                if not (isinstance(a, str) and isinstance(b, str)) or a[:min(len(a), len(b))] == b[:min(len(a), len(b))]:
                    raise Unsupported("overlapping families of names")
        g.touch(I)
        if isinstance(v, Dataset):
            v.group = g
        g.members.append(Member(name, v, iname, n))
    for o, slot in temps:
        o.set(slot, Poison("temporary of a loop"))


# ------------------------------------------------------------------ modules

def module(I):
    from .interp import PModule, Builtin
    m = PModule("h5py")
    m.attrs["File"] = Builtin("File", open_file)
    m.attrs["Group"] = "h5py.Group"
    return m


def pathlib_module(I):
    from .interp import PModule, Builtin
    m = PModule("pathlib")
    m.attrs["Path"] = Builtin("Path", lambda I, a, kw: make_path(I, a))
    return m


def make_path(I, a):
    s = [x.s if isinstance(x, PathVal) else x for x in a]
    if not all(isinstance(x, str) for x in s):
        if all(isinstance(x, (str, SymStr)) for x in s) and len(s) == 1:
            return PathVal(s[0])
        raise PyRaise("TypeError", ("expected str, bytes or os.PathLike object",))
    return PathVal("/".join(s))
