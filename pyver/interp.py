"""Symbolic interpreter for the Python source of the verified repository.

The functions executed are the ones in /repo's working tree, parsed on every
run.  Nothing is translated by hand: statements are executed one by one over
symbolic values (vals.py); undecided branches fork the path; loops of symbolic
length are summarised (loops.py) or cut at an invariant supplied by a contract.
"""
import ast
import os
import builtins as pybuiltins
from fractions import Fraction
from . import alg
from .alg import (Poly, to_poly, ONE, ZERO, Undecided, ind, int_eq, int_ge, int_lt, fn, inv, var)
from .vals import *
from .vals import _MISSING, _ids


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathEnd(Exception):
    """The path is finished (infeasible, or the body of a cut loop is done)."""


class Hoist(Exception):
    """A decision inside a symbolic loop that does not depend on the loop."""

    def __init__(self, cond):
        self.cond = cond


# ------------------------------------------------------------------ program objects

class PModule:
    def __init__(self, name, attrs=None, lazy=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}
        self.lazy = lazy

    def get(self, n):
        if n in self.attrs:
            return self.attrs[n]
        if self.lazy is not None:
            v = self.lazy(n)
            if v is not None:
                self.attrs[n] = v
                return v
        raise KeyError(n)


class PFunc:
    def __init__(self, node, module, env, name, qualname, defaults, kwdefaults, cls=None):
        self.node, self.module, self.env, self.name, self.qualname = node, module, env, name, qualname
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}

    def __repr__(self):
        return f"<function {self.module.name}.{self.qualname}>"

    @property
    def fullname(self):
        return f"{self.module.name}.{self.qualname}"


class Bound:
    def __init__(self, f, obj):
        self.f, self.obj = f, obj


class Builtin:
    """Native function: fn(I, args, kwargs)."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<builtin {self.name}>"


class PProp:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class PClassMethod:
    def __init__(self, f):
        self.f = f


class PStatic:
    def __init__(self, f):
        self.f = f


class PClass:
    def __init__(self, name, bases, attrs, module):
        self.name, self.bases, self.attrs, self.module = name, bases, attrs, module
        self.mro = self._c3()

    def _c3(self):
        def merge(seqs):
            out = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return out
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("inconsistent class hierarchy")
                out.append(h)
                for s in seqs:
                    if s[0] is h:
                        del s[0]
        return [self] + merge([list(b.mro) for b in self.bases] + [list(self.bases)])

    def lookup(self, n):
        for c in self.mro:
            if n in c.attrs:
                return c.attrs[n]
        return _MISSING

    def __repr__(self):
        return f"<class {self.name}>"


OBJECT = PClass("object", [], {}, None)


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class ExcClass:
    """Builtin exception type."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<exception {self.name}>"


EXC_PARENTS = {}


def _exc_parents():
    for n in dir(pybuiltins):
        o = getattr(pybuiltins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            EXC_PARENTS[n] = [c.__name__ for c in o.__mro__]
    EXC_PARENTS["LinAlgError"] = ["LinAlgError", "ValueError", "Exception", "BaseException", "object"]


_exc_parents()


class Env(HeapObj):
    """Local variable frame."""
    __slots__ = ("id", "vars", "parent", "module", "func", "globals_", "nonlocals")

    def __init__(self, module, parent=None, func=None):
        self.id = next(_ids)
        self.vars = {}
        self.parent = parent
        self.module = module
        self.func = func
        self.globals_ = set()
        self.nonlocals = set()

    def set(self, n, v):
        old = self.vars.get(n, _MISSING)

        def undo():
            if old is _MISSING:
                self.vars.pop(n, None)
            else:
                self.vars[n] = old
        S().journal.rec(self, n, undo)
        self.vars[n] = v


class Poison:
    """A loop-carried local whose value is not tracked; reading it is outside the dialect."""

    def __init__(self, why):
        self.why = why


class SymSeq:
    """Lazy iterable of symbolic length."""
    __slots__ = ("n", "getf")

    def __init__(self, n, getf):
        self.n, self.getf = n, getf


class Frac:
    pass


# ------------------------------------------------------------------ decision making

class Explorer:
    """Depth-first enumeration of undecided branches by re-execution."""

    def __init__(self, limit=4000):
        self.trace = []         # list of [choice, n_alternatives]
        self.pos = 0
        self.limit = limit
        self.paths = 0

    def choose(self, n=2):
        if self.pos < len(self.trace):
            c = self.trace[self.pos][0]
        else:
            c = 0
            self.trace.append([0, n])
        self.pos += 1
        return c

    def advance(self):
        """Move to the next path; False when done."""
        self.paths += 1
        if self.paths > self.limit:
            raise Undecided("too many paths")
        del self.trace[self.pos:]
        while self.trace:
            if self.trace[-1][0] + 1 < self.trace[-1][1]:
                self.trace[-1][0] += 1
                self.pos = 0
                return True
            self.trace.pop()
        return False


class Interp:
    """One symbolic execution (one path of the global explorer)."""

    def __init__(self, repo, explorer, ctx, oracle, contracts=None, cache=None):
        self.repo = repo
        self.explorer = explorer
        self.ctx = ctx
        self.oracle = oracle
        self.journal = Journal()
        self.modules = {}
        self.loops = []             # active symbolic loop variables (names)
        self.local_explorers = []   # stack of (explorer, loop var names, placeholders)
        self.contracts = contracts or {}
        self.tiny_zero = False
        self.loop_hooks = {}        # qualname -> loop cut handler
        self.obligations = []       # (name, ok, detail)
        self.executed = set()
        self.used_contracts = set()
        self.externals_used = set()
        self.assumed = []           # recorded side conditions that were assumed
        self.depth = 0
        self.line = None
        self.printed = []
        self.ext_memo = {}
        self.ext_calls = []
        self.ext_all = []           # every record ever made (records of generic iterations included)
        self.ext_hooks = {}
        self.random = []            # fresh random values drawn
        self.universe = {}
        self.definedness = []       # undischarged definedness conditions
        self.definedness_ok = 0
        self.check_defined = True
        self.files = {}
        self.h5_family = None
        self.ghost_hooks = {}
        self.nexted = {}        # iterators advanced by next(): later uses are not modelled
        self.write_watch = None
        self.steps = 0
        self.fresh_after = None     # allocation stamp (frame checks)
        Session.cur = self
        from . import npmod, builtins_
        self.np = npmod
        self.builtins = builtins_.make(self)

    # ---- hooks from vals
    def loop_vars(self):
        return self.loops

    def on_alloc(self, b):
        b.loopix = tuple(self.loops)

    def on_buf_write(self, b):
        if self.write_watch is not None:
            self.write_watch(b)

    def loop_hook(self, st, env):
        if not self.loop_hooks or env.func is None:
            return None
        return self.loop_hooks.get(env.func.fullname) or self.loop_hooks.get("*")

    def obj_depends(self, o, mp):
        return True

    # ---- decisions
    def prove(self, cond):
        """True if the 0/1 term holds in every model of the path."""
        c = cond.const()
        if c is not None:
            return c == 1
        ok, _ = self.oracle.prove_bool(cond, rlimit=2000000)
        return ok

    def branch(self, cond):
        """Decide a 0/1 condition, forking if necessary; the choice is assumed."""
        c = cond.const()
        if c is not None:
            return c == 1
        if self.prove(cond):
            self.ctx.assume(cond)
            return True
        if self.prove(ONE - cond):
            self.ctx.assume(ONE - cond)
            return False
        if self.local_explorers:
            ex, names = self.local_explorers[-1]
            if not self._depends(cond, names):
                raise Hoist(cond)
            ch = ex.choose(2)
        else:
            ch = self.explorer.choose(2)
        if ch == 0:
            self.ctx.assume(cond)
            return True
        self.ctx.assume(ONE - cond)
        return False

    def _depends(self, cond, names):
        if cond.fv & names[0]:
            return True
        found = [False]

        def visit(a):
            if a.kind == "app" and a.data[0] in names[1]:
                found[0] = True
        alg._walk_atoms(cond, visit)
        return found[0]

    def pick(self, n):
        """Nondeterministic choice among n alternatives (global)."""
        if self.local_explorers:
            raise Unsupported("nondeterministic choice inside a summarised loop")
        return self.explorer.choose(n)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Num):
            if v.k == "b":
                return self.branch(v.p)
            if v.k == "i":
                return self.branch(ONE - ind("eqi", v.p))
            return self.branch(ONE - ind("eqr", v.p))
        if isinstance(v, (int, float, str, Fraction)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            if v.items is not None:
                return len(v.items) > 0
            return self.branch(ind("ge", v.n - 1))
        if isinstance(v, SymTuple):
            return self.branch(ind("ge", v.n - 1))
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, PSet):
            return len(v.s) > 0
        if isinstance(v, Arr):
            if all(d.const() == 1 for d in v.shape):
                return self.truth(num(v.at((ZERO,) * v.ndim), v.dtype))
            raise PyRaise("ValueError", ("The truth value of an array with more than one element is ambiguous",))
        if isinstance(v, PObj):
            m = v.cls.lookup("__bool__")
            if m is not _MISSING:
                return self.truth(self.call(Bound(m, v), [], {}))
            m = v.cls.lookup("__len__")
            if m is not _MISSING:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, SymStr):
            return True
        return True

    def assume(self, p):
        self.ctx.assume(p)

    # ---- obligations
    def oblige(self, name, cond, extra=()):
        """Check a 0/1 condition; record the result.  Returns True when discharged."""
        if isinstance(cond, bool):
            ok, model = cond, None
            how = "eval"
        else:
            c = cond.const()
            if c is not None:
                ok, model, how = (c == 1), None, "normaliser"
            else:
                ok, model = self.oracle.prove_bool(cond, extra=extra)
                how = "z3"
        self.obligations.append({"name": name, "ok": ok, "how": how, "cond": None if ok else _short(cond), "model": model})
        return ok

    def oblige_eq(self, name, a, b):
        """Check that two terms are equal in every model of the path."""
        d = to_poly(a) - to_poly(b)
        if d.is_zero():
            self.obligations.append({"name": name, "ok": True, "how": "normaliser", "cond": None, "model": None, "eq": (to_poly(a), to_poly(b))})
            return True
        d2 = self.simplify(d)
        if d2.is_zero():
            self.obligations.append({"name": name, "ok": True, "how": "normaliser", "cond": None, "model": None})
            return True
        return self.oblige(name, ind("eqr", d2))

    def simplify(self, p):
        """Re-normalise a term under the present path condition."""
        p = alg.renorm(p)
        for _ in range(4):
            if p.is_zero():
                break
            mp = self.fixed_variable(p.fv)
            if not mp:
                break
            p = alg.renorm(alg.subst(p, mp))
        return p

    def fixed_variable(self, names):
        """An integer variable of ``names`` that the path condition determines, as a substitution."""
        def value(n, q):
            # q == 0 with n linear in q (coefficient +-1)
            (a,) = [a for a in q.atoms() if a.kind == "v" and a.data[0] == n] or (None,)
            if a is None:
                return None
            c = q.t.get(((a, 1),))
            r = q - alg.atom_poly(a) * c if c in (1, -1) else None
            if r is None or n in r.fv:
                return None
            return -r if c == 1 else r
        cand = []
        for e in self.ctx.pc:
            neg = len(e.t) == 2 and e.t.get(()) == 1
            if len(e.t) != 1 and not neg:
                continue
            (m, c), = [(m, c) for m, c in e.t.items() if m or not neg]
            if c != (-1 if neg else 1) or len(m) != 1 or m[0][0].kind != "ind":
                continue
            k, q = m[0][0].data[0], m[0][0].data[1]
            if k == "ge":
                cand.append(("ge", -1 - q if neg else q))
            elif k == "eqi" and not neg:
                cand.append(("eq", q))
        # constants first
        for n in sorted(names):
            lo = self.ctx.lower.get(n)
            if lo is not None and any(n in q.fv for k, q in cand) and self.oracle is not None \
                    and self.oracle.prove_bool(ind("ge", lo - alg.var(n)))[0]:
                return {n: to_poly(lo)}
        for k, q in cand:
            # q >= 0 is tight when -q >= 0 follows as well
            for n in sorted(q.fv & names):
                v = value(n, q)
                if v is not None and (k == "eq" or self.oracle is not None and self.oracle.prove_bool(ind("ge", -q))[0]):
                    return {n: v}
        return None

    def defined(self, cond, what):
        """Definedness side condition (non-zero divisor, ...)."""
        if not self.check_defined:
            return
        if cond.const() == 1:
            self.definedness_ok += 1
            return
        if self.prove(cond):
            self.definedness_ok += 1
            return
        self.definedness.append((what, self.where(), _short(cond)))

    def where(self):
        return self.line or "?"

    # ---- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.repo.path_of(name)
        if path is not None and "." in name:
            self.import_module(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        if path is None:
            from . import npmod
            m = npmod.external_module(self, name)
            self.modules[name] = m
            return m
        m = PModule(name)
        self.modules[name] = m
        m.is_pkg = path.endswith("__init__.py")
        m.attrs["__name__"] = name
        tree = self.repo.tree(path)
        env = Env(m)
        env.vars = m.attrs
        self._exec_module(tree, env, m)
        return m

    def _exec_module(self, tree, env, m):
        for st in tree.body:
            self.exec_stmt(st, env)

    def resolve_import(self, module, level, name):
        if level == 0:
            return name
        parts = module.name.split(".")
        if not getattr(module, "is_pkg", False):
            parts = parts[:-1]
        parts = parts[:len(parts) - (level - 1)]
        return ".".join(parts + ([name] if name else []))

    # ---- names
    def lookup(self, env, n):
        e = env
        if n not in env.globals_:
            while e is not None:
                if n in e.vars:
                    v = e.vars[n]
                    if isinstance(v, Poison):
                        raise Unsupported(f"read of {n}: {v.why}")
                    return v
                e = e.parent
        m = env.module
        if n in m.attrs:
            return m.attrs[n]
        if n in self.builtins:
            return self.builtins[n]
        if n in EXC_PARENTS:
            return ExcClass(n)
        # local name assigned somewhere in the function -> UnboundLocalError
        raise PyRaise("UnboundLocalError" if env.func is not None else "NameError", (n,))

    # ---- statements
    def exec_block(self, stmts, env):
        for st in stmts:
            self.exec_stmt(st, env)

    def exec_stmt(self, st, env):
        self.steps += 1
        if self.steps > 2000000:
            raise Undecided("too many steps")
        if hasattr(st, "lineno"):
            self.line = f"{env.module.name}:{st.lineno}"
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {self.where()}")
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            self.ev(st.value, env)
            return
        self.ev(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def st_AugAssign(self, st, env):
        from . import ops
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.ev(st.value, env)
            self.assign(t, ops.iop(self, st.op, cur, v), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.ev(st.value, env)
            self.setattr(o, t.attr, ops.iop(self, st.op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            ix = self.ev_index(t.slice, env)
            if isinstance(o, Arr):
                from . import attrs
                mk = attrs.partial_mask(self, o, ix)
                if mk is not None:
                    attrs.partial_mask_aug(self, st.op, o, mk, self.ev(st.value, env))
                    return
            cur = self.getitem(o, ix)
            v = self.ev(st.value, env)
            self.setitem(o, ix, ops.iop(self, st.op, cur, v))
        else:
            raise Unsupported("augmented assignment target")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            n = t.id
            if n in env.globals_:
                raise Unsupported("global assignment")
            if n in env.nonlocals:
                e = env.parent
                while e is not None and n not in e.vars:
                    e = e.parent
                e.set(n, v)
                return
            env.set(n, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, PList(list(self.iter_concrete(v))), env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v, env):
        items = self.iter_concrete(v, expect=len(elts))
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            k = stars[0]
            tail = len(elts) - k - 1
            if len(items) < len(elts) - 1:
                raise PyRaise("ValueError", ("not enough values to unpack",))
            for e, x in zip(elts[:k], items[:k]):
                self.assign(e, x, env)
            self.assign(elts[k].value, PList(list(items[k:len(items) - tail])), env)
            for e, x in zip(elts[k + 1:], items[len(items) - tail:]):
                self.assign(e, x, env)
            return
        if len(items) != len(elts):
            raise PyRaise("ValueError", (f"cannot unpack {len(items)} values into {len(elts)}",))
        for e, x in zip(elts, items):
            self.assign(e, x, env)

    def st_Return(self, st, env):
        raise ReturnEx(self.ev(st.value, env) if st.value is not None else None)

    def st_If(self, st, env):
        if self.truth(self.ev(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_For(self, st, env):
        from . import loops
        it = self.ev(st.iter, env)
        loops.for_loop(self, st, it, env)

    def st_While(self, st, env):
        from . import loops
        loops.while_loop(self, st, env)

    def st_Break(self, st, env):
        raise BreakEx()

    def st_Continue(self, st, env):
        raise ContinueEx()

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        env.set(st.name, v)

    def make_func(self, st, env, cls=None):
        a = st.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [self.ev(d, env) if d is not None else _MISSING for d in a.kw_defaults]
        name = getattr(st, "name", "<lambda>")
        qual = name
        if getattr(env, "clsname", None):
            qual = env.clsname + "." + name
        elif env.func is not None:
            qual = env.func.qualname + ".<locals>." + name
        parent = env if env.func is not None or env.parent is not None else None
        if isinstance(env, ClassEnv):
            parent = env.outer
        return PFunc(st, env.module, parent, name, qual, defaults, kwd, cls)

    def st_ClassDef(self, st, env):
        bases = [self.ev(b, env) for b in st.bases]
        bs = []
        for b in bases:
            if isinstance(b, PClass):
                bs.append(b)
            elif isinstance(b, ExcClass):
                raise Unsupported("exception subclass")
            else:
                continue            # ABC and friends
        if not bs:
            bs = [OBJECT]
        ce = ClassEnv(env.module, env, st.name)
        for s in st.body:
            self.exec_stmt(s, ce)
        cls = PClass(st.name, bs, dict(ce.vars), env.module)
        for v in cls.attrs.values():
            f = v
            if isinstance(f, PProp):
                for g in (f.fget, f.fset):
                    if isinstance(g, PFunc) and g.cls is None:
                        g.cls = cls
                continue
            if isinstance(f, (PClassMethod, PStatic)):
                f = f.f
            if isinstance(f, PFunc) and f.cls is None:
                f.cls = cls
        v = cls
        for d in reversed(st.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        env.set(st.name, v)

    def st_Import(self, st, env):
        for a in st.names:
            m = self.import_module(a.name)
            if a.asname:
                env.set(a.asname, m)
            else:
                top = a.name.split(".")[0]
                if top != a.name:
                    t = self.import_module(top)
                    sub = t
                    for part in a.name.split(".")[1:]:
                        full = sub.name + "." + part
                        mm = self.import_module(full)
                        sub.attrs[part] = mm
                        sub = mm
                    env.set(top, t)
                else:
                    env.set(top, m)

    def st_ImportFrom(self, st, env):
        base = self.resolve_import(env.module, st.level, st.module or "")
        m = self.import_module(base)
        for a in st.names:
            if a.name == "*":
                names = m.attrs.get("__all__")
                names = [x for x in names.items] if isinstance(names, PList) else [n for n in m.attrs if not n.startswith("_")]
                for n in names:
                    env.set(n, m.attrs[n])
                continue
            try:
                v = m.get(a.name)
            except KeyError:
                if self.repo.path_of(base + "." + a.name) is not None:
                    v = self.import_module(base + "." + a.name)
                    m.attrs[a.name] = v
                else:
                    raise PyRaise("ImportError", (f"cannot import name {a.name} from {base}",))
            env.set(a.asname or a.name, v)

    def st_Global(self, st, env):
        env.globals_ |= set(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                old = env.vars.get(t.id, _MISSING)
                if old is _MISSING:
                    raise PyRaise("NameError", (t.id,))
                n = t.id

                def undo(old=old, n=n):
                    env.vars[n] = old
                self.journal.rec(env, n, undo)
                del env.vars[n]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, PObj):
                    o.delattr(t.attr)
                else:
                    raise Unsupported("del attribute")
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                ix = self.ev_index(t.slice, env)
                if isinstance(o, PDict):
                    o.save()
                    del o.d[self.hashable(ix)]
                elif isinstance(o, PList) and o.items is not None and isinstance(ix, int):
                    o.save()
                    del o.items[ix]
                else:
                    from . import h5model
                    h5model.delitem(self, o, ix)

    def st_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env)):
            raise PyRaise("AssertionError", (self.ev(st.msg, env) if st.msg is not None else "",))

    def st_Raise(self, st, env):
        if st.exc is None:
            cur = getattr(env, "handling", None)
            raise self.current_exc if getattr(self, "current_exc", None) else PyRaise("RuntimeError")
        e = self.ev(st.exc, env)
        raise self.to_exc(e)

    def to_exc(self, e):
        if isinstance(e, ExcClass):
            return PyRaise(e.name)
        if isinstance(e, PyRaise):
            return e
        raise Unsupported(f"raise of {type(e).__name__}")

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e, self.ev(h.type, env)):
                        if h.name:
                            env.set(h.name, e)
                        old = getattr(self, "current_exc", None)
                        self.current_exc = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.current_exc = old
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody:
                import sys
                et = sys.exc_info()[0]
                if et is None or issubclass(et, (PyRaise, ReturnEx, BreakEx, ContinueEx)):
                    self.exec_block(st.finalbody, env)

    def exc_matches(self, e, t):
        if isinstance(t, tuple):
            return any(self.exc_matches(e, x) for x in t)
        if isinstance(t, ExcClass):
            return t.name in EXC_PARENTS.get(e.etype, [e.etype])
        raise Unsupported("exception handler type")

    def st_With(self, st, env):
        self._with(st.items, st.body, env)

    def _with(self, items, body, env):
        if not items:
            return self.exec_block(body, env)
        it = items[0]
        cm = self.ev(it.context_expr, env)
        enter, exit_ = self.context_manager(cm)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            self._with(items[1:], body, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx) as e:
            exit_(e)
            raise
        exit_(None)

    def context_manager(self, cm):
        if isinstance(cm, PObj):
            en, ex = cm.cls.lookup("__enter__"), cm.cls.lookup("__exit__")
            return (lambda: self.call(Bound(en, cm), [], {}),
                    lambda e: self.call(Bound(ex, cm), [None, None, None], {}))
        if hasattr(cm, "sym_enter"):
            return (lambda: cm.sym_enter(self)), (lambda e: cm.sym_exit(self, e))
        raise Unsupported(f"context manager {type(cm).__name__}")

    # ---- expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {self.where()}")
        return m(e, env)

    def ev_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            if self.tiny_zero and abs(v) < 1e-12:
                v = 0.0         # stabilising constants below rounding errors (stated as an assumption by the goal)
            return Num(to_poly(v), "f")
        return v

    def ev_Name(self, e, env):
        return self.lookup(env, e.id)

    def ev_Tuple(self, e, env):
        return tuple(self.ev_list(e.elts, env))

    def ev_List(self, e, env):
        out = self.ev_list(e.elts, env)
        if out and any(isinstance(x, _SymSplat) for x in out):
            return self.splat_list(out)
        return PList(out)

    def ev_list(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                s = self.as_seq(v)
                if isinstance(s, SymSeq):
                    out.append(_SymSplat(s))
                else:
                    out.extend(s)
            else:
                out.append(self.ev(x, env))
        return out

    def splat_list(self, parts):
        """[*seq, x, ...] with a symbolic-length part."""
        segs = []
        for p in parts:
            if isinstance(p, _SymSplat):
                segs.append((p.s.n, p.s.getf))
            else:
                segs.append((ONE, lambda j, p=p: p))
        return self.concat_segs(segs)

    def concat_segs(self, segs):
        total = ZERO
        starts = []
        for n, g in segs:
            starts.append(total)
            total = total + n

        def get(j):
            for (n, g), s in zip(segs, starts):
                off = j - s
                if self.prove(ind("ge", off) * int_lt(off, n)):
                    return g(off)
            vals = [(ind("ge", j - s) * int_lt(j - s, n), g, j - s) for (n, g), s in zip(segs, starts)]
            # merge numbers
            r = ZERO
            k = None
            for c, g, off in vals:
                if not c.t:
                    continue
                v = g(off)
                if not isnum(v):
                    raise Unsupported("merge of list segments with non-numeric elements")
                r = r + c * P(v)
                k = kind(v) if k is None else join_kind(k, kind(v))
            return num(r, k)
        return PList(None, total, get)

    def ev_Set(self, e, env):
        from . import builtins_
        return builtins_.b_set(self, [PList([self.ev(x, env) for x in e.elts])], {})

    def ev_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                d.update(o.d)
            else:
                d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return PDict(d)

    def hashable(self, k):
        if isinstance(k, Num):
            raise Unsupported("symbolic dictionary key")
        if isinstance(k, SymStr):
            return k.key
        return k

    def ev_BinOp(self, e, env):
        from . import ops
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return ops.binop(self, e.op, a, b)

    def ev_UnaryOp(self, e, env):
        from . import ops
        return ops.unop(self, e.op, self.ev(e.operand, env))

    def ev_BoolOp(self, e, env):
        # short circuit; symbolic operands that cannot be decided fork
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Num) else False if v.k == "b" else v
            if isinstance(e.op, ast.Or) and t:
                return v if not (isinstance(v, Num) and v.k == "b") else True
        return v

    def ev_Compare(self, e, env):
        from . import ops
        left = self.ev(e.left, env)
        res = True
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            c = ops.compare(self, op, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return False
            left = right
        return True

    def ev_IfExp(self, e, env):
        if self.truth(self.ev(e.test, env)):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Lambda(self, e, env):
        return self.make_func(e, env)

    def ev_JoinedStr(self, e, env):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value, env)
                spec = ""
                if x.format_spec is not None:
                    spec = self.ev(x.format_spec, env)
                parts.append(self.format_value(v, spec, x.conversion))
        return self.join_str(parts)

    def join_str(self, parts):
        flat = []
        for p in parts:
            if isinstance(p, SymStr):
                flat.extend(p.parts)
            else:
                flat.append(p)
        out = []
        for p in flat:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        return SymStr(out)

    def format_value(self, v, spec="", conv=-1):
        if isinstance(spec, SymStr):
            return "?"
        if isinstance(v, Num):
            if v.k == "i":
                return SymStr([(v.p, spec)])
            return "<num>"
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            try:
                return format(v, spec)
            except ValueError:
                raise PyRaise("ValueError", (f"bad format {spec}",))
        if isinstance(v, SymStr):
            return v
        if isinstance(v, (bool, float)) or v is None:
            return format(v, spec) if spec and not (v is None) else str(v)
        return "<obj>"

    def ev_FormattedValue(self, e, env):
        return self.format_value(self.ev(e.value, env))

    def ev_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def ev_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iter_concrete(self.ev(x.value, env)))
                else:
                    out.append(self.ev_index(x, env))
            return tuple(out)
        return self.ev(s, env)

    def ev_Slice(self, s, env):
        return self.ev_index(s, env)

    def ev_Starred(self, e, env):
        raise Unsupported("starred expression")

    def ev_ListComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "list")

    def ev_GeneratorExp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "gen")

    def ev_SetComp(self, e, env):
        from . import loops
        v = loops.comprehension(self, e, env, "list")
        return PSet(v.items)

    def ev_DictComp(self, e, env):
        from . import loops
        return loops.comprehension(self, e, env, "dict")

    def ev_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        ys = self.yield_stack[-1]
        ys.append(v)
        return None

    yield_stack = []

    # ---- calls
    def ev_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env.vars:
            args = [self.ev(a, env) for a in e.args]
            if args:
                return Super(args[0], args[1])
            f = env
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported("super() outside a method")
            first = f.func.node.args.args[0].arg
            return Super(f.func.cls, f.vars[first])
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                s = self.as_seq(v)
                if isinstance(s, SymSeq):
                    args.append(_SymSplat(s))
                else:
                    args.extend(s)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, PDict):
                    raise Unsupported("** of a non-dictionary")
                for kk, vv in d.d.items():
                    if kk in kw:
                        raise PyRaise("TypeError", (f"got multiple values for keyword argument '{kk}'",))
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise PyRaise("TypeError", (f"got multiple values for keyword argument '{k.arg}'",))
                kw[k.arg] = self.ev(k.value, env)
        ln = self.line
        r = self.call(f, args, kw)
        self.line = ln
        return r

    def call(self, f, args, kw):
        if isinstance(f, Builtin):
            return f.f(self, args, kw)
        if isinstance(f, PFunc):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, PClass):
            return self.new(f, args, kw)
        if isinstance(f, ExcClass):
            return PyRaise(f.name, tuple(args))
        if isinstance(f, PClassMethod):
            raise Unsupported("unbound classmethod")
        if isinstance(f, PObj):
            m = f.cls.lookup("__call__")
            if m is not _MISSING:
                return self.call(Bound(m, f), args, kw)
        if isinstance(f, PStatic):
            return self.call(f.f, args, kw)
        if callable(f) and not isinstance(f, (HeapObj,)):
            return f(self, args, kw)
        raise PyRaise("TypeError", (f"{type(f).__name__} object is not callable",))

    def new(self, cls, args, kw):
        for c in cls.mro:
            for n, v in c.attrs.items():
                if getattr(v, "abstract", False) and cls.lookup(n) is v:
                    raise PyRaise("TypeError", (f"Can't instantiate abstract class {cls.name} with abstract method {n}",))
        o = PObj(cls)
        init = cls.lookup("__init__")
        if init is not _MISSING:
            self.call(Bound(init, o), args, kw)
        elif args or kw:
            raise PyRaise("TypeError", (f"{cls.name}() takes no arguments",))
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        n = len(pos)
        extra = list(args[n:])
        if len(args) and any(isinstance(x, _SymSplat) for x in args):
            if len(pos) == 0 or all(not isinstance(x, _SymSplat) for x in args[:n]):
                pass
            else:
                raise Unsupported("symbolic-length argument list")
        for p, v in zip(pos, args):
            vals[p] = v
        if extra and a.vararg is None:
            raise PyRaise("TypeError", (f"{f.name}() takes {n} positional arguments but {len(args)} were given",))
        if a.vararg is not None:
            if any(isinstance(x, _SymSplat) for x in extra):
                if len(extra) == 1:
                    vals[a.vararg.arg] = SymTuple(extra[0].s.n, extra[0].s.getf)
                else:
                    raise Unsupported("symbolic-length argument list")
            else:
                vals[a.vararg.arg] = tuple(extra)
        for p in pos:
            if p in kw:
                if p in vals:
                    raise PyRaise("TypeError", (f"{f.name}() got multiple values for argument '{p}'",))
                vals[p] = kw.pop(p)
        d = f.defaults
        for p, v in zip(pos[n - len(d):], d):
            if p not in vals:
                vals[p] = v
        for p in pos:
            if p not in vals:
                raise PyRaise("TypeError", (f"{f.name}() missing required argument: '{p}'",))
        for k, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults[k] is not _MISSING:
                vals[x.arg] = f.kwdefaults[k]
            else:
                raise PyRaise("TypeError", (f"{f.name}() missing keyword argument '{x.arg}'",))
        if kw and a.kwarg is None:
            raise PyRaise("TypeError", (f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'",))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(kw)
        return vals

    def call_func(self, f, args, kw):
        c = self.contracts.get(f.fullname)
        if c is not None:
            r = c.apply(self, f, args, kw)
            if r is not NotImplemented:
                self.used_contracts.add(f.fullname)
                return r
        return self.run_body(f, args, kw)

    def run_body(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            raise Undecided("call depth")
        try:
            vals = self.bind_args(f, args, kw)
            env = Env(f.module, f.env, f)
            env.vars = vals
            self.executed.add(f.fullname)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            isgen = getattr(f.node, "_isgen", None)
            if isgen is None:
                isgen = f.node._isgen = _has_yield(f.node)
            if isgen:
                self.yield_stack.append([])
                try:
                    try:
                        self.exec_block(f.node.body, env)
                    except ReturnEx:
                        pass
                    return PList(self.yield_stack[-1])
                finally:
                    self.yield_stack.pop()
            try:
                self.exec_block(f.node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    # ---- attributes and items
    def getattr(self, o, n):
        from . import attrs
        return attrs.getattr_(self, o, n)

    def setattr(self, o, n, v):
        if isinstance(o, PObj):
            d = o.cls.lookup(n)
            if isinstance(d, PProp):
                if d.fset is None:
                    raise PyRaise("AttributeError", (f"property '{n}' of '{o.cls.name}' object has no setter",))
                self.call(Bound(d.fset, o), [v], {})
                return
            o.setattr(n, v)
            return
        if isinstance(o, Arr) and n == "shape":
            raise Unsupported("assignment to .shape")
        if isinstance(o, PFunc):
            o.attrs[n] = v
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}.{n}")

    def getitem(self, o, ix):
        from . import attrs
        return attrs.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        from . import attrs
        return attrs.setitem(self, o, ix, v)

    # ---- sequences
    def as_seq(self, v):
        """Python list of values, or SymSeq."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, PList):
            if v.id in self.nexted:
                raise Unsupported("use of an iterator after next()")
            if v.items is not None:
                return list(v.items)
            return SymSeq(v.n, v.getf)
        if isinstance(v, SymTuple):
            return SymSeq(v.n, v.getf)
        if isinstance(v, SymSeq):
            c = v.n.const()
            if c is not None:
                return [v.getf(to_poly(k)) for k in range(int(c))]
            return v
        if isinstance(v, Arr):
            from . import attrs
            if v.ndim == 0:
                raise PyRaise("TypeError", ("iteration over a 0-d array",))
            n = v.shape[0]
            c = n.const()
            if c is not None:
                return [attrs.arr_getitem(self, v, k) for k in range(int(c))]
            if v.ndim == 1:
                return SymSeq(n, lambda j: num(v.at((to_poly(j),)), v.dtype))
            return SymSeq(n, lambda j: attrs.arr_getitem(self, v, num(j, "i")))
        if isinstance(v, PDict):
            return list(v.d.keys())
        if isinstance(v, PSet):
            return list(v.s)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, PObj):
            m = v.cls.lookup("__iter__")
            if m is not _MISSING:
                return self.as_seq(self.call(Bound(m, v), [], {}))
            g = v.cls.lookup("__getitem__")
            ln = v.cls.lookup("__len__")
            if g is not _MISSING:
                # legacy protocol: ends at IndexError; the length is that of __len__ when present
                if ln is not _MISSING:
                    n = self.call(Bound(ln, v), [], {})
                    if isinstance(n, int):
                        return [self.call(Bound(g, v), [k], {}) for k in range(n)]
                    return SymSeq(P(n), lambda j: self.call(Bound(g, v), [num(j, "i")], {}))
        if hasattr(v, "sym_iter"):
            return v.sym_iter(self)
        raise PyRaise("TypeError", (f"'{_tyname(v)}' object is not iterable",))

    def iter_concrete(self, v, expect=None):
        s = self.as_seq(v)
        if isinstance(s, SymSeq):
            if expect is not None:
                if self.branch(int_eq(s.n, expect)):
                    return [s.getf(to_poly(k)) for k in range(expect)]
                raise PyRaise("ValueError", ("unpacking length mismatch",))
            raise Unsupported("symbolic-length sequence where a concrete one is needed")
        return s


class _SymSplat:
    def __init__(self, s):
        self.s = s


class ClassEnv(Env):
    __slots__ = ("clsname", "outer")

    def __init__(self, module, outer, name):
        Env.__init__(self, module, outer if outer.func is not None else None)
        self.clsname = name
        self.outer = outer if outer.func is not None else None


def _has_yield(node):
    todo = list(node.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))
    return False


def _short(p):
    s = repr(p)
    return s if len(s) < 1500 else s[:1500] + "..."


def _tyname(v):
    if isinstance(v, Num) or isinstance(v, (int, float)):
        return "number"
    return type(v).__name__


# ------------------------------------------------------------------ repository access

class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.src = os.path.join(root, "src")
        self._trees = {}

    def path_of(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isdir(p) and name.split(".")[0] == "tenkit":
            return None
        return None

    def tree(self, path):
        t = self._trees.get(path)
        if t is None:
            with open(path) as f:
                src = f.read()
            t = ast.parse(src, path)
            self._trees[path] = t
        return t

    def sources(self):
        import hashlib
        out = {}
        for d, _, fs in os.walk(os.path.join(self.src, "tenkit")):
            for f in fs:
                if f.endswith(".py") and "tests" not in d.split(os.sep):
                    p = os.path.join(d, f)
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, self.root)] = hashlib.sha256(h.read()).hexdigest()[:16]
        return out
