"""Helpers for writing contracts (specifications) over the real functions.

A goal is a Python function goal(I): it builds symbolic inputs satisfying a
precondition, calls the real function through the interpreter and records the
postcondition as named obligations.
"""
import itertools
from . import alg, vals, interp
from .alg import (to_poly, var, dim, index_var, app, ssum, ind, ONE, ZERO, fn, b_not, b_and, b_or,
                  int_eq, ite, Undecided)
from .vals import (Arr, PList, PDict, PObj, PyRaise, Num, num, param_arr, fresh_arr, new_arr, Unsupported,
                   SymTuple, P, isnum)

LETTERS = "ABCDEFGH"


class Goal:
    def __init__(self, name, fn, contracts=None, funcs=(), limit=400, timeout=150, strict=False, thorough=False, weight=1):
        self.name, self.fn, self.contracts, self.funcs = name, fn, contracts, funcs
        self.limit, self.timeout, self.strict = limit, timeout, strict
        self.thorough, self.weight = thorough, weight


class Spec:
    """All goals of one property."""

    def __init__(self, prop, title):
        self.prop, self.title = prop, title
        self.goals = []
        self.assumptions = []

    def goal(self, name=None, **kw):
        def deco(f):
            self.goals.append(Goal(name or f.__name__, f, **kw))
            return f
        return deco

    def add(self, name, f, **kw):
        self.goals.append(Goal(name, f, **kw))


def mod(I, name):
    return I.import_module(name)


def get(I, path):
    """'tenkit.base:unfold' or 'tenkit.decomposition.cp:CP_ALS'"""
    m, n = path.split(":")
    v = mod(I, m).get(n)
    return v


def call(I, path, *args, **kw):
    f = get(I, path)
    return I.call(f, list(args), kw)


def method(I, o, name, *args, **kw):
    return I.call(I.getattr(o, name), list(args), kw)


def attr(I, o, name):
    return I.getattr(o, name)


def dims(s):
    return [dim(x) for x in s.split()]


def idx(I, shape, base="i"):
    return tuple(ZERO if to_poly(d).const() == 1 else index_var(base, d)[0] for d in shape)


def ge0(p):
    """Real p >= 0."""
    return ONE - ind("gt", -to_poly(p))


def factors(I, ds, R, names=LETTERS):
    return [param_arr(names[m], (d, R)) for m, d in enumerate(ds)]


def is_arr(v):
    return isinstance(v, Arr)


def oblige_shape(I, name, out, shape):
    if not isinstance(out, Arr):
        if isnum(out) and not shape:
            return True
        I.oblige(f"{name}: result is an array", False)
        return False
    if out.ndim != len(shape):
        I.oblige(f"{name}: number of dimensions", False)
        return False
    ok = True
    for k, (a, b) in enumerate(zip(out.shape, shape)):
        ok &= bool(I.oblige_eq(f"{name}: shape[{k}]", a, to_poly(b)))
    return ok


def oblige_array(I, name, out, shape, f):
    """out has the given shape and out[idx] == f(*idx) for every index."""
    if not oblige_shape(I, name, out, shape):
        return False
    if not shape:
        v = P(out) if isnum(out) else out.at(())
        return I.oblige_eq(f"{name}: value", v, to_poly(f()))
    ix = idx(I, shape)
    return I.oblige_eq(f"{name}: entries", out.at(ix), to_poly(f(*ix)))


def oblige_scalar(I, name, v, expected):
    if isinstance(v, Arr):
        if v.ndim != 0:
            I.oblige(f"{name}: scalar", False)
            return False
        v = v.at(())
    elif isnum(v):
        v = P(v)
    else:
        I.oblige(f"{name}: scalar", False)
        return False
    return I.oblige_eq(name, v, to_poly(expected))


def scalar(v):
    if isinstance(v, Arr):
        return v.at(())
    return P(v)


def expect_raises(I, name, types, thunk):
    """The call raises one of the exception types on every path."""
    try:
        r = thunk()
    except PyRaise as e:
        ok = raised_is(I, e, types)
        I.oblige(f"{name}: raises {'/'.join(types)}", ok)
        return
    I.oblige(f"{name}: raises {'/'.join(types)}", False)


def raised_is(I, e, types):
    from .interp import _exc_parents
    par = _exc_parents()
    n = e.etype
    seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x in types:
            return True
        if x in seen:
            continue
        seen.add(x)
        todo += list(par.get(x, ()))
    return False


class Frame:
    """Records arrays whose contents must not change."""

    def __init__(self, I, named):
        self.I = I
        self.named = [(n, a, a.snapshot(), a.shape) for n, a in named]

    def check(self, what="input"):
        I = self.I
        for n, a, rd, shape in self.named:
            ix = idx(I, shape)
            I.oblige_eq(f"frame: {what} {n} unchanged", a.at(ix), rd(ix))


def prod(ps):
    r = ONE
    for p in ps:
        r = r * to_poly(p)
    return r


def lin(ix, shape):
    """Row-major position."""
    r = ZERO
    for i, d in zip(ix, shape):
        r = r * to_poly(d) + to_poly(i)
    return r


def sq(x):
    return x * x


def nsum(ds, f, base="s"):
    """Sum of f over a multi-index."""
    ds = list(ds)

    def rec(k, acc):
        if k == len(ds):
            return to_poly(f(*acc))
        return ssum(base, ds[k], lambda v: rec(k + 1, acc + (v,)))
    return rec(0, ())


def define_input(I, arr_name, reader):
    """Substitute a definition for an input array (a lemma about it)."""
    I.ctx.app_rules[arr_name] = reader
    I.ctx.invalidate()


def add_hook(I, kind, hook):
    old = I.ext_hooks.get(kind)

    def both(I, ext):
        if old is not None:
            old(I, ext)
        hook(I, ext)
    I.ext_hooks[kind] = both


def _input_app(I, inp, names):
    """(name, transposed?) when a matrix is an input array (one of names), possibly transposed."""
    i, j = idx(I, inp.shape, "h")
    p = inp.at((i, j))
    if len(p.t) != 1:
        return None
    (mono, c), = p.t.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return None
    a = mono[0][0]
    if a.kind != "app" or a.data[0] not in names or a.data[0] in I.ctx.app_rules or len(a.data[1]) != 2:
        return None
    nm, args = a.data
    if args[0] == i and args[1] == j:
        return nm, False
    return (nm, True) if args[0] == j and args[1] == i else None


def _factor_lemma(I, names, kinds, value):
    def hook(I, ext):
        hit = _input_app(I, ext.ins[0], names)
        if hit:
            f = value(ext)
            define_input(I, hit[0], (lambda x: f(x[1], x[0])) if hit[1] else (lambda x: f(x[0], x[1])))
    for e in kinds:
        add_hook(I, e, hook)


def svd_lemma(I, names):
    """When the svd of an input array (one of names, possibly transposed) is taken,
    use the decomposition A = U S Vh as its definition from then on."""
    def value(ext):
        (ru, rs, rw), k = [x.snapshot() for x in ext.outs], ext.info["k"]
        return lambda i, j: ssum("t", k, lambda t: ru((i, t)) * rs((t,)) * rw((t, j)))
    _factor_lemma(I, names, ("svd", "svd_full"), value)


def qr_lemma(I, names):
    """The same for the QR decomposition A = Q R."""
    def value(ext):
        (rq, rr), k = [x.snapshot() for x in ext.outs], ext.info["k"]
        return lambda i, j: ssum("t", k, lambda t: rq((i, t)) * rr((t, j)))
    _factor_lemma(I, names, ("qr",), value)

def single_app(p):
    """The application atom p consists of, or None."""
    p = to_poly(p)
    if len(p.t) != 1:
        return None
    (mono, c), = p.t.items()
    if c != 1 or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].kind != "app":
        return None
    return mono[0][0]


def record_of(I, kind, p, key="x"):
    """The external call record whose output entry is the term p, with the values of
    the loop indices it was made under."""
    a = single_app(I.simplify(to_poly(p)))
    if a is None:
        return None, None, None
    name, args = a.data
    for e in I.ext_all:
        if e.kind == kind and e.info.get(key) == name:
            ex = e.info["extra"]
            mp = {}
            for v, t in zip(ex, args):
                mp[next(iter(v.fv))] = t
            return e, mp, args[len(ex):]
    return None, None, None


def reader(arr, mp):
    """Contents of a recorded array with loop indices instantiated."""
    rd = arr.snapshot()
    if not mp:
        return rd
    return lambda ix: alg.subst(rd(ix), mp)


def eq_arrays(I, rd, shape, f, eshape):
    """Silently test entrywise equality of a reader with a specification."""
    if len(shape) != len(eshape):
        return False
    for a, b in zip(shape, eshape):
        if not I.simplify(to_poly(a) - to_poly(b)).is_zero():
            return False
    ix = idx(I, eshape, "q")
    return I.simplify(to_poly(rd(ix)) - to_poly(f(*ix))).is_zero()


def numerical_gap(I, size):
    """Precondition: a singular value of a matrix whose svd is taken is either zero or
    larger than size * 1e-10 times the largest one (no singular value is nonzero but
    below rounding errors)."""
    numerical_rank(I, size, full=False)


def numerical_rank(I, size, full=True):
    """Precondition: matrices whose svd is taken have full numerical rank, i.e.
    S_t > size * 1e-10 * S_0 and S_0 > 0 for every singular value."""
    from fractions import Fraction
    eps = Fraction(1, 10**10)

    def hook(I, ext):
        sn = ext.info["s"]

        def rule(ck, p):
            if ck not in ("gt", "eqr", "ge"):
                return None
            big, first, other = {}, ZERO, False
            t_atom = None
            for m, c in p.t.items():
                sv = [(a, e) for a, e in m if a.kind == "app" and a.data[0] == sn]
                if len(sv) != 1 or sv[0][1] != 1:
                    return None
                rest = tuple(x for x in m if x[0] is not sv[0][0])
                key = sv[0][0].key
                q = alg.Poly({rest: c})
                big.setdefault(key, [sv[0][0], ZERO])[1] += q
            if not full and len(big) == 1 and ck == "gt":
                # (1 - c) S_0 > 0
                (a, c), = big.values()
                if c.const() is None and a.data[1][-1].is_zero():
                    cc = c.t.get((), 0)
                    z = to_poly(size) * (cc * eps) + (c - alg.Poly({(): cc}))
                    den = 1
                    for x in z.t.values():
                        den = den * Fraction(x).denominator
                    if cc > 0 and alg.prove_ge(alg.pscale(z, den)):
                        return ONE - ind("eqr", alg.Poly({((a, 1),): 1}))
                return None
            if len(big) == 1:
                (a, c), = big.values()
                k = c.const()
                if k is None or not full:
                    return None
                if ck == "eqr":
                    return False
                return k > 0
            if len(big) != 2 or ck == "eqr":
                return None
            f = [v for v in big.values() if v[0].data[1][-1].is_zero()]
            o = [v for v in big.values() if not v[0].data[1][-1].is_zero()]
            if len(f) != 1:
                return None
            c = o[0][1].const()
            q = f[0][1]
            if c is None or c == 0:
                return None
            # c S_t + q S_0 with c > 0:  >= (c eps size + q) S_0
            if c > 0:
                z = alg.pscale(q * Fraction(1) + to_poly(size) * (c * eps), Fraction(1))
                den = 1
                for cc in z.t.values():
                    den = den * Fraction(cc).denominator
                if full and alg.prove_ge(alg.pscale(z, den) - 1):
                    return True
                if not full and alg.prove_ge(alg.pscale(z, den)) and alg.prove_ge(-q):
                    return ONE - ind("eqr", alg.Poly({((o[0][0], 1),): 1}))
            return None
        I.ctx.ind_rules.append(rule)
        I.ctx.invalidate()
    add_hook(I, "svd", hook)


def nonzero_columns(I, names):
    """Precondition: no column of the input factors is zero."""
    def rule(ck, p):
        if ck not in ("eqr", "gt"):
            return None
        t = list(p.t.items())
        if len(t) != 1:
            return None
        (m, c), = t
        if m and all(pos(a) for a, _ in m):
            return False if ck == "eqr" else c > 0
        return None

    def pos(a):
        if a.kind == "fn" and a.data[0] == "sqrt":
            q = a.data[1][0]
            return sos_of(q, names) or (len(q.t) == 1 and all(c > 0 and m and all(pos(b) for b, _ in m) for m, c in q.t.items()))
        if a.kind == "fn" and a.data[0] == "max":
            return any(len(q.t) == 1 and all(c > 0 and m and all(pos(b) for b, _ in m) for m, c in q.t.items()) for q in a.data[1])
        if a.kind == "inv":
            q = a.data[0]
            return len(q.t) == 1 and all(c > 0 and m and all(pos(b) for b, _ in m) for m, c in q.t.items())
        return a.kind == "sum" and sos_of(alg.Poly({((a, 1),): 1}), names)
    def nz(x):
        return rule("eqr", x) is False
    I.ctx.ind_rules.append(rule)
    I.ctx.nonzero_rules.append(nz)
    I.ctx.invalidate()


def sos_of(p, names):
    """p is a sum over rows of the squares of a column of an input array."""
    p = to_poly(p)
    if len(p.t) != 1:
        return False
    (m, c), = p.t.items()
    if c != 1:
        return False
    if len(m) == 1 and m[0][0].kind == "sum":
        body = m[0][0].data[1]
        return len(body) == 1 and body[0][1] == 2 and body[0][0].kind == "app" and body[0][0].data[0] in names
    return len(m) == 1 and m[0][1] == 2 and m[0][0].kind == "app" and m[0][0].data[0] in names


def ragged(I, name, K, jname, R):
    """K matrices with jname(k) >= 1 rows and R columns: (stacked ragged array, list of its slices)."""
    from . import attrs
    I.ctx.app_int_bounds[jname] = (lambda a: ONE, None)
    base = param_arr(name, (K, app(jname, (var(vals.RAG),), "int"), R))
    return base, PList(None, to_poly(K), lambda k: attrs.getitem(I, base, num(k, "i")))


def seq_len(I, v):
    from . import builtins_
    n = builtins_.b_len(I, [v], {})
    return P(n) if isnum(n) else to_poly(n)


def seq_get(I, v, k):
    return I.getitem(v, num(to_poly(k), "i"))


def install(I, o, names, **vals):
    """Put an object that went through its real constructor into a given state.  The attributes must be the
    ones the state invariant speaks about: a different representation is outside the goal's reach."""
    have = set(o.attrs)
    if have != set(names.split()):
        raise Unsupported(f"unknown representation of {o.cls.name}: {sorted(have ^ set(names.split()))}")
    for k, v in vals.items():
        I.setattr(o, k, v)


def int_var(I, name, lo=0):
    """An arbitrary integer >= lo."""
    v = var(name, "int")
    I.assume(ind("ge", v - lo))
    return v
