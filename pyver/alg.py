"""Term algebra of the verifier: polynomials over atoms, with symbolic-range sums.

A `Poly` is a finite sum of (rational coefficient) x (monomial); a monomial is a
product of atoms with positive integer exponents.  Atoms are interned and
immutable.  Integer terms (indices, dimensions) and real terms (array elements)
share the representation; the `sort` of an atom says which it is.

Atom kinds
  v    variable                          data=(name,)
  app  array element / uninterpreted fn  data=(name, (Poly, ...))
  fd   floor division of integers        data=(Poly, Poly)
  md   modulo of integers                data=(Poly, Poly)
  inv  multiplicative inverse            data=(Poly,)
  ind  Iverson bracket                   data=(ckind, Poly) ckind: ge (int p>=0), eqi (int p==0),
                                         gt (real p>0), eqr (real p==0), b (opaque boolean application)
  fn   unary/n-ary function              data=(name, (Poly, ...))
  sum  sum over symbolic ranges          data=(((name, range Poly), ...), monomial)
  bind other binder (prod, min, max ...) data=(op, ((name, range), ...), (Poly, ...))

Sums are kept in a normal form: linear in the body, independent factors pulled
out, nested sums merged, Kronecker deltas eliminated, product ranges split where
the body divides by a factor, connected components separated, and bound
variables canonically renamed.  Two terms with the same normal form are equal
for every value of their variables (mathematical integers and reals).
"""
from fractions import Fraction
import itertools


class Undecided(Exception):
    """The verifier could not decide something it needed."""


_INTERN = {}
_STATS = {"fast_bound": 0, "z3_bound": 0}


class Atom:
    __slots__ = ("kind", "data", "sort", "key", "fv", "depth", "hid", "apps")

    def __repr__(self):
        return self.key

    def __lt__(self, other):
        return self.key < other.key


def _mk_atom(kind, data, sort, key, fv, depth):
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.kind, a.data, a.sort, a.key, a.fv, a.depth = kind, data, sort, key, fv, depth
        a.apps = None
        _INTERN[key] = a
    return a


EMPTY = frozenset()


class Poly:
    __slots__ = ("t", "_key", "_fv", "_depth")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._fv = None
        self._depth = None

    # -- basic views
    @property
    def key(self):
        if self._key is None:
            parts = []
            for m in sorted(self.t, key=mono_key):
                c = self.t[m]
                parts.append(f"{c}*{mono_key(m)}" if m else f"{c}")
            self._key = "(" + "+".join(parts) + ")"
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def depth(self):
        if self._depth is None:
            d = 0
            for m in self.t:
                for a, _ in m:
                    if a.depth > d:
                        d = a.depth
            self._depth = d
        return self._depth

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def atoms(self):
        s = {}
        for m in self.t:
            for a, _ in m:
                s[a.key] = a
        return list(s.values())

    def __repr__(self):
        return pretty(self)

    def __eq__(self, other):
        return isinstance(other, Poly) and self.t == other.t

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        return padd(self, to_poly(o))

    __radd__ = __add__

    def __neg__(self):
        return pscale(self, -1)

    def __sub__(self, o):
        return padd(self, pscale(to_poly(o), -1))

    def __rsub__(self, o):
        return padd(to_poly(o), pscale(self, -1))

    def __mul__(self, o):
        return pmul(self, to_poly(o))

    __rmul__ = __mul__

    def __pow__(self, n):
        return ppow(self, n)


def mono_key(m):
    return "".join(a.key if e == 1 else f"{a.key}^{e}" for a, e in m)


def to_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return Poly({(): x}) if x else ZERO
    if isinstance(x, Fraction):
        if x.denominator == 1:
            x = int(x)
        return Poly({(): x}) if x else ZERO
    if isinstance(x, float):
        import math
        if math.isinf(x) or math.isnan(x):
            raise Undecided(f"non-finite constant {x} in arithmetic")
        f = Fraction(repr(x))          # decimal literal, read exactly
        return to_poly(f)
    if isinstance(x, Atom):
        return Poly({((x, 1),): 1})
    raise TypeError(f"to_poly: {x!r}")


ZERO = Poly({})
ONE = Poly({(): 1})


def atom_poly(a):
    return Poly({((a, 1),): 1})


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    t = dict(p.t)
    for m, c in q.t.items():
        n = t.get(m, 0) + c
        if n == 0:
            t.pop(m, None)
        else:
            t[m] = n
    return Poly(t)


def pscale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return Poly({m: _norm(k * c) for m, k in p.t.items()})


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def _add_into(t, m, c):
    n = t.get(m, 0) + c
    if n == 0:
        t.pop(m, None)
    else:
        t[m] = _norm(n)


# ---------------------------------------------------------------- monomials

def mono_of(d):
    """dict atom->exp to sorted monomial."""
    return tuple(sorted(d.items(), key=lambda ae: ae[0].key))


def mono_mul(m1, m2):
    """Product of two monomials as a Poly (special atoms may simplify)."""
    if not m1:
        return Poly({m2: 1})
    if not m2:
        return Poly({m1: 1})
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return simplify_mono(d)


def simplify_mono(d):
    """d: dict atom -> exponent (>=1).  Returns Poly."""
    extra = []
    again = False
    for a in list(d):
        e = d[a]
        k = a.kind
        if k == "ind":
            if e > 1:
                d[a] = 1
        elif k == "fn":
            n = a.data[0]
            if e >= 2:
                if n == "sqrt":
                    extra.append(ppow(a.data[1][0], e // 2))
                    _setexp(d, a, e % 2)
                elif n == "abs":
                    extra.append(ppow(a.data[1][0], (e // 2) * 2))
                    _setexp(d, a, e % 2)
                elif n == "sign":
                    if e % 2:
                        d[a] = 1          # sign^3 == sign
                    else:
                        x = a.data[1][0]
                        extra.append(ONE - ind("eqr", x))
                        _setexp(d, a, 0)
    # indicator driven simplifications
    inds = [a for a in d if a.kind == "ind"]
    if inds:
        for a in inds:
            if a.data[0] in ("eqi", "eqr"):
                # an equality with zero kills factors that vanish
                p = a.data[1]
                if len(p.t) == 1:
                    (m, _), = p.t.items()
                    if len(m) == 1 and m[0][0] in d:
                        return ZERO
    # inverse cancellation
    for a in [x for x in d if x.kind == "inv"]:
        if a not in d:
            continue
        b = a.data[0]
        if len(b.t) == 1:
            (m, c), = b.t.items()
            if len(m) == 1 and m[0][1] == 1:
                base = m[0][0]
                if base in d and d[base] > d[a]:
                    # x^k * (1/x)^j = x^(k-j) for k > j, whatever 1/0 stands for
                    _setexp(d, base, d[base] - d[a])
                    _setexp(d, a, 0)
                elif base in d and nonzero(base, d):
                    k = min(d[a], d[base])
                    _setexp(d, a, d[a] - k)
                    _setexp(d, base, d[base] - k)
                elif base.kind == "fn" and base.data[0] == "sqrt" and d[a] >= 2 and nonzero(base, d):
                    # 1/sqrt(x)^2 = 1/x
                    e = d[a]
                    extra.append(ppow(inv(base.data[1][0]), e // 2))
                    _setexp(d, a, e % 2)
        # x/sqrt(x) = sqrt(x) is not needed
    for a in [x for x in d if x.kind == "inv"]:
        if d.get(a, 0) >= 2:
            b = a.data[0]
            if len(b.t) == 1:
                (m, c), = b.t.items()
                if len(m) == 1 and m[0][0].kind == "fn" and m[0][0].data[0] == "sqrt" and m[0][1] == 1 and c == 1:
                    e = d[a]
                    extra.append(ppow(inv(m[0][0].data[1][0]), e // 2))
                    _setexp(d, a, e % 2)
    # abs/sign product:  abs(p) * sign(p) = p ; p * sign(p) = abs(p) (single atom p)
    for a in [x for x in d if x.kind == "fn" and x.data[0] == "sign"]:
        if a not in d:
            continue
        x = a.data[1][0]
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in d and c > 0:
                b = m[0][0]
                _setexp(d, a, d[a] - 1)
                _setexp(d, b, d[b] - 1)
                extra.append(fn("abs", atom_poly(b)))
                continue
        ab = _INTERN.get(f"abs[{x.key}]")
        if ab is not None and ab in d:
            _setexp(d, a, d[a] - 1)
            _setexp(d, ab, d[ab] - 1)
            extra.append(x)
    r = Poly({mono_of(d): 1})
    for x in extra:
        r = pmul(r, x)
    return r


def _setexp(d, a, e):
    if e <= 0:
        d.pop(a, None)
    else:
        d[a] = e


def nonzero(a, d):
    """Is atom a provably non-zero, given the indicator factors in monomial d and the context?"""
    x = atom_poly(a)
    for b in d:
        if b.kind == "ind" and b.data[0] == "gt":
            p = b.data[1]
            if p.t.keys() == x.t.keys() and len(p.t) == 1:
                return True
    return CTX.known_nonzero(x)


def pmul(p, q):
    if not p.t or not q.t:
        return ZERO
    if len(p.t) == 1 and () in p.t:
        return pscale(q, p.t[()])
    if len(q.t) == 1 and () in q.t:
        return pscale(p, q.t[()])
    out = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            r = mono_mul(m1, m2)
            c = c1 * c2
            for m, k in r.t.items():
                _add_into(out, m, k * c)
    # an (in)equality bracket multiplied into a polynomial can be used to rewrite it
    return Poly(out)


def ppow(p, n):
    n = int(n)
    if n == 0:
        return ONE
    if n < 0:
        return ppow(inv(p), -n)
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


# ---------------------------------------------------------------- context

class Ctx:
    """Facts in force on the current verification path."""

    def __init__(self):
        self.bounds = {}        # int variable name -> range Poly (0 <= v < range)
        self.lower = {}         # int variable name -> lower bound int (dims: 1)
        self.app_rules = {}     # array name -> fn(args) -> Poly | None (definition)
        self.app_facts = {}     # array name -> fn(args) -> list of indicator Polys that hold
        self.app_int_bounds = {}  # int app name -> (lo Poly or None, hi Poly fn) inclusive lower, exclusive upper
        self.pc = []            # indicator polys assumed true
        self.contract = []      # sum contraction rules
        self.nonzero_rules = []
        self.ind_rules = []     # fn(kind, Poly) -> True/False/None: assumed comparisons
        self.memo_ge = {}
        self.memo_dec = {}
        self.oracle = None      # z3 backend
        self.counter = itertools.count()
        self.externals = {}     # array name -> definition for numeric evaluation
        self.universals = []    # (vars, guard/cond fn) universally quantified facts
        self.var_sort = {}
        self.use_z3 = True
        self.pc_all = False     # send the whole path condition to z3 (else cone of influence)
        self.bind_facts = {}
        self.sum_facts = []
        self.raw = False        # keep conditions unevaluated
        self.epoch = 0          # bumped when assumptions are withdrawn (memo invalidation)

    def mark(self):
        return len(self.pc)

    def rollback(self, k):
        if len(self.pc) != k:
            del self.pc[k:]
            self.invalidate()

    def invalidate(self):
        self.epoch += 1
        self.memo_ge = {}
        self.memo_dec = {}
        if self.oracle:
            self.oracle.reset()

    def fresh(self, base):
        return f"{base}!{next(self.counter)}"

    def known_nonzero(self, x):
        for r in self.nonzero_rules:
            if r(x):
                return True
        k = x.key
        for p in self.pc:
            # pc entry of the form 1 - ind(eqr, x)  /  ind(gt, +-x)
            if len(p.t) == 2 and () in p.t and p.t[()] == 1:
                for m, c in p.t.items():
                    if m and c == -1 and len(m) == 1 and m[0][0].kind == "ind" \
                            and m[0][0].data[0] in ("eqr", "eqi") and m[0][0].data[1].key == _lead_norm(x).key:
                        return True
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if c == 1 and len(m) == 1 and m[0][0].kind == "ind" and m[0][0].data[0] == "gt":
                    q = m[0][0].data[1]
                    if q.key == _scale_pos(x).key or q.key == _scale_pos(-x).key:
                        return True
        return False

    def assume(self, p):
        c = p.const()
        if c == 1:
            return
        self.pc.append(p)
        self.memo_ge = {}
        self.memo_dec = {}
        if self.oracle:
            self.oracle.assume(p)


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    return c


def get_ctx():
    return CTX


# ---------------------------------------------------------------- variables, apps

def var(name, sort="int"):
    return atom_poly(_mk_atom("v", (name,), sort, f"{name}" if sort == "int" else f"{name}:r", frozenset([name]), 0))


def index_var(base, rng):
    """Fresh integer variable v with 0 <= v < rng."""
    n = CTX.fresh(base)
    CTX.bounds[n] = to_poly(rng)
    return var(n), n


def dim(name, lo=1):
    CTX.lower[name] = lo
    return var(name)


def app(name, args, sort="real"):
    args = tuple(to_poly(a) for a in args)
    r = CTX.app_rules.get(name)
    if r is not None:
        v = r(args)
        if v is not None:
            return v
    return atom_poly(app_atom(name, args, sort))


def app_atom(name, args, sort="real"):
    fv = EMPTY
    d = 0
    for a in args:
        fv |= a.fv
        d = max(d, a.depth)
    s = "" if sort == "real" else f":{sort[0]}"
    return _mk_atom("app", (name, args), sort, f"{name}{s}[" + ",".join(a.key for a in args) + "]", fv, d)


FN_SORT = {}


def fn(name, *args):
    args = tuple(to_poly(a) for a in args)
    x = args[0] if args else None
    if name == "sqrt":
        c = x.const()
        if c is not None:
            if c == 0:
                return ZERO
            from math import isqrt
            f = Fraction(c)
            if f > 0:
                n, d = isqrt(f.numerator), isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return to_poly(Fraction(n, d))
        if len(x.t) == 1:
            (m, c), = x.t.items()
            # sqrt(a^2 ...) with a single abs/known-nonnegative atom
            if c > 0 and len(m) == 1 and m[0][1] == 2:
                s = fn("sqrt", to_poly(Fraction(c)))
                return s * fn("abs", atom_poly(m[0][0]))
            # sqrt(x y) = sqrt(x) sqrt(y) for non-negative factors
            if c > 0 and len(m) > 1 and all(e % 2 == 0 or (e == 1 and _nonneg_atom(a)) for a, e in m):
                r = fn("sqrt", to_poly(Fraction(c)))
                for a, e in m:
                    r = r * (fn("sqrt", atom_poly(a)) if e == 1 else ppow(fn("abs", atom_poly(a)), e // 2))
                return r
        # sqrt(x / y) = sqrt(x) / sqrt(y) for a non-negative y
        if x.t:
            common = None
            for m in x.t:
                here = {a for a, e in m if a.kind == "inv" and e == 1}
                common = here if common is None else common & here
                if not common:
                    break
            for a in sorted(common, key=lambda a: a.key):
                y = a.data[0]
                if _obviously_nonneg(y) or all(c > 0 and all(e % 2 == 0 or _nonneg_atom(b) for b, e in m) for m, c in y.t.items()):
                    q = Poly({tuple((b, e) for b, e in m if b is not a): c for m, c in x.t.items()})
                    return fn("sqrt", q) * inv(fn("sqrt", y))
    elif name == "abs":
        c = x.const()
        if c is not None:
            return to_poly(abs(c))
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) > 1 or m[0][1] > 1 or c != 1:
                r = to_poly(abs(c))
                for a, e in m:
                    r = r * ppow(fn("abs", atom_poly(a)), e)
                return r
            a = m[0][0]
            if a.kind == "fn" and a.data[0] in ("sqrt", "abs"):
                return x
            if a.kind == "fn" and a.data[0] == "sign":
                return ONE - ind("eqr", a.data[1][0])
            if a.kind == "ind":
                return x
            if a.kind == "inv":
                return inv(fn("abs", a.data[0]))
            if a.kind == "sum" and _sos_mono(a.data[1]):
                return x
        else:
            x2 = _lead_norm(x)
            if x2.key != x.key and (x + x2).is_zero():
                return fn("abs", x2)
        if len(x.t) > 1 and _obviously_nonneg(x):
            return x
    elif name == "sign":
        if len(args) == 1 and not args[0].const() and _int_dims(args[0]) and prove_ge(args[0] - 1):
            return ONE
        c = x.const()
        if c is not None:
            return to_poly((c > 0) - (c < 0))
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if len(m) > 1 or m[0][1] > 1 or c != 1:
                r = to_poly((c > 0) - (c < 0))
                for a, e in m:
                    r = r * ppow(fn("sign", atom_poly(a)), e)
                return r
            a = m[0][0]
            if a.kind == "inv":
                return fn("sign", a.data[0])
            if a.kind == "fn" and a.data[0] == "sign":
                return x
            if a.kind == "fn" and a.data[0] in ("abs", "sqrt"):
                return ONE - ind("eqr", a.data[1][0])
            if a.kind == "ind":
                return x
        else:
            x2 = _lead_norm(x)
            if x2.key != x.key:
                if (x + x2).is_zero():
                    return -fn("sign", x2)
            x3 = _scale_pos(x2)
            if x3.key != x.key:
                return fn("sign", x3) if x2.key == x.key else -fn("sign", x3)
    elif name in ("max", "min"):
        # canonical order; constants folded
        if len(args) == 2:
            a, b = args
            d = (a - b).const()
            if d is not None:
                if name == "max":
                    return a if d >= 0 else b
                return b if d >= 0 else a
            if a.sort_is_int() and b.sort_is_int():
                g = decide("ge", a - b)
                if g is not None:
                    return (a if g else b) if name == "max" else (b if g else a)
            if b.key < a.key:
                args = (b, a)
    fv = EMPTY
    d = 0
    for a in args:
        fv |= a.fv
        d = max(d, a.depth)
    sort = "int" if name in ("max", "min") and all(a.sort_is_int() for a in args) else FN_SORT.get(name, "real")
    return atom_poly(_mk_atom("fn", (name, args), sort, f"{name}[" + ",".join(a.key for a in args) + "]", fv, d))


def _poly_sort_is_int(self):
    return all(getattr(c, "denominator", 1) == 1 for c in self.t.values()) and \
        all(a.sort == "int" or a.kind == "ind" for m in self.t for a, _ in m)


Poly.sort_is_int = _poly_sort_is_int


def _sos_mono(m):
    return all(e % 2 == 0 or a.kind == "ind" or (a.kind == "fn" and a.data[0] in ("abs", "sqrt")) or
               (a.kind == "sum" and _sos_mono(a.data[1])) for a, e in m)


def _nonneg_atom(a):
    if a.kind == "v":
        return CTX.lower.get(a.data[0], -1) >= 0
    return a.kind == "sum" and _sos_mono(a.data[1])


def _obviously_nonneg(p):
    return all(c >= 0 and _sos_mono(m) for m, c in p.t.items())


def _lead_norm(p):
    """Sign-normalise: leading (key-smallest non-constant) coefficient positive."""
    ms = sorted((m for m in p.t if m), key=mono_key)
    if ms and p.t[ms[0]] < 0:
        return -p
    return p


def _scale_pos(p):
    ms = sorted((m for m in p.t if m), key=mono_key)
    if not ms:
        return p
    c = abs(p.t[ms[0]])
    return pscale(p, Fraction(1) / c) if c != 1 else p


def _int_dims(p):
    """Only variables (dimensions, indices) occur."""
    return all(a.kind == "var" for m in p.t for a, _ in m)


def inv(p):
    p = to_poly(p)
    c = p.const()
    if c is not None:
        if c == 0:
            raise Undecided("division by constant zero")
        return to_poly(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            a = m[0][0]
            if a.kind == "inv":
                # 1/(1/x) = x only where x != 0
                if CTX.known_nonzero(a.data[0]):
                    return a.data[0]
            return atom_poly(_mk_atom("inv", (p,), "real", f"inv[{p.key}]", p.fv, p.depth))
        r = to_poly(Fraction(1) / c)
        for a, e in m:
            r = r * ppow(inv(atom_poly(a)), e)
        return r
    # scale so the leading coefficient is 1
    ms = sorted((m for m in p.t if m), key=mono_key)
    lead = p.t[ms[0]]
    q = pscale(p, Fraction(1) / lead)
    a = atom_poly(_mk_atom("inv", (q,), "real", f"inv[{q.key}]", q.fv, q.depth))
    return pscale(a, Fraction(1) / lead)


# ---------------------------------------------------------------- integer division

def _mono_div(m, d):
    """m / d as monomials, or None."""
    dd = dict(m)
    for a, e in d:
        k = dd.get(a, 0) - e
        if k < 0:
            return None
        if k == 0:
            dd.pop(a)
        else:
            dd[a] = k
    return mono_of(dd)


def _divmod_poly(p, d):
    """Split p = q*d + r syntactically, d a single monomial or a polynomial."""
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        q, r = {}, {}
        for m, c in p.t.items():
            k = _mono_div(m, dm)
            if k is None:
                r[m] = c
                continue
            cq, cr = divmod(c, dc)
            if cq:
                q[k] = cq
            if cr:
                r[m] = cr
        return Poly(q), Poly(r)
    # polynomial divisor: divide by its leading monomial repeatedly
    lead = max(d.t, key=lambda m: (sum(e for _, e in m), mono_key(m)))
    lc = d.t[lead]
    q = ZERO
    r = p
    for _ in range(20):
        hit = None
        for m, c in r.t.items():
            k = _mono_div(m, lead)
            if k is not None and c % lc == 0:
                hit = (k, c // lc)
                break
        if hit is None:
            break
        step = Poly({hit[0]: hit[1]})
        q = q + step
        r = r - step * d
    return q, r


def fdiv(p, d):
    p, d = to_poly(p), to_poly(d)
    return _fdmd(p, d)[0]


def pmod(p, d):
    p, d = to_poly(p), to_poly(d)
    return _fdmd(p, d)[1]


def _fdmd(p, d):
    if p.const() is not None and d.const() is not None:
        c, k = p.const(), d.const()
        if k == 0:
            raise Undecided("integer division by zero")
        return to_poly(c // k), to_poly(c % k)
    if d.const() == 1:
        return p, ZERO
    q, r = _divmod_poly(p, d)
    if prove_ge(r) and prove_ge(d - 1 - r):
        return q, r
    if q.is_zero() is False and r.const() is not None and d.const() is not None:
        pass
    # negative remainder of the form -1..: shift once
    r2, q2 = r + d, q - 1
    if prove_ge(r2) and prove_ge(d - 1 - r2):
        return q2, r2
    # composite divisor: (p div d1) div d2
    if len(d.t) == 1:
        (dm, dc), = d.t.items()
        if sum(e for _, e in dm) >= 2:
            for a, _ in dm:
                d1 = atom_poly(a)
                f1, m1 = _fdmd(r, d1)
                if not any(x.kind in ("fd", "md") for x in f1.atoms()):
                    rest = Poly({_mono_div(dm, ((a, 1),)): dc})
                    f2, m2 = _fdmd(f1, rest)
                    return q + f2, m2 * d1 + m1
    f = _mk_atom("fd", (r, d), "int", f"fd[{r.key},{d.key}]", r.fv | d.fv, max(r.depth, d.depth))
    m = _mk_atom("md", (r, d), "int", f"md[{r.key},{d.key}]", r.fv | d.fv, max(r.depth, d.depth))
    return q + atom_poly(f), atom_poly(m)


# ---------------------------------------------------------------- bounds prover

def prove_ge(p):
    """Is the integer term p >= 0 in every model of the context?  Sound, incomplete."""
    c = p.const()
    if c is not None:
        return c >= 0
    k = p.key
    r = CTX.memo_ge.get(k)
    if r is not None:
        return r
    CTX.memo_ge[k] = False       # recursion guard
    r = _prove_ge_fast(p, 0)
    if r:
        _STATS["fast_bound"] += 1
    elif CTX.oracle is not None and CTX.use_z3:
        r = CTX.oracle.prove_int_ge(p)
        if r:
            _STATS["z3_bound"] += 1
    CTX.memo_ge[k] = bool(r)
    return bool(r)


def _atom_bounds(a):
    """(lower Poly|None, upper inclusive Poly|None) for an integer atom."""
    if a.kind == "v":
        n = a.data[0]
        if n in CTX.bounds:
            return ZERO, CTX.bounds[n] - 1
        return None, None
    if a.kind == "md":
        return ZERO, a.data[1] - 1
    if a.kind == "fd":
        p, d = a.data
        lo = ZERO if prove_ge(p) else None
        hi = None
        # p < M*d  ->  fd(p,d) <= M-1
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "v":
                rng = CTX.bounds.get(m[0][0].data[0])
                if rng is not None:
                    q, r = _divmod_poly(rng, d)
                    if r.is_zero():
                        hi = q - 1
        return lo, hi
    if a.kind == "app" and a.data[0] in CTX.app_int_bounds:
        lo, hi = CTX.app_int_bounds[a.data[0]]
        lo = lo(a.data[1]) if lo is not None else None
        hi = hi(a.data[1]) if hi is not None else None
        return lo, (hi - 1 if hi is not None else None)
    if a.kind == "ind":
        return ZERO, ONE
    if a.kind == "sum":
        # sums of nonnegative integer terms
        vs, m = a.data
        if all(_int_atom_nonneg(x) for x, _ in m):
            return ZERO, None
    return None, None


def _int_atom_nonneg(a):
    if a.kind == "ind":
        return True
    if a.kind == "v" and (a.data[0] in CTX.bounds or a.data[0] in CTX.lower or a.data[0].startswith("%")):
        return True
    if a.kind == "app" and a.data[0] in CTX.app_int_bounds:
        lo = CTX.app_int_bounds[a.data[0]][0]
        if lo is None:
            return False
        c = lo(a.data[1]).const()
        return c is not None and c >= 0
    return False


def _prove_ge_fast(p, depth):
    c = p.const()
    if c is not None:
        return c >= 0
    if depth > 12:
        return False
    # 1. eliminate bounded index atoms (not dims), linear occurrences
    cands = []
    for a in p.atoms():
        if a.sort != "int" and a.kind != "ind":
            return False
        lo, hi = _atom_bounds(a)
        if lo is not None or hi is not None:
            cands.append((a, lo, hi))
    # prefer variables that do not occur inside other atoms / ranges
    cands.sort(key=lambda t: (t[0].kind != "v", t[0].key))
    for a, lo, hi in cands:
        coef, rest = {}, {}
        ok = True
        for m, c in p.t.items():
            d = dict(m)
            e = d.pop(a, 0)
            if e == 0:
                rest[m] = c
            elif e == 1:
                coef[mono_of(d)] = c
            else:
                ok = False
                break
        if not ok or not coef:
            continue
        A, B = Poly(coef), Poly(rest)
        if a.kind == "v" and (a.data[0] in A.fv or any(a.data[0] in x.fv for x in B.atoms())):
            continue
        sA = _sign_fast(A, depth + 1)
        if sA == 1 and lo is not None:
            if _prove_ge_fast(A * lo + B, depth + 1):
                return True
        elif sA == -1 and hi is not None:
            if _prove_ge_fast(A * hi + B, depth + 1):
                return True
    # maxima and minima over ranges, bounded by their instances
    for a in p.atoms():
        if a.kind != "bind" or a.data[0] not in ("max", "min") or depth > 4:
            continue
        c = p.t.get(((a, 1),))
        if c is None or any(a in dict(m) for m in p.t if m != ((a, 1),)) or (c > 0) != (a.data[0] == "max"):
            continue
        rest = {m: x for m, x in p.t.items() if m != ((a, 1),)}
        for inst in _bind_instances(a, Poly(rest)):
            if _prove_ge_fast(pscale(inst, c) + Poly(rest), depth + 1):
                return True
    # 2. dims: substitute d -> d' + lower and check coefficients
    mp = {}
    for a in p.atoms():
        if a.kind == "v" and a.data[0] in CTX.lower:
            mp[a] = CTX.lower[a.data[0]]
        elif a.kind == "app" and a.data[0] in CTX.app_int_bounds:
            lo = CTX.app_int_bounds[a.data[0]][0]
            lc = lo(a.data[1]).const() if lo is not None else None
            if lc is None:
                return False
            mp[a] = lc
        elif a.kind in ("md", "ind") or (a.kind == "v" and a.data[0] in CTX.bounds):
            mp[a] = 0
        elif a.kind == "sum" and _atom_bounds(a)[0] is not None:
            mp[a] = 0
        elif a.kind == "fd" and _atom_bounds(a)[0] is not None:
            mp[a] = 0
        else:
            return False
    out = {}
    for m, c in p.t.items():
        terms = [((), c)]
        for a, e in m:
            lo = mp[a]
            new = []
            for mm, cc in terms:
                # (a' + lo)^e
                from math import comb
                for k in range(e + 1):
                    kk = comb(e, k) * (lo ** (e - k) if e > k else 1)
                    if kk:
                        new.append((mm + ((a, k),) if k else mm, cc * kk))
            terms = new
        for mm, cc in terms:
            _add_into(out, mm, cc)
    return all(c >= 0 for c in out.values())


def _bind_instances(a, p):
    """Instances of the body of a one-variable max or min at valid indices (terms of p that match, and index 0)."""
    op, vs, bodies = a.data
    if len(vs) != 1 or len(bodies) != 1:
        return []
    n, rng = vs[0]
    cand = [ZERO]
    for b in bodies[0].atoms():
        if b.kind != "app":
            continue
        pos = [k for k, x in enumerate(b.data[1]) if x == var(n)]
        if not pos:
            continue
        for q in p.atoms():
            if q.kind == "app" and q.data[0] == b.data[0] and len(q.data[1]) == len(b.data[1]):
                t = q.data[1][pos[0]]
                if t not in cand and _prove_ge_fast(t, 5) and _prove_ge_fast(rng - t - 1, 5):
                    cand.append(t)
    return [subst(bodies[0], {n: t}) for t in cand]


def _sign_fast(p, depth):
    c = p.const()
    if c is not None:
        return 1 if c >= 0 else -1
    if _prove_ge_fast(p, depth):
        return 1
    if _prove_ge_fast(-p, depth):
        return -1
    return 0


# ---------------------------------------------------------------- indicators

def decide(ck, p):
    """Truth of the atomic condition in the context: True, False or None."""
    c = p.const()
    if c is not None:
        return c >= 0 if ck == "ge" else c == 0 if ck in ("eqi", "eqr") else c > 0
    k = (ck, p.key)
    if k in CTX.memo_dec:
        return CTX.memo_dec[k]
    r = None
    if ck == "ge":
        if prove_ge(p):
            r = True
        elif prove_ge(-p - 1):
            r = False
    elif ck == "eqi":
        if prove_ge(p - 1) or prove_ge(-p - 1):
            r = False
        elif CTX.pc and prove_ge(p) and prove_ge(-p):
            r = True
    elif ck in ("gt", "eqr"):
        r = _decide_real(ck, p)
    CTX.memo_dec[k] = r
    return r


def _decide_real(ck, p):
    if ck == "gt":
        if _obviously_nonneg(-p):
            return False
        if _obviously_nonneg(p) and (p.t.get((), 0) > 0):
            return True
    if CTX.oracle is not None and CTX.use_z3 and CTX.oracle.has_real_facts(p):
        return CTX.oracle.decide_real(ck, p)
    return None


def ind(ck, p):
    """Iverson bracket of an atomic condition, as a 0/1 Poly."""
    p = to_poly(p)
    c = p.const()
    if c is not None:
        return to_poly(c >= 0 if ck == "ge" else c == 0 if ck in ("eqi", "eqr") else c > 0)
    if ck == "eqr" and p.sort_is_int():
        ck = "eqi"
    if ck == "gt" and p.sort_is_int():
        ck, p = "ge", p - 1
    d = None if CTX.raw else decide(ck, p)
    if d is None and not CTX.raw:
        for r in CTX.ind_rules:
            d = r(ck, p)
            if d is not None:
                break
    if d is not None:
        return d if isinstance(d, Poly) else ONE if d else ZERO
    if not CTX.raw:
        b = _ind_of_bracket(ck, p)
        if b is not None:
            return b
    if ck in ("ge", "eqi"):
        # content normalisation
        from math import gcd
        g = 0
        for m, c in p.t.items():
            if m:
                g = gcd(g, int(c))
        if g > 1:
            c0 = p.t.get((), 0)
            if ck == "ge":
                p = Poly({m: (c // g) for m, c in p.t.items() if m}) + (c0 // g)
            elif c0 % g:
                return ZERO
            else:
                p = Poly({m: (c // g) for m, c in p.t.items()})
        lead = min((m for m in p.t if m), key=mono_key)
        if p.t[lead] < 0:
            if ck == "ge":
                return ONE - _ind_atom("ge", -p - 1)
            p = -p
        return _ind_atom(ck, p)
    if ck == "eqr":
        p = _scale_pos(_lead_norm(p))
        if len(p.t) == 1:
            (m, c), = p.t.items()
            # product is zero iff some factor is
            if len(m) > 1 or m[0][1] > 1:
                r = ONE
                for a, _ in m:
                    r = r * (ONE - ind("eqr", atom_poly(a)))
                return ONE - r
            a = m[0][0]
            if a.kind == "fn" and a.data[0] in ("sqrt", "abs", "sign"):
                return ind("eqr", a.data[1][0])
            if a.kind == "inv":
                return ZERO if CTX.known_nonzero(a.data[0]) else _ind_atom("eqr", p)
            if a.kind == "ind":
                return ONE - p
        return _ind_atom("eqr", p)
    p = _scale_pos(p)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == "fn" and a.data[0] in ("sqrt", "abs"):
                return (ONE - ind("eqr", a.data[1][0])) if c > 0 else ZERO
            if a.kind == "ind":
                return p if c > 0 else ZERO
            if a.kind == "fn" and a.data[0] == "sign":
                return ind("gt", a.data[1][0] if c > 0 else -a.data[1][0])
    return _ind_atom("gt", p)


def _ind_of_bracket(ck, p):
    """The bracket of a condition c0 + c1 b on one product of brackets b (0 or 1), in terms of b."""
    ms = [m for m in p.t if m]
    if len(ms) != 1 or any(a.kind != "ind" for a, _ in ms[0]):
        return None
    c0, c1 = p.t.get((), 0), p.t[ms[0]]
    v0, v1 = [x >= 0 if ck == "ge" else x > 0 if ck == "gt" else x == 0 for x in (c0, c0 + c1)]
    b = Poly({ms[0]: 1})
    return (ONE if v0 else b) if v1 else (ONE - b if v0 else ZERO)


def _ind_atom(ck, p):
    return atom_poly(_mk_atom("ind", (ck, p), "int", f"<{ck}:{p.key}>", p.fv, p.depth))


def ind_bool(name, args):
    """Opaque boolean application as a bracket."""
    a = app_atom(name, tuple(to_poly(x) for x in args), "bool")
    r = CTX.app_rules.get(name)
    if r is not None:
        v = r(a.data[1])
        if v is not None:
            return v
    return _ind_atom("b", atom_poly(a))


def b_not(p):
    return ONE - p


def b_and(*ps):
    r = ONE
    for p in ps:
        r = r * p
    return r


def b_or(*ps):
    r = ONE
    for p in ps:
        r = r * (ONE - p)
    return ONE - r


def int_eq(a, b):
    return ind("eqi", to_poly(a) - to_poly(b))


def int_ge(a, b):
    return ind("ge", to_poly(a) - to_poly(b))


def int_lt(a, b):
    return ind("ge", to_poly(b) - to_poly(a) - 1)


def ite(c, a, b):
    a, b = to_poly(a), to_poly(b)
    k = c.const()
    if k is not None:
        return a if k else b
    if a == b:
        return a
    return c * a + (ONE - c) * b


# ---------------------------------------------------------------- substitution

def subst(p, mp):
    """Simultaneous substitution of variable names by Polys, re-normalising."""
    if not mp or not p.t:
        return p
    names = frozenset(mp)
    if not (p.fv & names):
        return p
    return _subst(p, mp, names, {})


def _subst(p, mp, names, memo):
    if not (p.fv & names):
        return p
    out = {}
    r = ZERO
    for m, c in p.t.items():
        keep = []
        fac = None
        for a, e in m:
            if a.fv & names:
                q = memo.get(a)
                if q is None:
                    q = _subst_atom(a, mp, names, memo)
                    memo[a] = q
                q = ppow(q, e)
                fac = q if fac is None else pmul(fac, q)
                if not fac.t:
                    break
            else:
                keep.append((a, e))
        if fac is None:
            _add_into(out, m, c)
        elif fac.t:
            r = r + pscale(pmul(Poly({tuple(keep): 1}), fac), c)
    return Poly(out) + r


def _subst_atom(a, mp, names, memo):
    k = a.kind
    S = lambda q: _subst(q, mp, names, memo)
    if k == "v":
        return mp[a.data[0]]
    if k == "app":
        return app(a.data[0], [S(x) for x in a.data[1]], a.sort)
    if k == "fd":
        return fdiv(S(a.data[0]), S(a.data[1]))
    if k == "md":
        return pmod(S(a.data[0]), S(a.data[1]))
    if k == "inv":
        return inv(S(a.data[0]))
    if k == "ind":
        if a.data[0] == "b":
            q = a.data[1]
            (m, _), = q.t.items()
            b = m[0][0]
            return ind_bool(b.data[0], [S(x) for x in b.data[1]])
        return ind(a.data[0], S(a.data[1]))
    if k == "fn":
        return fn(a.data[0], *[S(x) for x in a.data[1]])
    if k == "sum":
        vs, m = open_sum(a)
        vs = [(n, S(r)) for n, r in vs]
        for n, r in vs:
            CTX.bounds[n] = r
        body = _subst(Poly({m: 1}), mp, names, {})
        return sum_poly(vs, body)
    if k == "bind":
        op, vs, bodies = open_bind(a)
        vs = [(n, S(r)) for n, r in vs]
        for n, r in vs:
            CTX.bounds[n] = r
        bodies = [_subst(b, mp, names, {}) for b in bodies]
        return mk_bind(op, vs, bodies, a.sort)
    raise AssertionError(k)


def renorm(p, full=False):
    """Rebuild a term under the present facts and application rules."""
    memo = {}

    def RP(q):
        r = ZERO
        for m, c in q.t.items():
            t = to_poly(c)
            for a, e in m:
                x = memo.get(a)
                if x is None:
                    x = RA(a)
                    memo[a] = x
                t = pmul(t, ppow(x, e))
                if not t.t:
                    break
            r = r + t
        return r

    def RA(a):
        k = a.kind
        if k == "v":
            return atom_poly(a)
        if k == "app":
            return app(a.data[0], [RP(x) for x in a.data[1]], a.sort)
        if k == "fd":
            return fdiv(RP(a.data[0]), RP(a.data[1]))
        if k == "md":
            return pmod(RP(a.data[0]), RP(a.data[1]))
        if k == "inv":
            return inv(RP(a.data[0]))
        if k == "ind":
            if a.data[0] == "b":
                (m, _), = a.data[1].t.items()
                b = m[0][0]
                return ind_bool(b.data[0], [RP(x) for x in b.data[1]])
            return ind(a.data[0], RP(a.data[1]))
        if k == "fn":
            return fn(a.data[0], *[RP(x) for x in a.data[1]])
        if k == "sum":
            vs, m = open_sum(a)
            vs = [(n, RP(r)) for n, r in vs]
            for n, r in vs:
                CTX.bounds[n] = r
            return sum_poly(vs, RP(Poly({m: 1})))
        if k == "bind":
            op, vs, bodies = open_bind(a)
            vs = [(n, RP(r)) for n, r in vs]
            for n, r in vs:
                CTX.bounds[n] = r
            return mk_bind(op, vs, [RP(b) for b in bodies], a.sort)
        raise AssertionError(k)
    return RP(p)


def rename_raw(p, ren):
    """Rename variables without re-normalisation of sums' structure (names only, injective)."""
    names = frozenset(ren)
    memo = {}

    def RP(q):
        if not (q.fv & names):
            return q
        return Poly({RM(m): c for m, c in q.t.items()})

    def RM(m):
        if not any(a.fv & names for a, _ in m):
            return m
        return tuple(sorted(((RA(a), e) for a, e in m), key=lambda ae: ae[0].key))

    def RA(a):
        if not (a.fv & names):
            return a
        r = memo.get(a)
        if r is not None:
            return r
        k = a.kind
        if k == "v":
            (m, _), = var(ren[a.data[0]], a.sort).t.items()
            r = m[0][0]
        elif k == "app":
            r = app_atom(a.data[0], tuple(RP(x) for x in a.data[1]), a.sort)
        elif k in ("fd", "md"):
            p1, d1 = RP(a.data[0]), RP(a.data[1])
            r = _mk_atom(k, (p1, d1), "int", f"{k}[{p1.key},{d1.key}]", p1.fv | d1.fv, a.depth)
        elif k == "inv":
            p1 = RP(a.data[0])
            r = _mk_atom("inv", (p1,), "real", f"inv[{p1.key}]", p1.fv, p1.depth)
        elif k == "ind":
            p1 = RP(a.data[1])
            r = _mk_atom("ind", (a.data[0], p1), "int", f"<{a.data[0]}:{p1.key}>", p1.fv, p1.depth)
        elif k == "fn":
            xs = tuple(RP(x) for x in a.data[1])
            fv = EMPTY
            for x in xs:
                fv |= x.fv
            r = _mk_atom("fn", (a.data[0], xs), a.sort, f"{a.data[0]}[" + ",".join(x.key for x in xs) + "]", fv, a.depth)
        elif k == "sum":
            vs, m = a.data
            r = _sum_atom(tuple((n, RP(rg)) for n, rg in vs), RM(m), a.sort)
        elif k == "bind":
            op, vs, bodies = a.data
            r = _bind_atom(op, tuple((n, RP(rg)) for n, rg in vs), tuple(RP(b) for b in bodies), a.sort)
        memo[a] = r
        return r

    return RP(p)


def _sum_atom(vs, m, sort):
    names = frozenset(n for n, _ in vs)
    fv = EMPTY
    for a, _ in m:
        fv |= a.fv
    for _, r in vs:
        fv |= r.fv
    d = 0
    for a, _ in m:
        d = max(d, a.depth)
    for _, r in vs:
        d = max(d, r.depth)
    key = "S{" + ",".join(f"{n}<{r.key}" for n, r in vs) + "|" + mono_key(m) + "}"
    return _mk_atom("sum", (vs, m), sort, key, fv - names, d + 1)


def _bind_atom(op, vs, bodies, sort):
    names = frozenset(n for n, _ in vs)
    fv = EMPTY
    d = 0
    for b in bodies:
        fv |= b.fv
        d = max(d, b.depth)
    for _, r in vs:
        fv |= r.fv
        d = max(d, r.depth)
    key = f"{op}" + "{" + ",".join(f"{n}<{r.key}" for n, r in vs) + "|" + ";".join(b.key for b in bodies) + "}"
    return _mk_atom("bind", (op, vs, bodies), sort, key, fv - names, d + 1)


def open_sum(a):
    vs, m = a.data
    ren = {n: CTX.fresh("s") for n, _ in vs}
    nvs = []
    for n, r in vs:
        nvs.append((ren[n], rename_raw(r, ren)))
    for n, r in nvs:
        CTX.bounds[n] = r
    (m2, c2), = rename_raw(Poly({m: 1}), ren).t.items()
    return nvs, m2


def open_bind(a):
    op, vs, bodies = a.data
    ren = {n: CTX.fresh("b") for n, _ in vs}
    nvs = [(ren[n], rename_raw(r, ren)) for n, r in vs]
    for n, r in nvs:
        CTX.bounds[n] = r
    return op, nvs, [rename_raw(b, ren) for b in bodies]


def mk_bind(op, vs, bodies, sort="real"):
    """Opaque binder: prod / min / max / argmin ... over symbolic ranges."""
    if len(vs) == 1:
        n, r = vs[0]
        c = r.const()
        if c is not None and op in ("prod",) and c <= 8:
            out = ONE
            for k in range(int(c)):
                out = out * subst(bodies[0], {n: to_poly(k)})
            return out
        if c == 1 and op in ("min", "max"):
            return subst(bodies[0], {n: ZERO})
    if op == "prod" and len(vs) == 1:
        n, r = vs[0]
        b = bodies[0]
        if len(b.t) == 1:
            # product of products; factors without the variable become powers (kept opaque unless constant 1)
            (m, c), = b.t.items()
            if c == 1 and not m:
                return ONE
            if c == 1 and len(m) > 1:
                res = ONE
                for a, e in m:
                    res = res * ppow(mk_bind("prod", vs, [atom_poly(a)], sort), e)
                return res
            if c == 1 and len(m) == 1 and m[0][1] > 1:
                return ppow(mk_bind("prod", vs, [atom_poly(m[0][0])], sort), m[0][1])
    if op in ("min", "max") and not any(n in b.fv for b in bodies for n, _ in vs):
        return bodies[0]
    d = 0
    for b in bodies:
        d = max(d, b.depth)
    for _, r in vs:
        d = max(d, r.depth)
    ren = {n: f"%{d + 1}.{i}" for i, (n, _) in enumerate(vs)}
    nvs = tuple((ren[n], rename_raw(r, ren)) for n, r in vs)
    nb = tuple(rename_raw(b, ren) for b in bodies)
    return atom_poly(_bind_atom(op, nvs, nb, sort))


# ---------------------------------------------------------------- sums

def ssum(base, rng, f):
    """Sum of f(v) for 0 <= v < rng."""
    rng = to_poly(rng)
    c = rng.const()
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 8:
            r = ZERO
            for k in range(int(c)):
                r = r + to_poly(f(to_poly(k)))
            return r
    v, n = index_var(base, rng)
    return sum_poly([(n, rng)], to_poly(f(v)))


def sum_poly(vs, poly):
    """Normal form of the sum of poly over the listed variables (outer first)."""
    vs = list(vs)
    if not vs:
        return poly
    if not poly.t:
        return ZERO
    # constant ranges
    for k, (n, r) in enumerate(vs):
        c = r.const()
        if c is not None:
            if c <= 0:
                return ZERO
            if c <= 8:
                rest = vs[:k] + vs[k + 1:]
                out = ZERO
                for j in range(int(c)):
                    mp = {n: to_poly(j)}
                    rr = [(nn, subst(q, mp)) for nn, q in rest]
                    for nn, q in rr:
                        CTX.bounds[nn] = q
                    out = out + sum_poly(rr, subst(poly, mp))
                return out
    # additive ranges: split at indicator thresholds
    for k, (n, r) in enumerate(vs):
        th = _thresholds(poly, n)
        for cpoly in th:
            if any(x in cpoly.fv for x, _ in vs[k + 1:]):
                continue
            if cpoly.is_zero() or cpoly == r:
                continue
            if prove_ge(cpoly) and prove_ge(r - cpoly):
                v1, n1 = index_var("s", cpoly)
                v2, n2 = index_var("s", r - cpoly)
                a = sum_poly(vs[:k] + [(n1, cpoly)] + vs[k + 1:], subst(poly, {n: v1}))
                b = sum_poly(vs[:k] + [(n2, r - cpoly)] + vs[k + 1:], subst(poly, {n: cpoly + v2}))
                return a + b
    # product ranges: split when the body divides by a factor of the range
    for k, (n, r) in enumerate(vs):
        d = _split_divisor(poly, n, r)
        if d is not None:
            q, _ = _divmod_poly(r, d)
            va, na = index_var("s", q)
            vb, nb = index_var("s", d)
            mp = {n: va * d + vb}
            rest = [(nn, subst(x, mp)) for nn, x in vs[k + 1:]]
            for nn, x in rest:
                CTX.bounds[nn] = x
            return sum_poly(vs[:k] + [(na, q), (nb, d)] + rest, subst(poly, mp))
    out = ZERO
    acc = {}
    for m, c in poly.t.items():
        s = _sum_mono(vs, m)
        for mm, cc in s.t.items():
            _add_into(acc, mm, cc * c)
    return Poly(acc)


def _walk_atoms(p, f, seen=None):
    """Visit every atom occurring anywhere in p (inside arguments and binders too)."""
    if seen is None:
        seen = set()
    for m in p.t:
        for a, _ in m:
            _walk_atom(a, f, seen)


def _walk_atom(a, f, seen):
    if a in seen:
        return
    seen.add(a)
    f(a)
    k = a.kind
    if k in ("app", "fn"):
        for x in a.data[1]:
            _walk_atoms(x, f, seen)
    elif k in ("fd", "md"):
        _walk_atoms(a.data[0], f, seen)
        _walk_atoms(a.data[1], f, seen)
    elif k == "inv":
        _walk_atoms(a.data[0], f, seen)
    elif k == "ind":
        _walk_atoms(a.data[1], f, seen)
    elif k == "sum":
        vs, m = a.data
        for _, r in vs:
            _walk_atoms(r, f, seen)
        for b, _ in m:
            _walk_atom(b, f, seen)
    elif k == "bind":
        for _, r in a.data[1]:
            _walk_atoms(r, f, seen)
        for b in a.data[2]:
            _walk_atoms(b, f, seen)


def _thresholds(poly, n):
    """Thresholds c such that the bracket [n >= c] occurs at the top level (or inside sums) of poly."""
    res = {}

    def visit(a):
        if a.kind == "ind" and n in a.fv and a.data[0] == "ge":
            p = a.data[1]
            coef = p.t.get(((_var_atom(n), 1),))
            if coef in (1, -1):
                rest = p - pscale(var(n), coef)
                if n not in rest.fv:
                    c = -rest if coef == 1 else rest + 1
                    if not any(x.startswith("%") for x in c.fv):
                        res[c.key] = c
    _walk_atoms(poly, visit)
    return list(res.values())


def _var_atom(n):
    (m, _), = var(n).t.items()
    return m[0][0]


def _split_divisor(poly, n, r):
    """A proper factor d of range r such that (n div d) or (n mod d) occurs in poly."""
    if r.const() is not None:
        return None
    best = [None]
    va = _var_atom(n)

    def visit(a):
        if a.kind in ("fd", "md") and n in a.fv:
            p, d = a.data
            # the dividend must be n plus a multiple-free remainder: accept exactly n
            if p.t == {((va, 1),): 1} and d.const() != 1:
                q, rem = _divmod_poly(r, d)
                if rem.is_zero() and q.const() != 1:
                    if best[0] is None or len(mono_key(next(iter(d.t)))) > len(mono_key(next(iter(best[0].t)))):
                        best[0] = d
    _walk_atoms(poly, visit)
    return best[0]


def _sum_mono(vs, m):
    """Normal form of the sum over vs of monomial m."""
    names = frozenset(n for n, _ in vs)
    indep, dep = [], []
    for a, e in m:
        (dep if a.fv & names else indep).append((a, e))
    body = []
    vs = list(vs)
    opened = False
    extra_poly = ONE
    for a, e in dep:
        if a.kind == "sum":
            for _ in range(e):
                nvs, mm = open_sum(a)
                vs.extend(nvs)
                body.extend(mm)
            opened = True
        else:
            body.append((a, e))
    if opened:
        # products may now simplify (e.g. squares of square roots, repeated brackets)
        d = {}
        for a, e in body:
            d[a] = d.get(a, 0) + e
        p = simplify_mono(d)
        if indep:
            return pmul(Poly({tuple(indep): 1}), sum_poly(vs, p))
        return sum_poly(vs, p)
    names = frozenset(n for n, _ in vs)
    # 1. Kronecker delta elimination
    for a, e in body:
        if a.kind == "ind" and a.data[0] == "eqi":
            p = a.data[1]
            for k in range(len(vs) - 1, -1, -1):
                n, r = vs[k]
                if n not in p.fv:
                    continue
                va = _var_atom(n)
                coef = p.t.get(((va, 1),))
                if coef not in (1, -1):
                    continue
                rest = p - pscale(var(n), coef)
                if n in rest.fv:
                    continue
                ex = -rest if coef == 1 else rest
                # scope: ranges of other variables may mention n
                mp = {n: ex}
                nvs = []
                bad = False
                for j, (nn, rr) in enumerate(vs):
                    if j == k:
                        continue
                    if nn in ex.fv and n in rr.fv:
                        bad = True
                        break
                    nvs.append((nn, subst(rr, mp)))
                if bad:
                    continue
                # order variables so that ranges only mention earlier ones
                nvs = _toposort(nvs)
                if nvs is None:
                    continue
                for nn, rr in nvs:
                    CTX.bounds[nn] = rr
                rest_body = Poly({tuple((b, f) for b, f in body if b is not a): 1})
                q = subst(rest_body, mp)
                q = q * ind("ge", ex) * ind("ge", subst(r, mp) - 1 - ex)
                res = sum_poly(nvs, q) if nvs else q
                return pmul(Poly({tuple(indep): 1}), res) if indep else res
    # 2. contraction rules (orthonormality and the like)
    for rule in CTX.contract:
        q = rule(vs, body)
        if q is not None:
            nvs, p = q
            res = sum_poly(nvs, p) if nvs else p
            return pmul(Poly({tuple(indep): 1}), res) if indep else res
    # 3. connected components
    comps = _components(vs, body)
    res = Poly({tuple(indep): 1})
    for cvs, cbody in comps:
        if not cbody:
            # sum of 1 over the range
            assert len(cvs) == 1
            res = res * cvs[0][1]
            continue
        # range-only connections are handled in _components
        res = pmul(res, _close_sum(cvs, cbody))
        if not res.t:
            return ZERO
    return res


def _toposort(vs):
    out, pending = [], list(vs)
    done = set()
    names = {n for n, _ in vs}
    while pending:
        for k, (n, r) in enumerate(pending):
            if not ((r.fv & names) - done):
                out.append((n, r))
                done.add(n)
                pending.pop(k)
                break
        else:
            return None
    return out


def _components(vs, body):
    parent = {n: n for n, _ in vs}

    def find(x):
        while parent[x] != x:
            x = parent[x]
        return x

    def union(a, b):
        parent[find(a)] = find(b)

    names = set(parent)
    for a, _ in body:
        ns = [n for n in a.fv if n in names]
        for x in ns[1:]:
            union(ns[0], x)
    for n, r in vs:
        for x in r.fv & names:
            union(n, x)
    groups = {}
    for n, r in vs:
        groups.setdefault(find(n), ([], []))[0].append((n, r))
    for a, e in body:
        for n in a.fv:
            if n in names:
                groups[find(n)][1].append((a, e))
                break
    out = []
    for cvs, cb in groups.values():
        if not cb and len(cvs) > 1:
            # only ranges connect them: sum innermost first
            cvs = _toposort(cvs)
            n, r = cvs[-1]
            p = sum_poly(cvs[:-1], r)
            out.append(([("_", p)], []))
            continue
        out.append((cvs, cb))
    return out


def _close_sum(vs, body):
    """Canonical closed sum atom (connected body)."""
    d = 0
    for a, _ in body:
        d = max(d, a.depth)
    for _, r in vs:
        d = max(d, r.depth)
    names = [n for n, _ in vs]
    rng = dict(vs)
    # colour refinement on bound variables
    col = {n: _mask(rng[n], names) for n in names}
    if len(names) > 1:
        for _ in range(3):
            new = {}
            for n in names:
                sig = []
                for a, e in body:
                    if n in a.fv:
                        sig.append((_mask_atom(a, names, n, col), e))
                rs = [(_mask_named(rng[x], names, n, col), col[x]) for x in names if n in rng[x].fv]
                new[n] = (col[n] if isinstance(col[n], str) else str(col[n])) + "|" + str(sorted(sig)) + str(sorted(rs))
            # compress
            ranks = {c: i for i, c in enumerate(sorted(set(new.values())))}
            nc = {n: f"c{ranks[new[n]]}" for n in names}
            if len(set(nc.values())) == len(set(col.values())) and _ > 0:
                col = nc
                break
            col = nc
    classes = {}
    for n in names:
        classes.setdefault(col[n], []).append(n)
    groups = [classes[c] for c in sorted(classes)]
    total = 1
    for g in groups:
        for i in range(2, len(g) + 1):
            total *= i
    best = None
    body_poly = Poly({mono_of(dict(body)): 1})
    perms = itertools.product(*[itertools.permutations(g) for g in groups]) if total <= 5040 else [groups]
    for combo in perms:
        order = [n for g in combo for n in g]
        ren = {n: f"%{d + 1}.{i}" for i, n in enumerate(order)}
        nvs = tuple((ren[n], rename_raw(rng[n], ren)) for n in order)
        (mm, _), = rename_raw(body_poly, ren).t.items()
        sort = "int" if all(a.sort == "int" for a, _ in mm) else "real"
        k = ",".join(r.key for _, r in nvs) + mono_key(mm)
        if best is None or k < best[0]:
            best = (k, nvs, mm, sort)
    _, nvs, mm, sort = best
    # canonical order must respect range scoping for opening; scoping is by name so order is irrelevant
    return atom_poly(_sum_atom(nvs, mm, sort))


def _mask(p, names):
    ren = {n: "%?" for n in names if n in p.fv}
    return rename_raw(p, ren).key if ren else p.key


def _mask_named(p, names, n, col):
    ren = {x: ("%me" if x == n else "%" + str(col[x])) for x in names if x in p.fv}
    return rename_raw(p, ren).key


def _mask_atom(a, names, n, col):
    ren = {x: ("%me" if x == n else "%" + str(col[x])) for x in names if x in a.fv}
    return rename_raw(atom_poly(a), ren).key


# ---------------------------------------------------------------- printing

def pretty(p, limit=2000):
    if not p.t:
        return "0"
    parts = []
    for m in sorted(p.t, key=mono_key):
        c = p.t[m]
        s = "*".join(_pa(a) if e == 1 else f"{_pa(a)}^{e}" for a, e in m)
        if not m:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = f"{c}*{s}"
        parts.append(s)
    r = " + ".join(parts)
    return r if len(r) <= limit else r[:limit] + "..."


def _pa(a):
    k = a.kind
    if k == "v":
        return a.data[0]
    if k == "app":
        return f"{a.data[0]}[{', '.join(pretty(x) for x in a.data[1])}]"
    if k == "fd":
        return f"({pretty(a.data[0])} div {pretty(a.data[1])})"
    if k == "md":
        return f"({pretty(a.data[0])} mod {pretty(a.data[1])})"
    if k == "inv":
        return f"1/({pretty(a.data[0])})"
    if k == "ind":
        s = {"ge": ">= 0", "eqi": "== 0", "eqr": "== 0", "gt": "> 0", "b": ""}[a.data[0]]
        return f"[{pretty(a.data[1])} {s}]"
    if k == "fn":
        return f"{a.data[0]}({', '.join(pretty(x) for x in a.data[1])})"
    if k == "sum":
        return "Sum{" + ", ".join(f"{n}<{pretty(r)}" for n, r in a.data[0]) + " | " + \
            "*".join(_pa(b) if e == 1 else f"{_pa(b)}^{e}" for b, e in a.data[1]) + "}"
    return f"{a.data[0]}" + "{" + ", ".join(f"{n}<{pretty(r)}" for n, r in a.data[1]) + " | " + \
        "; ".join(pretty(b) for b in a.data[2]) + "}"
