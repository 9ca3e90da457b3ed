"""itertools and friends."""
import itertools
from .alg import to_poly, ONE, ZERO, ind, int_lt
from .vals import *
from .vals import _MISSING


class PermSeq:
    """itertools.permutations(range(n)) with symbolic n: an opaque set of bijections."""

    def __init__(self, n, base=None, r=None):
        self.n, self.base, self.r = n, base, n if r is None else r


def conc(I, v):
    s = I.as_seq(v)
    if isinstance(s, list):
        return s
    raise Unsupported("itertools on a sequence of symbolic length")


def permutations(I, a, kw):
    s = I.as_seq(a[0])
    r = a[1] if len(a) > 1 else kw.get("r")
    if isinstance(s, list) and (r is None or isinstance(r, int)):
        return PList([tuple(x) for x in itertools.permutations(s, r)])
    if isinstance(s, list):
        l = s
        return PermSeq(to_poly(len(l)), lambda k: I.getitem(PList(list(l)), num(k, "i")), P(r))
    return PermSeq(s.n, s.getf, None if r is None else P(r))


def product(I, a, kw):
    rep = kw.get("repeat", 1)
    return PList([tuple(x) for x in itertools.product(*[conc(I, x) for x in a], repeat=rep)])


def combinations(I, a, kw):
    return PList([tuple(x) for x in itertools.combinations(conc(I, a[0]), a[1])])


def chain(I, a, kw):
    from . import ops
    import ast
    r = PList([])
    for x in a:
        s = I.as_seq(x)
        r = ops.binop(I, ast.Add(), r, PList(s) if isinstance(s, list) else PList(None, s.n, s.getf))
    return r


def chain_from(I, a, kw):
    return chain(I, conc(I, a[0]), {})


def accumulate(I, a, kw):
    import ast
    from . import ops
    f = a[1] if len(a) > 1 else None
    out = []
    for x in conc(I, a[0]):
        if not out:
            out.append(x)
        else:
            out.append(I.call(f, [out[-1], x], {}) if f else ops.binop(I, ast.Add(), out[-1], x))
    return PList(out)


def repeat(I, a, kw):
    if len(a) == 1:
        raise Unsupported("infinite repeat")
    if isinstance(a[1], int):
        return PList([a[0]] * a[1])
    return PList(None, P(a[1]), lambda j: a[0])


def islice(I, a, kw):
    return I.getitem(a[0] if isinstance(a[0], PList) else PList(conc(I, a[0])), slice(*a[1:]))


class Count:
    def __init__(self, start, step):
        self.start, self.step = start, step


def module(I):
    from .interp import PModule, Builtin
    m = PModule("itertools")
    for k, f in dict(permutations=permutations, product=product, combinations=combinations, chain=chain, accumulate=accumulate,
                     repeat=repeat, islice=islice).items():
        m.attrs[k] = Builtin(k, f)
    m.attrs["count"] = Builtin("count", lambda I, a, kw: Count(a[0] if a else 0, a[1] if len(a) > 1 else 1))
    m.lazy = lambda n: Builtin(n, lambda I, a, kw: _u(n)) if hasattr(itertools, n) else None
    return m


def _u(n):
    raise Unsupported("itertools." + n)
