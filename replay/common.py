"""Generators and oracles shared by the run-time contracts.

A case is a JSON object: its kind, sizes and a seed; arrays are rebuilt from the
seed, so that every case can be replayed on its own.
"""
import ast
import itertools
import os
import numpy as np


class Skip(Exception):
    """The case does not satisfy the precondition of the contract."""


HINTS = []          # integers worth trying as sizes (branch constants of the code under test, solver models)


def load_hints(repo, extra=()):
    """Small integer literals of the source under test (and their neighbours) are tried as sizes."""
    s = set(int(e) for e in extra if 1 <= int(e) <= 40)
    for d, _, fs in os.walk(os.path.join(repo, "src", "tenkit")):
        if "tests" in d:
            continue
        for f in fs:
            if not f.endswith(".py"):
                continue
            try:
                t = ast.parse(open(os.path.join(d, f)).read())
            except SyntaxError:
                continue
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and type(n.value) is int and 3 <= n.value <= 30:
                    s |= {n.value, n.value + 1}
    HINTS[:] = sorted(s)


def size(rng, lo=1, hi=6, big=0.08):
    """A dimension: mostly small, sometimes 1, sometimes one of the hinted values."""
    u = rng.random()
    if HINTS and u < big:
        c = [h for h in HINTS if h >= lo and h <= 24]
        if c:
            return int(c[int(rng.integers(len(c)))])
    return int(rng.integers(lo, hi + 1))


def sizes(rng, n, lo=1, hi=6):
    u = rng.random()
    if u < 0.2:
        return [size(rng, lo, hi, 0)] * n
    r = [size(rng, lo, hi, 0) for _ in range(n)]
    if u > 0.85:
        r[int(rng.integers(n))] = size(rng, lo, hi, 1.0)
    return r


def rng_of(case):
    return np.random.default_rng(case["seed"])


FLAVOURS = ("normal", "nonneg", "ints", "zeros", "scaled", "tiny")


def values(rng, shape, flavour="normal"):
    x = rng.standard_normal(shape)
    if flavour == "nonneg":
        x = np.abs(x)
    elif flavour == "ints":
        x = np.round(3 * x)
    elif flavour == "int":
        x = np.round(3 * x).astype(np.int64)
    elif flavour == "zeros":
        x = x * (rng.random(shape) < 0.6)
    elif flavour == "scaled":
        x = x * 10.0 ** rng.integers(-3, 4)
    elif flavour == "negative":
        x = -np.abs(x)
    elif flavour == "tiny":
        x = x * 1e-6
    return x


def layout(rng, x, how):
    """The same values with another memory layout."""
    if how == "F":
        return np.asfortranarray(x)
    if how == "strided" and x.ndim:
        y = np.empty(tuple(2 * d for d in x.shape), dtype=x.dtype)
        v = y[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == "reversed" and x.ndim:
        return np.ascontiguousarray(x[::-1])[::-1]
    return np.array(x, order="C")


LAYOUTS = ("C", "C", "C", "F", "strided", "reversed")


def arr(rng, shape, flavour="normal", how="C"):
    return layout(rng, values(rng, tuple(shape), flavour), how)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def close(a, b, tol=1e-8, what="", scale=None):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    if not a.size:
        return
    assert np.all(np.isfinite(a)), f"{what}: not finite"
    s = max(np.max(np.abs(b)), np.max(np.abs(a)) * 1e-3) if scale is None else scale
    e = np.max(np.abs(a - b))
    assert e <= tol * max(s, 1e-300), f"{what}: differs by {e:.3g} (scale {s:.3g})"


def close_entry(a, b, tol=1e-10, what=""):
    """Entrywise comparison relative to every single entry."""
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    bad = ~(np.abs(a - b) <= tol * np.abs(b) + 1e-300)
    assert not bad.any(), f"{what}: {a[bad][:1]} instead of {b[bad][:1]}"


def same(a, b, what=""):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    assert np.array_equal(a, b), f"{what}: not equal"


class Frame:
    """Arrays (or nested lists of arrays) that must not change."""

    def __init__(self, **named):
        self.named = named
        self.copies = {k: self.snap(v) for k, v in named.items()}

    @staticmethod
    def snap(v):
        if isinstance(v, (list, tuple)):
            return [Frame.snap(x) for x in v]
        return None if v is None else np.array(v, copy=True)

    def check(self, what="modified"):
        for k, v in self.named.items():
            self.cmp(v, self.copies[k], f"{what}: {k}")

    @staticmethod
    def cmp(v, c, what):
        if isinstance(v, (list, tuple)):
            assert len(v) == len(c), what + ": length"
            for i, (x, y) in enumerate(zip(v, c)):
                Frame.cmp(x, y, f"{what}[{i}]")
        elif v is not None:
            assert np.array_equal(np.asarray(v), c, equal_nan=True) and np.asarray(v).dtype == c.dtype, what


def raises(what, types, f):
    try:
        f()
    except types:
        return
    raise AssertionError(f"{what}: accepted")


# ---- definitions, by explicit loops or einsum

def kruskal(factors, weights=None):
    R = factors[0].shape[1]
    w = np.ones(R) if weights is None else np.asarray(weights, dtype=float)
    out = np.zeros(tuple(f.shape[0] for f in factors))
    for r in range(R):
        t = np.asarray(w[r])
        for f in factors:
            t = np.multiply.outer(t, np.asarray(f, dtype=float)[:, r])
        out = out + t
    return out


def khatri_rao(factors):
    R = factors[0].shape[1]
    n = int(np.prod([f.shape[0] for f in factors]))
    out = np.empty((n, R))
    for r in range(R):
        v = np.ones(1)
        for f in factors:
            v = np.outer(v, f[:, r]).ravel()
        out[:, r] = v
    return out


def unfold(X, n):
    n = n % X.ndim
    ax = [n] + [m for m in range(X.ndim) if m != n]
    return np.ascontiguousarray(np.transpose(X, ax)).reshape(X.shape[n], -1)


def slices(A, Bs, C):
    return [np.array([[sum(A[i, r] * C[k, r] * B[j, r] for r in range(A.shape[1])) for j in range(B.shape[0])] for i in range(A.shape[0])]).reshape(A.shape[0], B.shape[0])
            for k, B in enumerate(Bs)]
