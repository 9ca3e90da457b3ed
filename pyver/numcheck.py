"""Cross-check of the trusted semantics: random differential testing against CPython and NumPy.

Every snippet below is executed symbolically (arbitrary dimensions and contents) by the interpreter of the verifier;
the resulting terms are then evaluated at random concrete dimensions and contents and compared with what the
installed CPython/NumPy computes for the same text.  Exceptions are compared as well (an exception of NumPy must be
an exception path of the verifier that is feasible at these values, and conversely).
"""
import math
import os
import random
import shutil
import tempfile
from fractions import Fraction
from . import alg, interp, verify, vals, z3back
from .vals import Arr, PList, PDict, PyRaise, SymTuple, param_arr, isnum, P
from .alg import dim, to_poly


class Unevaluable(Exception):
    pass


class Ev:
    """Value of a term at concrete dimensions, contents and bound variables."""

    def __init__(self, ints, arrays):
        self.ints, self.arrays = ints, arrays

    def poly(self, p, env):
        tot = 0
        for m, c in p.t.items():
            tot += self.mono(m, env) * (float(c) if Fraction(c).denominator != 1 else int(c))
        return tot

    def mono(self, m, env):
        v = 1
        # brackets first: the other factors need only be defined where the brackets hold
        for a, e in sorted(m, key=lambda x: x[0].kind != "ind"):
            x = self.atom(a, env)
            if x == 0:
                return 0
            v = v * x ** e
        return v

    def atom(self, a, env):
        k, d = a.kind, a.data
        if k == "v":
            n = d[0]
            if n in env:
                return env[n]
            if n in self.ints:
                return self.ints[n]
            raise Unevaluable(n)
        if k == "app":
            if d[0] in ("f32", "f16"):
                import numpy as np
                return float({"f32": np.float32, "f16": np.float16}[d[0]](self.poly(d[1][0], env)))
            if d[0].startswith("undef"):
                return 2000.0 + hash((d[0], tuple(self.poly(x, env) for x in d[1]))) % 997      # contents of np.empty
            if d[0] not in self.arrays:
                raise Unevaluable(d[0])
            ix = tuple(int(self.poly(x, env)) for x in d[1])
            arr = self.arrays[d[0]]
            if any(i < 0 or i >= n for i, n in zip(ix, arr.shape)):
                return 1000.0 + hash((d[0], ix)) % 997       # applications are total: the result must not depend on this value
            return arr[ix].item()
        if k in ("fd", "md"):
            x, y = self.poly(d[0], env), self.poly(d[1], env)
            return x // y if k == "fd" else x % y
        if k == "inv":
            x = self.poly(d[0], env)
            if x == 0:
                raise ZeroDivisionError
            return 1 / x
        if k == "ind":
            if d[0] == "b":
                raise Unevaluable("opaque")
            x = self.poly(d[1], env)
            if d[0] in ("gt", "eqr") and abs(x) < 1e-11:
                x = 0
            return int({"ge": x >= 0, "eqi": x == 0, "gt": x > 0, "eqr": x == 0}[d[0]])
        if k == "fn":
            x = [self.poly(p, env) for p in d[1]]
            n = d[0]
            if n == "sqrt":
                return math.sqrt(max(x[0], 0)) if x[0] > -1e-9 else math.nan
            if n in ("exp", "log"):
                return getattr(math, n)(x[0])
            if n == "pow":
                return x[0] ** x[1]
            if n == "abs":
                return abs(x[0])
            if n == "sign":
                y = 0 if abs(x[0]) < 1e-11 else x[0]
                return (y > 0) - (y < 0)
            if n == "max":
                return max(x)
            if n == "min":
                return min(x)
            if n == "trunc":
                return math.trunc(x[0])
            if n == "floor":
                return math.floor(x[0])
            raise Unevaluable(n)
        if k == "sum":
            return self.loop(list(d[0]), env, lambda e: self.mono(d[1], e), lambda vs: sum(v for _, v in vs))
        if k == "bind":
            op = d[0]
            def fold(vs):
                vs = list(vs)
                if op == "prod":
                    return math.prod(v for _, v in vs)
                if op in ("min", "max"):
                    return (min if op == "min" else max)(v for _, v in vs)
                if op in ("argmin", "argmax"):
                    x = [v for _, v in vs]
                    return x.index((min if op == "argmin" else max)(x))
                raise Unevaluable(op)
            if len(d[2]) != 1 or op not in ("prod", "min", "max", "argmin", "argmax"):
                raise Unevaluable(op)
            return self.loop(list(d[1]), env, lambda e: self.poly(d[2][0], e), fold)
        raise Unevaluable(k)

    def loop(self, vs, env, body, fold):
        out = []

        def rec(k, e):
            if k == len(vs):
                out.append((e, body(e)))
                return
            n, r = vs[k]
            for t in range(int(self.poly(r, e))):
                rec(k + 1, {**e, n: t})
        rec(0, dict(env))
        return fold(out)


# name -> dimensions, type of the contents
PARAMS = {"A": ("IJ", "f"), "B": ("JK", "f"), "C": ("IJ", "f"), "S": ("JJ", "f"), "T": ("IJK", "f"), "U": ("IJK", "f"), "D": ("KR", "f"),
          "v": ("I", "f"), "u": ("I", "f"), "w": ("J", "f"), "x": ("", "f"), "Z": ("IJ", "i"), "z": ("I", "i"), "H": ("IJKL", "f")}
INTS = {"i": "I", "j": "J", "k": "K"}          # an index into a dimension
DIMS = "IJKLR"

from .numsnip import SNIPPETS      # noqa: E402


def value(I, ev, v, env=None):
    """A symbolic value evaluated to a nested Python/NumPy value."""
    import numpy as np
    env = env or {}
    if isinstance(v, Arr):
        sh = tuple(int(ev.poly(d, env)) for d in v.shape)
        out = np.zeros(sh)
        for ix in np.ndindex(*sh):
            out[ix] = ev.poly(v.at(tuple(to_poly(q) for q in ix)), env)
        return out, v.dtype
    if isinstance(v, str) and ("<num>" in v or "<obj>" in v):
        raise Unevaluable("opaque text")
    if v is None or isinstance(v, str):
        return v
    if isinstance(v, bool) or isnum(v):
        return ev.poly(P(v), env)
    if isinstance(v, SymTuple) or isinstance(v, PList) and v.items is None:
        s = I.as_seq(v)
        if not isinstance(s, list):
            n = int(ev.poly(s.n, env))
            return [value(I, ev, s.getf(to_poly(k)), env) for k in range(n)]
    if isinstance(v, (tuple, PList, list)):
        return [value(I, ev, x, env) for x in I.iter_concrete(v)]
    if isinstance(v, PDict):
        raise Unevaluable("dict")
    raise Unevaluable(type(v).__name__)


def same(got, want):
    import numpy as np
    if isinstance(got, tuple):
        got, k = got
        if not isinstance(want, (np.ndarray, np.generic)):
            return np.ndim(want) == np.ndim(got) and np.allclose(got, want, rtol=1e-9, atol=1e-9)
        if want.shape != got.shape:
            return False
        if k != {"f": "f", "i": "i", "b": "b", "u": "i"}[np.asarray(want).dtype.kind]:
            return False
        return np.allclose(got, np.asarray(want, dtype=float), rtol=1e-9, atol=1e-9, equal_nan=True)
    if isinstance(got, list):
        return hasattr(want, "__len__") and len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    if got is None or isinstance(got, str):
        return got == want if not isinstance(want, np.ndarray) else False
    return np.ndim(want) == 0 and math.isclose(got, float(want), rel_tol=1e-9, abs_tol=1e-9)


def run_one(name, text, repo, module, rng, trials=6):
    """-> (compared, problem or None, unsupported or None)"""
    import inspect
    import numpy as np
    fun = getattr(module, name)
    params = list(inspect.signature(fun).parameters)
    worlds = []
    for t in range(trials):
        ints = {d: rng.randint(1, 4) for d in DIMS}
        if t % 3 == 1:
            ints = {d: 2 for d in DIMS}
        arrays, args = {}, []
        for p in params:
            if p in INTS:
                ints[p + "!i"] = rng.randrange(ints[INTS[p]])
                args.append(ints[p + "!i"])
                continue
            ds, kd = PARAMS[p]
            sh = tuple(ints[d] for d in ds)
            a = np.empty(sh, dtype=float if kd == "f" else int)
            for ix in np.ndindex(*sh):
                a[ix] = rng.choice((0, 1, -1, 2, -2, 3)) if kd == "i" or t % 2 else rng.uniform(-2, 2)
            arrays[p] = a
            args.append(a)
        with np.errstate(all="ignore"):
            try:
                want = ("value", fun(*[a.copy() if isinstance(a, np.ndarray) else a for a in args]))
            except Exception as e:
                want = ("raises", type(e).__name__)
        worlds.append([Ev(ints, arrays), want, 0, []])
    problems = []

    def goal(I):
        args = []
        for p in params:
            if p in INTS:
                q = alg.var(p + "!i")
                n = dim(INTS[p])
                I.ctx.bounds[p + "!i"] = n
                args.append(vals.num(q, "i"))
                continue
            ds, kd = PARAMS[p]
            args.append(param_arr(p, [dim(d) for d in ds], kd))
            args[-1].buf.layout = "C"
        try:
            out = ("value", I.call(I.import_module("tenkit.snip").get(name), args, {}))
        except PyRaise as e:
            if e.etype == "Infeasible":
                raise
            out = ("raises", e.etype)
        for w in worlds:
            ev, want = w[:2]
            try:
                if not all(ev.poly(p, {}) == 1 for p in I.ctx.pc if p is not None):
                    continue
                w[2] += 1
                if out[0] != want[0]:
                    w[3].append(f"{ev.ints}: {out[0]} {out[1] if out[0] == 'raises' else ''} instead of {want}")
                    continue
                if out[0] == "value":
                    got = value(I, ev, out[1])
                    if not same(got, want[1]):
                        w[3].append(f"{ev.ints}: {str(got)[:300]} instead of {str(want[1])[:300]}")
            except ZeroDivisionError:
                w[2] += 1
        I.oblige("run", True)
    r = verify.run_goal(name, goal, repo, None, 400, None)
    for w in worlds:
        # several paths for one input: the memory layout of a reshape is left open (view or copy)
        if w[3] and len(w[3]) == w[2]:
            problems += w[3]
    if r.failed and not problems:
        problems.append(str(r.failed[0])[:300])
    if not problems and not r.unsupported and any(w[2] == 0 for w in worlds):
        problems.append(f"no path of the model covers {[w[0].ints for w in worlds if not w[2]][:1]}")
    return sum(w[2] for w in worlds), problems[0] if problems else None, r.unsupported[0] if r.unsupported else None


def externals(seed=1, trials=60):
    """The contracts assumed for numpy.linalg and scipy (trusted.EXTERNALS), tested on random matrices (also rank deficient)."""
    import numpy as np
    import scipy.optimize
    rng = np.random.default_rng(seed)
    eq = lambda x, y, what: None if np.allclose(x, y, atol=1e-8) else bad.append(what)
    bad = []
    for t in range(trials):
        m, n, k = rng.integers(1, 6, 3)
        A = rng.standard_normal((m, n))
        if t % 3 == 1:
            A = rng.standard_normal((m, 1)) @ rng.standard_normal((1, n))
        if t % 7 == 3:
            A[:, 0] = 0
        B = rng.standard_normal((m, k))
        for full in (False, True):
            U, S, V = np.linalg.svd(A, full_matrices=full)
            r = min(m, n)
            eq(U[:, :r] @ np.diag(S) @ V[:r], A, "svd: product")
            eq(U.T @ U, np.eye(U.shape[1]), "svd: U")
            eq(V @ V.T, np.eye(V.shape[0]), "svd: V")
            if (S < 0).any() or (np.diff(S) > 0).any() or U.shape != (m, m if full else r) or V.shape != (n if full else r, n):
                bad.append("svd: order or shape")
        Q, R = np.linalg.qr(A)
        eq(Q @ R, A, "qr: product")
        eq(Q.T @ Q, np.eye(min(m, n)), "qr: Q")
        eq(R, np.triu(R), "qr: R")
        x = np.linalg.lstsq(A, B, rcond=None)[0]
        eq(A.T @ A @ x, A.T @ B, "lstsq: normal equations")
        P = np.linalg.pinv(A)
        eq(A @ P @ A, A, "pinv: A P A")
        eq(P @ A @ P, P, "pinv: P A P")
        eq(A @ P, (A @ P).T, "pinv: symmetry 1")
        eq(P @ A, (P @ A).T, "pinv: symmetry 2")
        G = A.T @ A + np.eye(n)
        C = rng.standard_normal((n, k))
        eq(G @ np.linalg.solve(G, C), C, "solve")
        eq(G @ np.linalg.inv(G), np.eye(n), "inv")
        b = B[:, 0]
        x, res = scipy.optimize.nnls(A, b)
        g = A.T @ (A @ x - b)
        if (x < 0).any() or (g < -1e-8).any() or abs(g @ x) > 1e-8 or abs(res - np.linalg.norm(A @ x - b)) > 1e-8:
            bad.append("nnls: KKT")
        u = np.random.default_rng(t).random(5)
        if (u < 0).any() or (u >= 1).any():
            bad.append("random: range")
    return sorted(set(bad))


def main(seed=1, trials=6, verbose=False, only=None):
    import importlib.util
    rng = random.Random(seed)
    d = tempfile.mkdtemp(prefix="numcheck")
    try:
        os.makedirs(os.path.join(d, "src", "tenkit"))
        open(os.path.join(d, "src", "tenkit", "__init__.py"), "w").close()
        path = os.path.join(d, "src", "tenkit", "snip.py")
        with open(path, "w") as f:
            f.write("import numpy as np\nimport itertools\nfrom functools import reduce\nfrom copy import copy, deepcopy\n\n")
            for k, s in enumerate(SNIPPETS):
                head, body = s.split(":", 1)
                f.write(f"def s{k}({head}):\n" + ("    return " + body.strip() if "\n" not in body else body.rstrip()) + "\n\n")
        spec = importlib.util.spec_from_file_location("snip", path)
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        bad, unsup, n, done = [], [], 0, 0
        for k, s in enumerate(SNIPPETS):
            if only and only not in s:
                continue
            try:
                c, problem, u = run_one(f"s{k}", s, interp.Repo(d), module, rng, trials)
            except Unevaluable as e:
                c, problem, u = 0, None, f"not evaluable: {e}"
            n += c
            if problem:
                bad.append((s, problem))
            elif u:
                unsup.append((s, u))
            else:
                done += 1
        return dict(snippets=done, comparisons=n, bad=bad, unsupported=unsup)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    import sys
    r = main(only=sys.argv[1] if len(sys.argv) > 1 else None)
    print(r["snippets"], "snippets,", r["comparisons"], "comparisons")
    print("externals:", externals() or "ok")
    for s, p in r["bad"]:
        print("BAD", repr(s)[:200], "::", p[:600])
    for s, p in r["unsupported"]:
        print("UNSUPPORTED", repr(s)[:150], "::", p[:150])
