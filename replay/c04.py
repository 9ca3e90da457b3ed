import numpy as np
from tenkit import base
from .common import *


def fixed(tier):
    out = []
    for k in ("solve", "nonneg", "nonneg1d", "orth", "rorth"):
        for (n, m, p) in [(2, 3, 4), (1, 1, 1), (3, 3, 3), (1, 4, 2), (2, 5, 9), (12, 20, 12)]:
            out.append(dict(kind=k, n=n, m=m, p=p, ridge=None, fl="normal", lay="C"))
            out.append(dict(kind=k, n=n, m=m, p=p, ridge=0.7, fl="normal", lay="C"))
    out += [dict(kind="solve", n=4, m=2, p=3, ridge=None, fl="normal", lay="C"), dict(kind="solve", n=4, m=2, p=3, ridge=0.3, fl="normal", lay="C"),
            dict(kind="exactdef", n=4, m=6, p=3, ridge=None, fl="normal", lay="C"), dict(kind="solve", n=2, m=3, p=4, ridge=0.0, fl="normal", lay="C")]
    for k in ("solve", "nonneg"):
        for ridge in (None, 0.5):
            out.append(dict(kind=k, n=2, m=3, p=5, ridge=ridge, fl="normal", lay="C", z=True))
            out.append(dict(kind=k, n=3, m=4, p=2, ridge=ridge, fl="ints", lay="F", z=True))
    for k in ("solve", "nonneg", "orth", "rorth"):
        for e in (-3, -5, -6):
            out.append(dict(kind=k, n=3, m=5, p=4, ridge=None, fl="illcond", e=e, lay="C"))
        out.append(dict(kind=k, n=3, m=5, p=4, ridge=None, fl="int", lay="C"))
    return out


def random_case(rng, tier):
    k = pick(rng, ["solve", "solve", "nonneg", "nonneg1d", "orth", "rorth", "exactdef"])
    n = size(rng, 1, 5)
    return dict(kind=k, n=n, m=n + int(rng.integers(0, 6)), p=size(rng, 1, 7), ridge=pick(rng, [None, None, 0.0, 0.01, 1.0, 50.0]),
                fl=pick(rng, ["normal", "nonneg", "ints", "int", "scaled", "negative", "illcond"]), e=int(rng.integers(-6, 1)), z=bool(rng.random() < .2), lay=pick(rng, LAYOUTS))


def check(c):
    rng = rng_of(c)
    k, n, m, p, lam = c["kind"], c["n"], c["m"], c["p"], c["ridge"]
    l = lam or 0.0
    if k in ("orth", "rorth"):
        r, q = n, n + p          # r <= q
        a, b = arr(rng, (m, r), c["fl"], c["lay"]), arr(rng, (m, q), c["fl"], c["lay"])
        if c["fl"] == "illcond":
            a = layout(rng, a * np.logspace(0, c["e"], r), c["lay"])
            b = layout(rng, np.linalg.qr(values(rng, (q, q)))[0][:m] if m <= q else b, c["lay"])
        sv = np.linalg.svd(b.T @ a, compute_uv=False)
        if len(sv) < r or sv[0] == 0 or sv[-1] < 1e-7 * sv[0]:
            raise Skip()
        fr = Frame(a=a, b=b)
        f = base.orthogonal_rightsolve if k == "rorth" else base.orthogonal_solve
        if k == "rorth" and lam is not None:
            f = base.add_rightsolve_ridge(f, lam)
        X = f(a.T, b.T).T if k == "rorth" else f(a, b)
        close(X @ X.T, np.eye(r), what="orthonormal rows", tol=1e-7)
        best = np.sum(a ** 2) + np.sum(b ** 2) - 2 * sv.sum()
        got = np.sum((a @ X - b) ** 2)
        assert got <= best + 1e-7 * (np.sum(a ** 2) + np.sum(b ** 2)), "not optimal among matrices with orthonormal rows"
        fr.check()
        return
    A = arr(rng, (n, m), c["fl"], c["lay"])
    if c["fl"] == "illcond":
        A = layout(rng, A * np.logspace(0, c["e"], n)[:, None], c["lay"])
    if k == "exactdef":
        A = np.round(A * 4) / 4
        A[-1] = A[0]
    B = arr(rng, (p, m), c["fl"], c["lay"])
    if c.get("z") and p > 1:
        B[p // 2] = 0        # a row without data
    if k == "nonneg1d":
        B = B[0]
    sv = np.linalg.svd(A, compute_uv=False)
    if k != "exactdef" and (sv[0] == 0 or sv[-1] < 1e-7 * sv[0]):
        raise Skip()
    fr = Frame(A=A, B=B)
    B2 = B[None] if B.ndim == 1 else B
    sc = np.linalg.norm(A) ** 2 + l
    if k in ("solve", "exactdef"):
        if k == "exactdef":
            # normal equations up to rounding of a singular matrix: only with a ridge is the problem well posed
            lam = 0.5 if lam in (None, 0.0) else lam
            l = lam
        f = base.rightsolve if lam is None else base.add_rightsolve_ridge(base.rightsolve, lam)
        X = f(A, B)
        g = (X @ A - B) @ A.T + l * X
        close(g, np.zeros((p, n)), tol=1e-8, scale=(np.linalg.norm(A) ** 2 + l) * (np.linalg.norm(X) + 1) + np.linalg.norm(A) * np.linalg.norm(B), what="normal equations")
    else:
        f = base.non_negative_rightsolve
        if lam is not None and B.ndim == 2:
            f = base.add_rightsolve_ridge(f, lam)
        else:
            l = 0.0
        X = f(A, B)
        assert X.shape == (B2.shape[0], n), "shape"
        assert np.all(X >= 0), "negative entry"
        g = (X @ A - B2) @ A.T + l * X
        t = 1e-8 * ((np.linalg.norm(A) ** 2 + l) * (np.linalg.norm(X) + 1) + np.linalg.norm(A) * np.linalg.norm(B))
        assert np.all(g >= -t), "not optimal: decreasing direction"
        assert np.all(np.abs(X * g) <= t * (1 + np.abs(X).max())), "not optimal: complementary slackness"
    assert X.shape == (B2.shape[0], n), "shape"
    fr.check()
