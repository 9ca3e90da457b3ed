import numpy as np
from tenkit import metrics
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor
from .common import *

KINDS = ("core", "core", "ktcore", "ktcore", "core_pf2", "percent", "completion", "leverage", "degeneracy", "evolving", "weight", "congruence")


def fixed(tier):
    out = []
    for k in KINDS:
        for R in (1, 2, 3):
            for o in range(3):
                out.append(dict(kind=k, shape=[R + (o == 1), R + 2 * (o > 0), R + 1 + o], R=R, fl="normal", lay="C", opt=o))
    return out


def random_case(rng, tier):
    R = int(rng.integers(1, 4))
    return dict(kind=pick(rng, KINDS), shape=[R + int(rng.integers(0, 4)) for _ in range(3)], R=R, fl=pick(rng, ("normal", "nonneg", "ints", "scaled", "zeros")),
                lay=pick(rng, LAYOUTS), opt=int(rng.integers(6)))


def core_ref(X, fs, w, normalized):
    """least-squares core for the factors with the components' size spread evenly"""
    R = fs[0].shape[1]
    us, size = [], np.abs(w).astype(float)
    for f in fs:
        n = np.sqrt((f * f).sum(0))
        us.append(f / n)
        size = size * n
    us = [u * np.cbrt(size) for u in us]
    us[0] = us[0] * np.sign(w)
    G = X
    for m, u in enumerate(us):
        p = np.linalg.solve(u.T @ u, u.T)
        G = np.moveaxis(np.tensordot(p, G, (1, m)), 0, m)
    T = np.zeros((R, R, R))
    for r in range(R):
        T[r, r, r] = 1
    den = (G ** 2).sum() if normalized else R
    return 100 * (1 - ((G - T) ** 2).sum() / den), 100 * ((G ** 2).sum() + R) / den


def factor(rng, n, R, fl, lay):
    f = arr(rng, (n, R), fl, lay)
    s = np.linalg.svd(f / np.maximum(np.sqrt((f * f).sum(0)), 1e-300), compute_uv=False)
    if n < R or (f == 0).all(0).any() or s[-1] < 5e-2:
        raise Skip
    return f


def check(case):
    rng = rng_of(case)
    shape, R, k, fl, lay, opt = case["shape"], case["R"], case["kind"], case["fl"], case["lay"], case["opt"]
    if k in ("core", "ktcore"):
        fs = [factor(rng, d, R, fl, lay) for d in shape]
        w = rng.standard_normal(R) if k == "ktcore" else np.ones(R)
        if opt % 2 and k == "ktcore":
            w = np.abs(w) + .1
        if (np.abs(w) < 1e-2).any():
            raise Skip
        norm = bool(opt % 2)
        # data near the model, noisy or arbitrary
        X = kruskal(fs, w)
        if opt // 2 == 1:
            X = X + .3 * np.abs(X).max() * rng.standard_normal(shape)
        elif opt // 2 == 2:
            X = rng.standard_normal(shape)
        X = layout(rng, X, lay)
        fr = Frame(fs=fs, w=w, X=X)
        if k == "core":
            v = metrics.core_consistency(X, *fs, normalized=norm)
            sp = rng.uniform(.5, 2, (2, R))
            v2 = metrics.core_consistency(X, fs[0] * sp[0], fs[1] / sp[0] * sp[1], fs[2] / sp[1], normalized=norm)
        else:
            K = KruskalTensor(fs, w)
            v = K.core_consistency(X, normalized=norm)
            sp = rng.uniform(.5, 2, (2, R))
            v2 = KruskalTensor([fs[0] * sp[0], fs[1] / sp[0] * sp[1], fs[2]], w / sp[1]).core_consistency(X, normalized=norm)
        e, sc = core_ref(X, fs, w, norm)
        close(float(v), e, 1e-6, "core consistency", scale=abs(sc) + 100)
        close(float(v2), e, 1e-6, "core consistency with the norms spread differently", scale=abs(sc) + 100)
        if opt // 2 == 0:
            close(float(v), 100, 1e-6, "core consistency of the exact model")
        fr.check()
    elif k == "core_pf2":
        I, K = shape[0], shape[2]
        A, F, C = factor(rng, I, R, "normal", lay), factor(rng, R, R, "normal", lay), factor(rng, K, R, "normal", lay)
        P = [np.linalg.qr(rng.standard_normal((R + int(rng.integers(0, 4)), R)))[0] for _ in range(K)]
        X = [A * c @ F.T @ p.T + .1 * (opt % 2) * rng.standard_normal((I, p.shape[0])) for c, p in zip(C, P)]
        v = metrics.core_consistency_parafac2(X, P, A, F, C)
        Y = np.stack([x @ p for x, p in zip(X, P)], axis=-1)
        e, sc = core_ref(Y, [A, F, C], np.ones(R), False)
        close(float(v), e, 1e-6, "PARAFAC2 core consistency", scale=abs(sc) + 100)
    elif k in ("percent", "completion"):
        sh = (shape + [2])[:1 + opt % 4]
        X, Y = arr(rng, sh, fl, lay), arr(rng, sh, "normal", lay)
        W = np.asarray(rng.random(sh) < .5, dtype=float if opt % 2 else int)
        if (X ** 2).sum() < 1e-12 or (k == "completion" and ((1 - W) * X ** 2).sum() < 1e-12):
            raise Skip
        fr = Frame(X=X, Y=Y, W=W)
        if k == "percent":
            close(float(metrics.percent_explained(X, Y)), 1 - ((X - Y) ** 2).sum() / (X ** 2).sum(), 1e-9, "explained fraction", scale=1 + ((X - Y) ** 2).sum() / (X ** 2).sum())
        else:
            m = W == 0
            close(float(metrics.tensor_completion_score(X, Y, W)), np.sqrt(((X - Y)[m] ** 2).sum() / (X[m] ** 2).sum()), 1e-9, "completion score")
        fr.check()
    elif k == "leverage":
        A = factor(rng, shape[2], R, fl, lay)
        if opt % 2:
            # components of very different sizes (full column rank all the same)
            A = layout(rng, A * np.logspace(0, -3, R) if opt % 4 == 1 else A * np.logspace(-3, 0, R), lay)
        fr = Frame(A=A)
        q, _ = np.linalg.qr(A)
        close(metrics.leverage(A), (q * q).sum(1), 1e-5, "leverage", scale=1)
        fr.check()
    elif k in ("degeneracy", "congruence"):
        n = 2 if k == "congruence" else 1 + opt % 4
        fs = [arr(rng, (d, R), fl, lay) for d in ([shape[0]] * 2 if k == "congruence" else (shape + [2])[:n])]
        if any((f == 0).all(0).any() for f in fs):
            raise Skip
        fr = Frame(fs=fs)
        if k == "congruence":
            a, b = [f / np.sqrt((f * f).sum(0)) for f in fs]
            close(metrics._tucker_congruence(*fs), a.T @ b, 1e-9, "congruence", scale=1)
        else:
            e = np.ones((R, R))
            for f in fs:
                u = f / np.sqrt((f * f).sum(0))
                e = e * (u.T @ u)
            close(KruskalTensor(fs, rng.standard_normal(R)).degeneracy(), e, 1e-9, "degeneracy", scale=1)
        fr.check()
    elif k == "evolving":
        I, J, K = shape
        A, C = arr(rng, (I, R), fl, lay), arr(rng, (K, R), fl, lay)
        B = [arr(rng, (J, R), "normal") for _ in range(K)]
        if any((f == 0).all(0).any() for f in [A, C]):
            raise Skip
        e = np.ones((R, R))
        for f in (A, np.concatenate(B), C):
            u = f / np.sqrt((f * f).sum(0))
            e = e * (u.T @ u)
        close(EvolvingTensor(A, B, C).degeneracy(), e, 1e-9, "degeneracy of an evolving tensor", scale=1)
    elif k == "weight":
        a, b = rng.uniform(.01, 5, 2) if opt else (2., 2.)
        close(float(metrics.weight_score(a, b)), abs(a - b) / max(a, b), 1e-12, "weight score", scale=1)
