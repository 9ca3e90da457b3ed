import numpy as np
from tenkit import utils
from tenkit.decomposition.decompositions import KruskalTensor
from .common import *

KINDS = ("signs", "signs", "flip", "prepare", "util", "first")
FL = ("normal", "nonneg", "ints", "zeros", "scaled", "negative", "ties")


def fixed(tier):
    out = []
    for n in (2, 3, 4):
        for R in (1, 2, 3):
            for fl in ("normal", "ints", "negative"):
                for d in ("model", "random", "zero"):
                    out.append(dict(kind="signs", shape=[4, 5, 3, 4][:n], R=R, fl=fl, lay="C", data=d))
    for k in ("flip", "prepare"):
        for n in (1, 2, 3):
            for fl in FL:
                for rows in (1, 2, 4):
                    out.append(dict(kind=k, shape=[rows, 5, 3][:n], R=3, fl=fl, lay="C", data="model"))
                    out.append(dict(kind=k, shape=[rows, 5, 3][:n], R=3, fl=fl, lay="C", data="model", int=True))
    for fl in FL:
        out.append(dict(kind="util", shape=[4, 5], R=3, fl=fl, lay="C", data="random"))
        out.append(dict(kind="first", shape=[6], R=1, fl=fl, lay="C", data="random"))
    return out


def random_case(rng, tier):
    k = pick(rng, KINDS)
    n = {"util": 2, "first": 1}.get(k) or int(rng.integers(2 if k == "signs" else 1, 5))
    return dict(kind=k, shape=sizes(rng, n, 1, 6), R=int(rng.integers(1, 5)), fl=pick(rng, FL), lay=pick(rng, LAYOUTS), data=pick(rng, ("model", "noisy", "random", "zero")), int=bool(rng.integers(2)))


def gen(rng, shape, fl, lay):
    if fl == "ties":
        x = values(rng, shape, "ints")
        for r in range(shape[1]):
            n = shape[0] // 2
            c = np.concatenate([np.ones(n), -np.ones(n), np.zeros(shape[0] - 2 * n)]) * (1 + rng.random(shape[0]))
            x[:, r] = rng.permutation(c)
        return layout(rng, x, lay)
    x = arr(rng, shape, fl, lay)
    return x


def check_flip(what, col, out, s):
    s = float(s)
    assert s in (1.0, -1.0, 0.0), f"{what}: sign {s}"
    sg = np.sign(col)
    bal = int(sg.sum())
    if bal:
        exp = np.sign(bal)
    else:
        nz = sg[sg != 0]
        exp = nz[0] if len(nz) else 0
    assert s == exp, f"{what}: sign {s} instead of {exp}"
    close_entry(out, col * s, 1e-12, what)


def check(case):
    rng = rng_of(case)
    shape, R = case["shape"], case["R"]
    if case["kind"] == "first":
        v = gen(rng, (shape[0], 1), case["fl"], case["lay"])[:, 0]
        v[:int(rng.integers(0, len(v) + 1))] = 0
        f = Frame(v=v)
        nz = [x for x in np.sign(v) if x]
        assert utils._find_first_nonzero_sign(v) == (nz[0] if nz else 0), "first nonzero sign"
        f.check()
        return
    fs = [gen(rng, (d, R), case["fl"], case["lay"]) for d in shape]
    if case["kind"] == "flip":
        if case.get("int"):
            fs = [np.rint(2 * a).astype(int) for a in fs]
        f = Frame(fs=fs)
        out, signs = utils.flip_factors(fs)
        assert len(out) == len(signs) == len(fs)
        for m, (a, o, s) in enumerate(zip(fs, out, signs)):
            assert np.shape(s) == (R,), "shape of the signs"
            for r in range(R):
                check_flip(f"factor {m} column {r}", a[:, r], o[:, r], s[r])
        f.check()
        return
    if case["kind"] == "prepare":
        for a in fs:
            if (np.sqrt((a * a).sum(0)) < 1e-3).any():
                raise Skip
        f = Frame(fs=fs)
        out, signs, norms = utils.prepare_for_comparison(fs)
        for m, (a, o, s, n) in enumerate(zip(fs, out, signs, norms)):
            nn = np.sqrt((a * a).sum(0))
            close(np.ravel(n), nn, 1e-10, "norms")
            for r in range(R):
                check_flip(f"factor {m} column {r}", a[:, r] / nn[r], o[:, r], s[r])
        f.check()
        return
    if case["kind"] == "util":
        A = fs[0]
        X = rng.standard_normal((shape[0], shape[1]))
        f = Frame(A=A, X=X)
        s, w = utils.get_signs(A, X)
        x = np.linalg.lstsq(A, X, rcond=None)[0]
        e = (np.sign(x) * x * x).sum(1)
        close(w, e, 1e-7, "sign scores", scale=max((x * x).sum(), 1e-300))
        big = np.abs(e) > 1e-7 * max((x * x).sum(), 1e-300)
        assert np.array_equal(s[big], np.sign(e)[big]), "signs of the scores"
        s, w = utils.get_signs(A, None)
        t = A.sum(0)
        ok = (np.abs(t) > 1e-9 * np.abs(A).sum(0)) | (t == 0)
        assert np.array_equal(s[ok], np.where(t >= 0, 1, -1)[ok]), "signs of the column sums"
        f.check()
        return
    w = rng.standard_normal(R)
    K = KruskalTensor(fs, w)
    X = kruskal(fs, w)
    if case["data"] == "noisy":
        X = X + 0.5 * rng.standard_normal(X.shape) * (np.abs(X).max() or 1)
    elif case["data"] == "random":
        X = rng.standard_normal(X.shape)
    elif case["data"] == "zero":
        X = np.zeros(X.shape)
    f = Frame(fs=fs, w=w, X=X)
    signs = K.get_signs(X)
    assert len(signs) == len(fs), "number of sign arrays"
    S = np.array([np.asarray(s) for s in signs])
    assert S.shape == (len(fs), R), "shape of the signs"
    assert np.all(np.abs(S) == 1), f"signs are not +-1: {S.tolist()}"
    assert np.all(S.prod(0) == 1), f"product of the signs over the modes is not 1: {S.tolist()}"
    close(kruskal([a * s for a, s in zip(fs, S)], w), kruskal(fs, w), 1e-10, "tensor after applying the signs")
    sc, tol = [], []
    for m, a in enumerate(fs):
        x = np.linalg.lstsq(a, unfold(X, m), rcond=None)[0]
        sc.append((np.sign(x) * x * x).sum(1))
        tol.append(1e-7 * max((x * x).sum(), 1e-300))
    sc, tol = np.array(sc), np.array(tol)
    own = np.array([np.asarray(v, float) for v in K.get_sign_scores(X)])
    assert own.shape == sc.shape, "shape of the sign scores"
    assert np.all(np.abs(own - sc) <= tol[:, None]), "sign scores"
    for r in range(R):
        bad = [m for m in range(len(fs)) if S[m, r] * sc[m, r] < 0 and abs(sc[m, r]) > tol[m]]
        assert len(bad) <= 1, f"component {r}: modes {bad} disagree with their scores {sc[:, r]}"
        for m in bad:
            assert all(abs(sc[m, r]) <= abs(sc[k, r]) + tol[m] + tol[k] for k in range(len(fs))), \
                f"component {r}: mode {m} was flipped against its score although it is not the weakest: {sc[:, r]}"
    f.check()
