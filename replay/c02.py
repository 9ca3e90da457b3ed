import numpy as np
from tenkit import base
from .common import *


def fixed(tier):
    out = []
    for n in (1, 2, 3, 4, 5, 6):
        for m in range(-n, n):
            out.append(dict(kind="fold", shape=[2, 3, 4, 2, 3, 2][:n], mode=m, fl="normal", lay="C"))
    out.append(dict(kind="flatten", shape=[3], R=2, fl="normal", lay="C"))
    out.append(dict(kind="flatten", shape=[3, 1, 2, 5, 4, 2, 2], R=4, fl="normal", lay="C"))
    return out


def random_case(rng, tier):
    n = int(rng.integers(1, 6))
    sh = sizes(rng, n, 1, 6 if n < 5 else 4)
    if rng.random() < 0.5:
        return dict(kind="flatten", shape=sh, R=size(rng, 1, 5), fl=pick(rng, FLAVOURS + ("int",)), lay=pick(rng, LAYOUTS))
    return dict(kind="fold", shape=sh, mode=int(rng.integers(-n, n)), fl=pick(rng, FLAVOURS + ("int",)), lay=pick(rng, LAYOUTS))


def check(c):
    rng = rng_of(c)
    if c["kind"] == "fold":
        X = arr(rng, c["shape"], c["fl"], c["lay"])
        m = c["mode"]
        fr = Frame(X=X)
        U = base.unfold(X, m)
        same(U, unfold(X, m), "unfolding")
        for sh in (list(c["shape"]), tuple(c["shape"])):
            keep = list(sh)
            same(base.fold(U, m, sh), X, "fold of unfold")
            assert list(sh) == keep, "shape argument changed"
        M = arr(rng, U.shape, c["fl"], c["lay"])
        fr2 = Frame(M=M)
        T = base.fold(M, m, list(c["shape"]))
        assert T.shape == tuple(c["shape"]), "shape of the folded tensor"
        same(unfold(T, m), M, "unfolding of fold")
        same(base.unfold(T, m), M, "unfold of fold")
        fr.check(); fr2.check()
        return
    fs = [arr(rng, (d, c["R"]), c["fl"], c["lay"]) for d in c["shape"]]
    fr = Frame(fs=fs)
    v = base.flatten_factors(fs)
    same(v, np.concatenate([np.ascontiguousarray(f).reshape(-1) for f in fs]), "flattened")
    out = base.unflatten_factors(v, c["R"], c["shape"])
    assert len(out) == len(fs), "number of factors"
    for a, b in zip(out, fs):
        same(a, b, "unflatten of flatten")
    fr.check()
