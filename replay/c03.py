import numpy as np
from tenkit import base
from .common import *


def fixed(tier):
    out = []
    for n in (2, 3, 4, 5, 6):
        for m in range(n):
            out.append(dict(kind="mttkrp", shape=[2, 3, 4, 3, 2, 2][:n], mode=m, R=2, fl="normal", lay="C"))
    for m in range(3):
        out.append(dict(kind="mttkrp", shape=[3, 4, 2], mode=m, R=2, fl="normal", lay="C", xfl="int"))
    out += [dict(kind="mttkrp", shape=[2, 3, 4], mode=-1, R=2, fl="normal", lay="C"), dict(kind="mttkrp", shape=[3, 3, 3], mode=1, R=3, fl="normal", lay="C"),
            dict(kind="mttkrp", shape=[12, 11, 13], mode=1, R=12, fl="normal", lay="C"), dict(kind="kr", shape=[20, 30], R=2, skip=None, fl="normal", lay="C"),
            dict(kind="kr", shape=[2, 2, 2, 2, 2, 2, 2], R=2, skip=3, fl="normal", lay="C"), dict(kind="kron", shape=[2, 1, 3], cols=[3, 2, 1], fl="normal", lay="C")]
    return out


def random_case(rng, tier):
    k = pick(rng, ["kr", "kron", "mttkrp", "mttkrp"])
    n = int(rng.integers(2, 6)) if k != "kron" else int(rng.integers(1, 4))
    sh = sizes(rng, n, 1, 6 if n < 5 else 3)
    c = dict(kind=k, shape=sh, fl=pick(rng, FLAVOURS + ("int",)), lay=pick(rng, LAYOUTS), R=size(rng, 1, 5))
    if k == "kr":
        c["skip"] = pick(rng, [None] + list(range(-n, n)))
    elif k == "kron":
        c["cols"] = sizes(rng, n, 1, 5)
    else:
        c["mode"] = int(rng.integers(0, n))
        c["xfl"] = pick(rng, FLAVOURS + ("int",))
    return c


def check(c):
    rng = rng_of(c)
    if c["kind"] == "kron":
        fs = [arr(rng, (d, e), c["fl"], c["lay"]) for d, e in zip(c["shape"], c["cols"])]
        fr = Frame(fs=fs)
        exp = fs[0]
        for f in fs[1:]:
            exp = np.einsum("ij,kl->ikjl", exp, f).reshape(exp.shape[0] * f.shape[0], exp.shape[1] * f.shape[1])
        close_entry(base.kron(*fs), exp, what="kron")
        if len(fs) > 1:
            close_entry(base.kron_binary_vectors(fs[0][:, 0], fs[1][:, 0]), np.outer(fs[0][:, 0], fs[1][:, 0]).ravel(), what="kron of vectors")
        fr.check()
        return
    fs = [arr(rng, (d, c["R"]), c["fl"], c["lay"]) for d in c["shape"]]
    if c["kind"] == "kr":
        fr = Frame(fs=fs)
        rest = list(fs)
        if c["skip"] is not None:
            rest.pop(c["skip"])
        close_entry(base.khatri_rao(*fs, skip=c["skip"]), khatri_rao(rest), what="khatri_rao")
        fr.check()
        return
    X = arr(rng, c["shape"], c.get("xfl", c["fl"]), c["lay"])
    fr = Frame(fs=fs, X=X)
    m = c["mode"]
    rest = list(fs)
    rest.pop(m)
    M = base.matrix_khatri_rao_product(X, fs, m)
    close(M, unfold(X, m) @ khatri_rao(rest), what="mttkrp", tol=1e-10, scale=max(1e-300, float((np.abs(unfold(X, m)) @ np.abs(khatri_rao(rest))).max())))
    fr.check()
