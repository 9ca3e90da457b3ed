import numpy as np
from tenkit import utils
from tenkit.decomposition.decompositions import KruskalTensor
from .common import *


def fixed(tier):
    out = []
    for n in (1, 2, 3, 4, 5):
        for u in (True, False):
            out.append(dict(kind="kruskal", shape=[4, 3, 5, 2, 3][:n], R=3, fl="normal", zero=0, update=u, eps=None, w="normal"))
    out += [dict(kind="kruskal", shape=[4, 3, 5], R=3, fl="normal", zero=1, update=True, eps=None, w="normal"),
            dict(kind="kruskal", shape=[4, 3, 5], R=1, fl="tiny", zero=0, update=True, eps=0.0, w="none"),
            dict(kind="kruskal", shape=[1, 1, 1], R=2, fl="normal", zero=0, update=True, eps=None, w="normal"),
            dict(kind="kruskal", shape=[4, 3, 5], R=2, fl="normal", zero=0, update=True, eps=1e-3, w="none"),
            dict(kind="helper", shape=[4, 3, 5], R=2, fl="normal", zero=2, lay="C"), dict(kind="helper", shape=[4], R=2, fl="ints", zero=0, lay="F"),
            dict(kind="kruskal", shape=[4, 3, 5], R=2, fl="mixed", zero=0, update=True, eps=None, w="normal"),
            dict(kind="kruskal", shape=[4, 3, 5], R=2, fl="repeat", zero=0, update=True, eps=None, w="normal"),
            dict(kind="helper", shape=[4, 3], R=3, fl="mixed", zero=0, lay="C")]
    out += [dict(kind="kruskal", shape=[4, 3, 5][:n], R=2, fl="int", zero=0, update=u, eps=None, w=w) for n in (2, 3) for u in (True, False) for w in ("none", "int1")]
    return out


def random_case(rng, tier):
    n = int(rng.integers(1, 6))
    c = dict(kind=pick(rng, ["kruskal", "kruskal", "helper"]), shape=sizes(rng, n, 1, 6 if n < 5 else 4), R=size(rng, 1, 5),
             fl=pick(rng, FLAVOURS + ("mixed", "negative", "unit", "repeat", "int")), zero=int(rng.random() < 0.25))
    if c["kind"] == "kruskal":
        c.update(update=bool(rng.random() < 0.7), eps=pick(rng, [None, None, 0.0, 1e-12]), w=pick(rng, ["none", "normal", "negative", "int1", "zeros"]))
    else:
        c["lay"] = pick(rng, LAYOUTS)
    return c


def make(rng, c):
    fs = []
    for d in c["shape"]:
        if c["fl"] == "mixed":
            f = values(rng, (d, c["R"])) * 10.0 ** rng.integers(-4, 5, size=(1, c["R"]))
        elif c["fl"] == "unit":
            f = values(rng, (d, c["R"]))
            f = f / np.linalg.norm(f, axis=0)
        elif c["fl"] == "repeat":
            f = np.repeat(values(rng, (d, 1)), c["R"], axis=1)
        else:
            f = values(rng, (d, c["R"]), c["fl"])
        fs.append(f)
    for _ in range(c["zero"]):
        fs[int(rng.integers(len(fs)))][:, int(rng.integers(c["R"]))] = 0
    return fs


def check(c):
    rng = rng_of(c)
    fs = make(rng, c)
    old = [f.copy() for f in fs]
    norms = [np.sqrt((f * f).sum(0)) for f in old]
    if c["kind"] == "helper":
        fs = [layout(rng, f, c["lay"]) for f in fs]
        fr = Frame(fs=fs)
        nf, nn = utils.normalize_factors(fs)
        assert len(nf) == len(nn) == len(fs), "number of results"
        for m, f in enumerate(old):
            helper(f, nf[m], nn[m], norms[m], f"normalize_factors {m}")
            a, b = utils.normalize_factor(fs[m])
            helper(f, a, b, norms[m], f"normalize_factor {m}")
        fr.check()
        return
    R = c["R"]
    w = {"none": None, "normal": values(rng, (R,)), "negative": -np.abs(values(rng, (R,))), "int1": np.ones(R, dtype=int), "zeros": values(rng, (R,), "zeros")}[c["w"]]
    w0 = np.ones(R) if w is None else w.copy()
    K = KruskalTensor(fs, w)
    before = kruskal(old, w0)
    kw = {} if c["eps"] is None else {"eps": c["eps"]}
    eps = 1e-15 if c["eps"] is None else c["eps"]
    if eps == 0 and any(np.any(n == 0) for n in norms):
        raise Skip
    if not c["update"]:
        kw["update_weights"] = False
    out = K.normalize_components(**kw)
    assert out is K, "returns the decomposition"
    assert len(K.factor_matrices) == len(old), "number of factor matrices"
    for m, f in enumerate(old):
        new = np.asarray(K.factor_matrices[m])
        assert new.shape == f.shape, "shape of a factor"
        zero = norms[m] == 0
        assert np.all(new[:, zero] == 0), f"factor {m}: a zero column does not stay zero"
        close_entry(new[:, ~zero] * (norms[m][~zero] + eps), f[:, ~zero], 1e-10, f"factor {m}")
        close(np.linalg.norm(new[:, ~zero], axis=0), norms[m][~zero] / (norms[m][~zero] + eps), 1e-9, f"factor {m}: column lengths")
    if c["update"]:
        exp = w0.astype(float).copy()
        for n in norms:
            exp *= n
        close_entry(K.weights, exp, 1e-10, "weights")
        if len(old) > 1 and all(np.all(n[n > 0] > 1e8 * eps) for n in norms):
            close(K.construct_tensor(), before, 1e-6, "represented tensor", scale=max(np.abs(before).max(), float(np.abs(kruskal([np.abs(f) for f in old], np.abs(w0))).max())))
    else:
        same(K.weights, w0, "weights changed although update_weights=False")


def helper(f, nf, nn, norms, what):
    assert nf.shape == f.shape, what + ": shape"
    zero = norms == 0
    assert np.all(nf[:, zero] == 0), what + ": zero column"
    close_entry(np.asarray(nn).reshape(-1), norms, 1e-10, what + ": norms")
    close(nf * nn, f, 1e-8, what + ": product is the input") if not np.any((norms < 1e-7) & ~zero) else None
    ok = ~zero & (norms > 1e-9)
    close(np.linalg.norm(nf[:, ok], axis=0), np.ones(ok.sum()), 1e-5, what + ": lengths")
