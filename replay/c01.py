import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor
from .common import *


def fixed(tier):
    return [dict(kind="reconstruct", shape=[1, 1], R=1, w=None, fl="normal", lay="C"),
            dict(kind="reconstruct", shape=[2, 3, 4, 2, 3, 2], R=2, w="normal", fl="normal", lay="C"),
            dict(kind="reconstruct", shape=[2, 2, 2, 2, 2, 2, 2], R=3, w="normal", fl="normal", lay="C"),
            dict(kind="reconstruct", shape=[12, 11, 10], R=13, w="normal", fl="normal", lay="C"),
            dict(kind="reconstruct", shape=[3, 3, 3], R=3, w="list", fl="normal", lay="C"),
            dict(kind="reconstruct", shape=[3, 4, 2], R=2, w="int", fl="normal", lay="C"),
            dict(kind="reset", shape=[3, 4], R=2, w="normal", fl="normal", lay="C")]


def random_case(rng, tier):
    n = int(rng.integers(2, 6))
    return dict(kind=pick(rng, ["reconstruct", "reconstruct", "reset"]), shape=sizes(rng, n, 1, 6 if n < 5 else 4), R=size(rng, 1, 5),
                w=pick(rng, [None, "normal", "nonneg", "negative", "zeros", "list", "int"]), fl=pick(rng, FLAVOURS + ("int",)), lay=pick(rng, LAYOUTS))


def check(c):
    rng = rng_of(c)
    fs = [arr(rng, (d, c["R"]), c["fl"], c["lay"]) for d in c["shape"]]
    w = None if c["w"] is None else values(rng, (c["R"],), "normal" if c["w"] == "list" else c["w"])
    fr = Frame(fs=fs, w=w)
    K = KruskalTensor(list(fs), *([] if w is None else [list(w) if c["w"] == "list" else w.copy()]))
    assert K.rank == c["R"], "rank"
    assert list(K.shape) == c["shape"], "shape"
    close(K.construct_tensor(), kruskal(fs, w), what="tensor")
    close(K.construct_tensor(), kruskal(fs, w), what="tensor (second call)")
    if c["kind"] == "reset":
        K.reset_weights()
        same(K.weights, np.ones(c["R"]), "weights after reset")
        close(K.construct_tensor(), kruskal(fs), what="tensor after reset")
    fr.check()
