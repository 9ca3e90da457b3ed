import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, Parafac2Tensor
from .common import *


def fixed(tier):
    out = []
    for k in ("evolving", "parafac2"):
        for Js in ([3, 3, 3], [4, 2, 5], [1, 2, 1], [3], [5, 4, 4, 4], [2, 5, 1], [5, 1, 2], [4, 4, 4, 2]):
            for R in (1, 2, 3):
                out.append(dict(kind=k, I=4, Js=Js, R=R, fl="normal", lay="C", warning=False, as_array=False))
        out += [dict(kind=k, I=4, Js=[3, 3], R=2, fl="normal", lay="C", warning=True, as_array=True),
                dict(kind=k, I=1, Js=[4, 4, 4, 4], R=2, fl="zeros", lay="C", warning=None, as_array=False),
                dict(kind=k, I=4, Js=[3, 2], R=2, fl="normal", lay="C", warning=True, as_array=False),
                dict(kind=k, I=4, Js=[3, 3, 2], R=2, fl="normal", lay="C", warning=None, as_array=False),
                dict(kind=k, I=4, Js=[2, 3, 3], R=2, fl="normal", lay="C", warning=None, as_array=False),
                dict(kind=k, I=2, Js=[2, 3, 2], R=2, fl="normal", lay="C", warning=None, as_array=False)]
    return out


def random_case(rng, tier):
    K = size(rng, 1, 6)
    Js = [size(rng, 1, 6, 0.03)] * K if rng.random() < 0.3 else [size(rng, 1, 6, 0.03) for _ in range(K)]
    return dict(kind=pick(rng, ["evolving", "parafac2"]), I=size(rng, 1, 6), Js=Js, R=size(rng, 1, 4), fl=pick(rng, FLAVOURS + ("int",)), lay=pick(rng, LAYOUTS),
                warning=pick(rng, [True, False, False, None]), as_array=bool(rng.random() < 0.5))


def check(c):
    rng = rng_of(c)
    I, Js, R, K = c["I"], c["Js"], c["R"], len(c["Js"])
    A, C = arr(rng, (I, R), c["fl"], c["lay"]), arr(rng, (K, R), c["fl"], c["lay"])
    M = [arr(rng, (j, R), c["fl"], c["lay"]) for j in Js]
    Bl = arr(rng, (R, R), c["fl"], c["lay"])
    regular = len(set(Js)) == 1
    if c["as_array"] and regular:
        M = np.array(M)
    fr = Frame(A=A, C=C, M=list(M), blueprint=Bl)
    kw = {} if c["warning"] is None else {"warning": c["warning"]}
    if c["kind"] == "evolving":
        T = EvolvingTensor(A, M, C, **kw)
        Bs = list(M)
    else:
        T = Parafac2Tensor(A, Bl, C, M, **kw)
        Bs = [m @ Bl for m in M]
    S = slices(A, Bs, C)
    sc = [float((np.abs(A * C[k]) @ np.abs(Bs[k]).T).max()) + 1e-300 for k in range(K)]
    if c["kind"] == "parafac2":
        sc = [float((np.abs(A * C[k]) @ (np.abs(M[k]) @ np.abs(Bl)).T).max()) + 1e-300 for k in range(K)]
    got = T.construct_slices()
    assert len(got) == K, "number of slices"
    for k in range(K):
        close(got[k], S[k], what=f"slice {k}", scale=sc[k])
        close(T.construct_slice(k), S[k], what=f"construct_slice({k})", scale=sc[k])
        close(T.B[k], Bs[k], what=f"B[{k}]", scale=np.abs(Bs[k]).max() + max(sc))
    close(T.B_unfolded, np.concatenate(Bs, axis=0), what="B_unfolded", scale=max(np.abs(b).max() for b in Bs) + max(sc))
    assert list(T.shape) == [I, max(Js), K], "shape"
    assert [tuple(s) for s in T.slice_shapes] == [(I, j) for j in Js], "slice shapes"
    assert T.num_elements == I * sum(Js), "number of elements"
    assert T.rank == R, "rank"
    if not regular and c["warning"] in (True, None):
        raises("irregular tensor does not warn", Warning, T.construct_tensor)
    else:
        X = T.construct_tensor()
        exp = np.zeros((I, max(Js), K))
        for k in range(K):
            exp[:, :Js[k], k] = S[k]
        close(X, exp, what="tensor", scale=max(sc))
    fr.check()
