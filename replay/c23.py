import numpy as np
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor, Parafac2Tensor
from tenkit import utils
from .common import *


def fixed(tier):
    out = [dict(kind=k, shape=s, Js=[3, 2, 4], R=R, w=w, fl="normal", lay="C") for k in ("kruskal", "convert", "permute", "index")
           for s in ([3, 4, 2], [1, 1, 1], [5, 5, 5]) for R in (1, 2, 3, 4) for w in (None, "normal")]
    out += [dict(kind="kruskal", shape=s, Js=[1], R=3, w="normal", fl="normal", lay="C") for s in ([2, 3], [2, 3, 2, 2], [2, 2, 2, 2, 2])]
    out += [dict(kind=k, shape=[3, 3, 3], Js=J, R=R, w=None, fl="normal", lay="C") for k in ("parafac2", "index2") for J in ([3, 3], [4, 2, 3], [1], [2, 5, 5, 2]) for R in (1, 2, 3)]
    return out


def random_case(rng, tier):
    kind = pick(rng, ["kruskal", "convert", "permute", "index", "parafac2", "index2"])
    n = 3 if kind == "convert" else int(rng.integers(2, 6))
    K = size(rng, 1, 5)
    Js = [size(rng, 1, 5, 0.03)] * K if rng.random() < 0.4 else [size(rng, 1, 5, 0.03) for _ in range(K)]
    return dict(kind=kind, shape=sizes(rng, n, 1, 5), Js=Js, R=size(rng, 1, 5), w=pick(rng, [None, "normal", "nonneg", "negative", "zeros"]), fl=pick(rng, FLAVOURS), lay=pick(rng, LAYOUTS))


def check(c):
    rng = rng_of(c)
    R, kind = c["R"], c["kind"]
    if kind in ("parafac2", "index2"):
        return check_p2(c, rng)
    fs = [arr(rng, (d, R), c["fl"], c["lay"]) for d in c["shape"]]
    w = None if c["w"] is None else values(rng, (R,), c["w"])
    K = KruskalTensor(list(fs), *([] if w is None else [w]))
    fr = Frame(fs=fs, w=w)
    full = kruskal(fs, w)
    sc = kruskal([np.abs(f) for f in fs], None if w is None else np.abs(w)).max() + 1e-300
    if kind == "kruskal":
        tot = 0
        for r in range(R):
            S = K.get_single_component_decomposition(r)
            assert S.rank == 1, "rank of a component"
            X = S.construct_tensor()
            close(X, kruskal([f[:, [r]] for f in fs], None if w is None else w[[r]]), what=f"component {r}", scale=sc)
            tot = tot + X
        close(tot, full, what="sum of the components", scale=sc)
    elif kind == "convert":
        if len(fs) != 3:
            raises("wrong order", ValueError, lambda: EvolvingTensor.from_kruskaltensor(K))
        else:
            for kw in ({}, {"allow_same_class": True}):
                E = EvolvingTensor.from_kruskaltensor(K, **kw)
                assert type(E) is EvolvingTensor and E.rank == R, "class and rank"
                assert list(E.shape) == c["shape"], "shape"
                close(E.construct_tensor(), full, what="tensor after conversion", scale=sc)
                for k, s in enumerate(E.construct_slices()):
                    close(s, full[:, :, k], what=f"slice {k}", scale=sc)
            assert EvolvingTensor.from_kruskaltensor(E, allow_same_class=True) is E, "same class"
    elif kind == "permute":
        p = [int(i) for i in rng.permutation(R)]
        ww = np.ones(R) if w is None else w
        for q in (p, tuple(p), np.array(p)):
            pf, pw = utils.permute_factors_and_weights(q, fs, ww)
            for f, g in zip(pf, fs):
                same(f, g[:, p], "permuted factor")
            same(pw, ww[p], "permuted weights")
            close(KruskalTensor(pf, pw).construct_tensor(), full, what="tensor after permuting", scale=sc)
            if not isinstance(q, tuple):
                for f, g in zip(utils.permute_factors(q, fs), fs):
                    same(f, g[:, p], "permuted factor")
            else:
                for f, g in zip(utils.permute_factors(q, fs), fs):
                    same(f, g[:, p], "permuted factor (tuple)")
    else:
        for n in range(-len(fs), len(fs)):
            same(K[n], fs[n], f"mode {n}")
    close(K.construct_tensor(), full, what="full tensor", scale=sc)
    fr.check()


def check_p2(c, rng):
    R, Js, K, I = c["R"], c["Js"], len(c["Js"]), c["shape"][0]
    A, C, Bl = arr(rng, (I, R), c["fl"], c["lay"]), arr(rng, (K, R), c["fl"], c["lay"]), arr(rng, (R, R), c["fl"], c["lay"])
    Ps = [arr(rng, (j, R), c["fl"], c["lay"]) for j in Js]
    T = Parafac2Tensor(A, Bl, C, Ps, warning=False)
    fr = Frame(A=A, C=C, Bl=Bl, Ps=Ps)
    Bs = [P @ Bl for P in Ps]
    full = slices(A, Bs, C)
    sc = max((np.abs(A * C[k]) @ (np.abs(Ps[k]) @ np.abs(Bl)).T).max() for k in range(K)) + 1e-300
    if c["kind"] == "parafac2":
        tot = [0] * K
        for r in range(R):
            S = T.get_single_component_decomposition(r)
            assert S.rank == 1 and isinstance(S, EvolvingTensor), "component"
            L = S.construct_slices()
            assert len(L) == K, "slices of a component"
            for k in range(K):
                close(L[k], slices(A[:, [r]], [B[:, [r]] for B in Bs], C[:, [r]])[k], what=f"component {r} of slice {k}", scale=sc)
                tot[k] = tot[k] + L[k]
            if len(set(Js)) == 1:
                close(S.construct_tensor(), np.stack(L, axis=2), what="component tensor", scale=sc)
        for k in range(K):
            close(tot[k], full[k], what=f"sum of components, slice {k}", scale=sc)
    else:
        same(T[0], A, "mode 0")
        same(T[2], C, "mode 2")
        bs = max(np.abs(b).max() for b in Bs) + max((np.abs(P) @ np.abs(Bl)).max() for P in Ps)
        for k in range(K):
            close(T[1][k], Bs[k], what="mode 1", scale=bs)
            r = int(rng.integers(R))
            close(T[1][k, :, r], Bs[k][:, r], what="B[k, :, r]", scale=bs)
            close(T[1][k, 0], Bs[k][0], what="B[k, 0]", scale=bs)
        raises("mode 3", IndexError, lambda: T[3])
        E = EvolvingTensor(A, Bs, C, warning=False)
        for T_ in (E, Parafac2Tensor(A, Bl, C, Ps)):
            F = T_.factor_matrices
            same(F[0], A, "factor_matrices[0]")
            same(F[2], C, "factor_matrices[2]")
            assert len(F[1]) == K
            for k in range(K):
                close(F[1][k], Bs[k], what="factor_matrices[1]", scale=bs)
    fr.check()
