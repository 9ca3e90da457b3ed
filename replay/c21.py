import warnings
import numpy as np
from tenkit import utils
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from .common import *

HOW = ["free", "nonneg", "orth"]


def fixed(tier):
    out = []
    for dims in ([6, 5, 4], [5, 4], [4, 3, 5, 3], [3, 3, 3]):
        n = len(dims)
        out += [dict(kind="rand", dims=dims, R=R, method=mt) for R in (1, 2, 4) for mt in (None, "normal", "uniform", "Uniform")]
        for init in ("random", "Random", "svd", "SVD", "precomputed"):
            for how in (["free"] * n, ["nonneg"] * n, ["orth"] + ["nonneg"] * (n - 1), ["free"] * (n - 1) + ["orth"]):
                for R in (1, 3):
                    out.append(dict(kind="cp", dims=dims, R=R, init=init, how=how, weights=False))
                if init == "precomputed":
                    out.append(dict(kind="cp", dims=dims, R=2, init=init, how=how, weights=True))
                if init in ("random", "svd"):
                    out.append(dict(kind="cmtf", dims=dims, R=2, init=init, how=how, modes=[0, n - 1, 0]))
    out.append(dict(kind="rand", dims=[4], R=3, method=None))
    out.append(dict(kind="rand", dims=[100, 2], R=60, method="uniform"))
    for Js in ([5, 5, 5], [4, 6, 5], [3, 7], [4, 4, 4, 4, 4]):
        for init in ("random", "Random", "svd", "SVD", "cp", "precomputed"):
            for how in (["free"] * 3, ["nonneg"] * 3, ["orth", "free", "nonneg"]):
                for R in (1, 2, 3):
                    if init != "cp" or len(set(Js)) == 1:
                        out.append(dict(kind="pf2", I=5, Js=Js, R=R, how=how, init=init))
        out += [dict(kind="pfrand", I=3, Js=Js, R=R, form=form) for R in (1, 3) for form in ("list", "tuple")]
    for dims in ([5], [4, 3], [3, 4, 2], [2, 3, 2, 3]):
        for R in (1, 3):
            out += [dict(kind="util", dims=dims, R=R, uniform=u, noise=e) for u in (False, True) for e in (0, .3)]
    out += [dict(kind="pca", n=n, R=R) for n, R in ((4, 2), (6, 6), (3, 1))]
    return out


def random_case(rng, tier):
    kind = pick(rng, ["util", "rand", "cp", "cp", "cmtf", "pf2", "pf2", "pfrand", "pca"])
    n = int(rng.integers(1 if kind == "rand" else 2, 6))
    dims = [int(rng.integers(2, 7 if n < 5 else 4)) for _ in range(n)]
    R = int(rng.integers(1, min(dims) + 1))
    if kind == "rand":
        return dict(kind=kind, dims=dims, R=int(rng.integers(1, 8)), method=pick(rng, [None, "normal", "uniform", "UNIFORM"]))
    if kind == "util":
        return dict(kind=kind, dims=dims, R=int(rng.integers(1, 8)), uniform=bool(rng.random() < .5), noise=pick(rng, [0, .5, 2.]))
    if kind == "pca":
        m = int(rng.integers(1, 9))
        return dict(kind=kind, n=m, R=int(rng.integers(1, m + 1)))
    how = [pick(rng, HOW) for _ in range(n)]
    if kind == "cp":
        return dict(kind=kind, dims=dims, R=R, init=pick(rng, ["random", "svd", "precomputed", "SVD"]), how=how, weights=bool(rng.random() < 0.3))
    if kind == "cmtf":
        return dict(kind=kind, dims=dims, R=R, init=pick(rng, ["random", "svd"]), how=how, modes=[int(rng.integers(0, n)) for _ in range(int(rng.integers(0, 4)))])
    K, R = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    J = int(rng.integers(R, 9))
    Js = [J] * K if rng.random() < 0.5 else [int(rng.integers(R, 9)) for _ in range(K)]
    if kind == "pfrand":
        return dict(kind=kind, I=int(rng.integers(1, 8)), Js=Js, R=R, form=pick(rng, ["list", "tuple"]))
    return dict(kind=kind, I=int(rng.integers(R, 9)), Js=Js, R=R, how=[pick(rng, HOW) for _ in range(3)], init=pick(rng, ["random", "svd", "precomputed"] + (["cp"] if len(set(Js)) == 1 else [])))


def ortho(P, what):
    assert np.allclose(P.T @ P, np.eye(P.shape[1]), atol=1e-8), (what, "columns are not orthonormal")


def independent(arrs):
    for i, a in enumerate(arrs):
        for b in arrs[i + 1:]:
            assert not np.shares_memory(a, b), "two arrays of the start share storage"


def check(c):
    rng = rng_of(c)
    warnings.simplefilter("ignore")
    np.random.seed(int(rng.integers(0, 2**31)))
    R = c["R"]
    {"rand": check_rand, "cp": check_cp, "cmtf": check_cp, "pf2": check_pf2, "pfrand": check_pfrand, "pca": check_pca, "util": check_util}[c["kind"]](c, rng, R)


def check_pca(c, rng, R):
    if R > c["n"]:
        raise Skip
    Y = rng.standard_normal((c["n"], c["n"]))
    Y = Y @ Y.T
    A = utils.get_pca_loadings(Y.copy(), R)
    assert A.shape == (c["n"], R)
    G = A.T @ A
    assert np.allclose(G, np.diag(np.diag(G)), atol=1e-8 * np.trace(Y)), "loadings of different components are not orthogonal"


def check_util(c, rng, R):
    dims, uniform = tuple(c["dims"]), c["uniform"]
    f = utils.create_random_uniform_factors if uniform else utils.create_random_factors
    runs = [f(dims, R)[0]]
    if len(dims) > 1:
        g = utils.create_non_negative_data if uniform else utils.create_data
        X, fs, _, E = g(dims, R, noise_factor=c["noise"])
        assert X.shape == dims and E.shape == dims, "shape"
        close(X, kruskal(fs, np.ones(R)) + c["noise"] * E, 1e-9, "tensor of the factors plus noise")
        runs.append(fs)
    for fs in runs:
        assert len(fs) == len(dims), "number of factors"
        for k, (f, d) in enumerate(zip(fs, dims)):
            assert f.shape == (d, R), "shape"
            assert np.allclose(np.linalg.norm(f, axis=0), 1, atol=1e-6), "columns of random factors do not have unit length"
            assert not uniform or np.all(f >= 0), "negative entries"
        independent(list(fs))


def check_rand(c, rng, R):
    dims = c["dims"]
    kw = {} if c["method"] is None else dict(random_method=c["method"])
    K = KruskalTensor.random_init(tuple(dims), R, **kw)
    assert K.rank == R and len(K.factor_matrices) == len(dims)
    assert np.shape(K.weights) == (R,) and np.all(np.asarray(K.weights) == 1), "weights"
    for f, d in zip(K.factor_matrices, dims):
        assert f.shape == (d, R), "shape"
        assert np.allclose(np.linalg.norm(f, axis=0), 1, atol=1e-6), "columns of a random start do not have unit length"
        if str(c["method"]).lower() == "uniform":
            assert np.all(f >= 0), "negative entries"
    independent(list(K.factor_matrices) + [K.weights])


def check_cp(c, rng, R):
    dims, how, init = c["dims"], c["how"], c["init"]
    n = len(dims)
    if len(how) != n or any(d < R for d in dims) or any(not 0 <= m < n for m in c.get("modes", [])):
        raise Skip
    X = rng.standard_normal(dims)
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how])
    cls = CMTF_ALS if c["kind"] == "cmtf" else CP_ALS
    m = cls(R, max_its=0, init=init, print_frequency=-1, **con)
    data = {}
    if c["kind"] == "cmtf":
        qs = [int(rng.integers(2, 6)) for _ in c["modes"]]
        data = dict(coupled_matrices=[rng.standard_normal((dims[k], q)) for k, q in zip(c["modes"], qs)], coupling_modes=list(c["modes"]))
    if init == "precomputed":
        fs = [rng.standard_normal((d, R)) for d in dims]
        fs = [np.linalg.qr(f)[0] if h == "orth" else f for f, h in zip(fs, how)]
        start = KruskalTensor(fs, rng.uniform(0.5, 2, R) if c["weights"] else None)
        want = kruskal([f.copy() for f in start.factor_matrices], np.array(start.weights))
        data["initial_decomposition"] = start
    m.fit(X, **data)
    fs, w = m.decomposition.factor_matrices, m.decomposition.weights
    assert len(fs) == n and m.decomposition.rank == R
    for f, d, h in zip(fs, dims, how):
        assert f.shape == (d, R), "shape"
        assert np.all(np.isfinite(f))
        if h == "orth" or init.lower() == "svd":
            ortho(f, "factor")
        if h == "nonneg" and init.lower() == "random":
            assert np.all(f >= 0), "negative entries in a non-negative mode"
    vs = []
    if c["kind"] == "cmtf":
        vs = list(m.uncoupled_factor_matrices)
        assert len(vs) == len(qs)
        for v, k, q in zip(vs, c["modes"], qs):
            assert v.shape == (q, R), "shape of an uncoupled factor"
            assert how[k] != "nonneg" or np.all(v >= 0), "negative entries in an uncoupled factor"
    else:
        assert np.shape(w) == (R,) and np.allclose(w, 1), "weights"
    if init == "precomputed" and not (c["weights"] and how[0] == "orth"):
        assert np.allclose(kruskal(fs, w), want, atol=1e-8 * (1 + np.max(np.abs(want)))), "the precomputed start is not reconstructed"
    independent(list(fs) + [w] + vs)


def check_pfrand(c, rng, R):
    Js = c["Js"]
    if min(Js) < R:
        raise Skip
    sizes = [c["I"], Js[0] if len(set(Js)) == 1 else list(Js), len(Js)]
    T = Parafac2Tensor.random_init(sizes if c["form"] == "list" else tuple(sizes), R)
    pf2_valid(T, c["I"], Js, R)


def pf2_valid(T, I, Js, R):
    assert T.rank == R and T.A.shape == (I, R) and T.blueprint_B.shape == (R, R) and T.C.shape == (len(Js), R), "shape"
    Ps = list(T.projection_matrices)
    assert [P.shape for P in Ps] == [(J, R) for J in Js], "shapes of the projection matrices"
    for P in Ps:
        ortho(P, "projection matrix")
    independent([T.A, T.blueprint_B, T.C] + Ps)


def check_pf2(c, rng, R):
    I, Js, how, init = c["I"], c["Js"], c["how"], c["init"]
    K = len(Js)
    if I < R or min(Js) < R or how[2] == "orth" and K < R or init == "cp" and len(set(Js)) > 1:
        raise Skip
    q = lambda J: np.linalg.qr(rng.standard_normal((J, R)))[0]
    A, B, C, Ps = rng.uniform(0.2, 1, (I, R)), rng.uniform(0.2, 1, (R, R)) + np.eye(R), rng.uniform(0.3, 1, (K, R)), [q(J) for J in Js]
    Xs = [(A * C[k]) @ (Ps[k] @ B).T + 0.5 * rng.standard_normal((I, Js[k])) for k in range(K)]
    X = np.stack(Xs, axis=2) if len(set(Js)) == 1 else [x.copy() for x in Xs]
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how])
    m = Parafac2_ALS(R, max_its=0, init=init, print_frequency=-1, **con)
    give = {}
    if init == "precomputed":
        sA, sB, sC = rng.standard_normal((I, R)), rng.standard_normal((R, R)), rng.standard_normal((K, R))
        sA, sB, sC = [np.linalg.qr(f)[0] if h == "orth" else f for f, h in zip((sA, sB, sC), how)]
        sP = [q(J) for J in Js]
        give = dict(initial_decomposition=Parafac2Tensor(sA.copy(), sB.copy(), sC.copy(), [P.copy() for P in sP]))
    m.fit(X, **give)
    T = m.decomposition
    pf2_valid(T, I, Js, R)
    for f, h in zip((T.A, T.blueprint_B, T.C), how):
        if h == "orth":
            ortho(f, "factor")
        if h == "nonneg" and init.lower() == "random":
            assert np.all(f >= 0), "negative entries in a non-negative mode"
    rec = [(T.A * T.C[k]) @ (T.projection_matrices[k] @ T.blueprint_B).T for k in range(K)]
    if init == "precomputed":
        for k in range(K):
            assert np.allclose(rec[k], (sA * sC[k]) @ (sP[k] @ sB).T, atol=1e-8), "the precomputed start is not reconstructed"
    if init == "cp" and "orth" not in how:
        # all slices of the start have the same evolving factor: it is a CP model
        for k in range(1, K):
            assert np.allclose(T.projection_matrices[k], T.projection_matrices[0], atol=1e-10), "the start is not a CP model"
