import copy, os, tempfile, warnings
import numpy as np
import h5py
from tenkit import base, metrics, utils
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor, Parafac2Tensor
from tenkit.decomposition.logging import logger as loggers
from .common import *

HOW = ["free", "nonneg", "orth"]
LOGGERS = ["LossLogger", "MSELogger", "SSELogger", "RMSELogger", "ExplainedVarianceLogger"]


def fixed(tier):
    out = []
    for dims in ([5, 4, 3], [4, 5], [3, 4, 5, 3], [3, 3, 3]):
        n = len(dims)
        for layout in ("C", "F", "strided", "int", "unit"):
            out.append(dict(kind="base", dims=dims, R=2, layout=layout))
            out.append(dict(kind="utils", dims=dims, R=2, layout=layout))
            out.append(dict(kind="kruskal", dims=dims, R=2, layout=layout, weights=True))
            out.append(dict(kind="kruskal", dims=dims, R=3, layout=layout, weights=False))
        for how in (["free"] * n, ["nonneg"] * n, ["orth"] + ["nonneg"] * (n - 1)):
            for init in ("random", "svd"):
                for layout in ("C", "F"):
                    out.append(dict(kind="cp", dims=dims, R=2, how=how, init=init, ridge=init == "svd", layout=layout, cp=False))
                    out.append(dict(kind="cmtf", dims=dims, R=2, how=how, init=init, ridge=init == "svd", layout=layout, modes=[0, n - 1, 0]))
        out.append(dict(kind="cp", dims=dims, R=2, how=["free"] * n, init="random", ridge=False, layout="strided", cp=True))
    for Js in ([5, 5, 5], [4, 6, 5], [3, 7]):
        out.append(dict(kind="evolving", I=4, Js=Js, R=2, pf=False))
        out.append(dict(kind="evolving", I=4, Js=Js, R=2, pf=True))
        for init in ("random", "svd", "cp"):
            for how in (["free"] * 3, ["nonneg"] * 3, ["orth", "free", "nonneg"]):
                if init != "cp" or len(set(Js)) == 1:
                    out.append(dict(kind="pf2", I=5, Js=Js, R=2, how=how, init=init, ridge=how[0] == "free", aslist=init == "random", cp=init == "svd"))
    return out


def random_case(rng, tier):
    kind = pick(rng, ["base", "utils", "kruskal", "cp", "cmtf", "evolving", "pf2"])
    n = int(rng.integers(2, 6))
    dims = [int(rng.integers(2, 6 if n < 5 else 4)) for _ in range(n)]
    R = int(rng.integers(1, min(dims) + 1))
    layout = pick(rng, ["C", "F", "strided", "int", "unit"])
    if kind in ("base", "utils", "kruskal"):
        return dict(kind=kind, dims=dims, R=min(R, 4), layout=layout, weights=bool(rng.random() < 0.5))
    if kind in ("cp", "cmtf"):
        return dict(kind=kind, dims=dims, R=R, how=[pick(rng, HOW) for _ in range(n)], init=pick(rng, ["random", "svd"]), ridge=bool(rng.random() < 0.5), layout=layout,
                    modes=[int(rng.integers(0, n)) for _ in range(int(rng.integers(0, 4)))], cp=bool(rng.random() < 0.3))
    K, R = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    J = int(rng.integers(R, 7))
    Js = [J] * K if rng.random() < 0.5 else [int(rng.integers(R, 7)) for _ in range(K)]
    if kind == "evolving":
        return dict(kind=kind, I=int(rng.integers(1, 6)), Js=Js, R=R, pf=bool(rng.random() < 0.5))
    return dict(kind=kind, I=int(rng.integers(R, 7)), Js=Js, R=R, how=[pick(rng, HOW) for _ in range(3)], init=pick(rng, ["random", "svd"] + (["cp"] if len(set(Js)) == 1 else [])),
                ridge=bool(rng.random() < 0.5), aslist=bool(rng.random() < 0.5), cp=bool(rng.random() < 0.3))


def lay(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros([2 * d for d in a.shape])
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if layout == "int":
        return np.round(3 * a).astype(int)
    if layout == "unit":        # columns that have length one already
        b = np.zeros(a.shape)
        k = np.abs(a).argmax(0)
        np.put_along_axis(b, k[None], np.sign(np.take_along_axis(a, k[None], 0)), 0)
        return b
    return a


def freeze(v, seen=None):
    """A structural copy for comparison."""
    seen = {} if seen is None else seen
    if isinstance(v, np.ndarray):
        return ("arr", v.dtype.str, v.shape, v.tobytes() if v.dtype != object else repr(v))
    if isinstance(v, (list, tuple)):
        return ("seq", [freeze(x, seen) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, freeze(x, seen)) for k, x in v.items()])
    if hasattr(v, "__dict__") and type(v).__module__.startswith("tenkit"):
        if id(v) in seen:
            return ("again",)
        seen[id(v)] = True
        return ("obj", type(v).__name__, {k: freeze(x, seen) for k, x in vars(v).items()})
    return ("leaf", repr(v))


def subset(a, b):
    """Everything in the snapshot a is still the same in b (objects may have got new attributes)."""
    if a[0] != b[0]:
        return False
    if a[0] == "obj":
        return a[1] == b[1] and all(k in b[2] and subset(x, b[2][k]) for k, x in a[2].items())
    if a[0] == "seq":
        return len(a[1]) == len(b[1]) and all(subset(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "dict":
        return len(a[1]) == len(b[1]) and all(k == l and subset(x, y) for (k, x), (l, y) in zip(a[1], b[1]))
    return a == b


class Watch:
    def __init__(self, **named):
        self.named = named
        self.before = {k: freeze(v) for k, v in named.items()}

    def __call__(self, what, f, *a, **kw):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = f(*a, **kw)
        except Exception:       # what a call returns or raises is a matter of other properties
            r = None
        for k, v in self.named.items():
            assert subset(self.before[k], freeze(v)), f"{what} modified {k}"
        return r


def check(c):
    rng = rng_of(c)
    np.random.seed(int(rng.integers(0, 2**31)))
    {"base": c_base, "utils": c_utils, "kruskal": c_kruskal, "cp": c_cp, "cmtf": c_cp, "evolving": c_evolving, "pf2": c_pf2}[c["kind"]](c, rng)


def c_base(c, rng):
    dims, R, L = c["dims"], c["R"], c["layout"]
    n = len(dims)
    fs = [lay(rng.standard_normal((d, R)), L) for d in dims]
    X = lay(rng.standard_normal(dims), L)
    A, B = lay(rng.standard_normal((R, 6)), L), lay(rng.standard_normal((4, 6)), L)
    w = Watch(factors=fs, X=X, A=A, B=B)
    for s in ("rightsolve", "non_negative_rightsolve", "orthogonal_rightsolve"):
        w(s, getattr(base, s), A, B)
        for lam in (0, 0.5):
            w("ridge " + s, base.add_rightsolve_ridge(getattr(base, s), lam), A, B)
    w("orthogonal_solve", base.orthogonal_solve, A.T, B.T)
    w("non_negative_rightsolve", base.non_negative_rightsolve, A, B[0])
    for skip in [None] + list(range(n)):
        w("khatri_rao", base.khatri_rao, *fs, skip=skip)
    w("kron", base.kron, *fs)
    w("kron_binary_vectors", base.kron_binary_vectors, fs[0][:, 0], fs[1][:, 0])
    for m in range(n):
        w("matrix_khatri_rao_product", base.matrix_khatri_rao_product, X, fs, m)
        U = w("unfold", base.unfold, X, m)
        w("fold", base.fold, U, m, X.shape)
    v = w("flatten_factors", base.flatten_factors, fs)
    w("unflatten_factors", base.unflatten_factors, v, R, dims)


def c_utils(c, rng):
    dims, R, L = c["dims"], c["R"], c["layout"]
    fs = [lay(rng.standard_normal((d, R)), L) for d in dims]
    gs = [lay(rng.standard_normal((d, R)), L) for d in dims]
    weights = lay(rng.uniform(0.5, 2, R), L if L != "int" else "C")
    X, Y = lay(rng.standard_normal(dims), L), rng.standard_normal(dims)
    W = (rng.random(dims) < 0.5).astype(float)
    S = lay(rng.standard_normal((dims[0], dims[0])), L)
    perm = list(rng.permutation(R))
    w = Watch(factors=fs, others=gs, weights=weights, X=X, Y=Y, W=W, S=S, perm=perm)
    for f in fs:
        w("normalize_factor", utils.normalize_factor, f)
        w("get_signs", utils.get_signs, f, None)
        w("leverage", metrics.leverage, f)
        w("_find_first_nonzero_sign", utils._find_first_nonzero_sign, f[:, 0])
    w("get_signs", utils.get_signs, fs[0], base.unfold(X, 0))
    for f in (utils.normalize_factors, utils.flip_factors, utils.prepare_for_comparison):
        w(f.__name__, f, fs)
        w(f.__name__, f, tuple(fs))
    w("get_pca_loadings", utils.get_pca_loadings, S, R)
    w("permute_factors", utils.permute_factors, perm, fs)
    w("permute_factors_and_weights", utils.permute_factors_and_weights, perm, fs, weights)
    for red in ("min", "mean"):
        for pen in (True, False):
            w("factor_match_score", metrics.factor_match_score, fs, gs, weight_penalty=pen, fms_reduction=red)
            w("factor_match_score", metrics.factor_match_score, fs, fs, weight_penalty=pen, fms_reduction=red)
        w("separate_mode_factor_match_score", metrics.separate_mode_factor_match_score, fs, gs, fms_reduction=red)
    w("_tucker_congruence", metrics._tucker_congruence, fs[0], gs[0])
    w("tensor_completion_score", metrics.tensor_completion_score, X, Y, W)
    w("percent_explained", metrics.percent_explained, X, Y)
    if len(dims) == 3:
        for norm in (False, True):
            w("core_consistency", metrics.core_consistency, X, *fs, normalized=norm)
        if R <= min(dims):
            Ps = [np.linalg.qr(rng.standard_normal((dims[1], R)))[0] for _ in range(dims[2])]
            Xs = [X[:, :, k] for k in range(dims[2])]
            F = rng.standard_normal((R, R))
            Watch(Xs=Xs, Ps=Ps, A=fs[0], F=F, C=fs[2])("core_consistency_parafac2", metrics.core_consistency_parafac2, Xs, Ps, fs[0], F, fs[2])


def files(w, T, name="model"):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.h5")
        w("store", T.store, p)
        w("from_file", type(T).from_file, p)
        with h5py.File(os.path.join(d, "g.h5"), "w") as h5:
            g = h5.create_group("one")
            w("store_in_hdf5_group", T.store_in_hdf5_group, g)
            w("load_from_hdf5_group", type(T).load_from_hdf5_group, g)


def c_kruskal(c, rng):
    dims, R, L = c["dims"], c["R"], c["layout"]
    fs = [lay(rng.standard_normal((d, R)), L) for d in dims]
    gs = [rng.standard_normal((d, R)) for d in dims]
    weights = rng.uniform(0.5, 2, R) if c.get("weights") else None
    X = lay(rng.standard_normal(dims), L)
    given = dict(factors=fs, X=X, **({} if weights is None else {"weights": weights}))
    w = Watch(**given)
    K = w("KruskalTensor", KruskalTensor, list(fs), weights)
    K2 = KruskalTensor(gs)
    w = Watch(model=K, other=K2, **given)
    for a in ("rank", "shape", "factor_matrices", "weights"):
        w(a, lambda: getattr(K, a))
    for m in range(len(dims)):
        w("indexing", lambda: K[m])
    for _ in range(2):
        w("construct_tensor", K.construct_tensor)
    for r in range(R):
        w("get_single_component_decomposition", K.get_single_component_decomposition, r)
    w("degeneracy", K.degeneracy)
    for red in ("min", "mean"):
        w("factor_match_score", K.factor_match_score, K2, fms_reduction=red)
        w("mode-wise score", K.seperate_mode_factor_match_score, K2, fms_reduction=red)
    w("get_signs", K.get_signs, X)
    w("get_sign_scores", K.get_sign_scores, X)
    for norm in (False, True):
        w("core_consistency", K.core_consistency, X, normalized=norm)
    E = w("from_kruskaltensor", EvolvingTensor.from_kruskaltensor, K)
    if E is not None:
        w("construct_tensor", E.construct_tensor)
    files(w, K)


def evolving_args(c, rng):
    I, Js, R = c["I"], c["Js"], c["R"]
    K = len(Js)
    if min(Js) < R:
        raise Skip
    A, C = rng.standard_normal((I, R)), rng.standard_normal((K, R))
    if c.get("pf"):
        return [A, rng.standard_normal((R, R)), C, [np.linalg.qr(rng.standard_normal((J, R)))[0] for J in Js]]
    return [A, [rng.standard_normal((J, R)) for J in Js], C]


def c_evolving(c, rng):
    cls = Parafac2Tensor if c["pf"] else EvolvingTensor
    args, args2 = evolving_args(c, rng), evolving_args(c, rng)
    w = Watch(args=args)
    T = w("constructor", cls, *args, warning=False)
    T2 = cls(*args2, warning=False)
    w = Watch(args=args, model=T, other=T2)
    for a in ("rank", "A", "B", "C", "B_unfolded", "factor_matrices", "shape", "all_same_size", "blueprint_B", "projection_matrices", "D"):
        w(a, lambda: getattr(T, a))
    for i in range(3):
        w("indexing", lambda: T[i])
    w("construct_slices", T.construct_slices)
    for k in range(len(c["Js"])):
        w("construct_slice", T.construct_slice, k)
        w("B[k]", lambda: T.B[k])
    w("construct_tensor", T.construct_tensor)
    w("degeneracy", T.degeneracy)
    for red in ("min", "mean"):
        w("factor_match_score", T.factor_match_score, T2, fms_reduction=red)
        w("mode-wise score", T.separate_mode_factor_match_score, T2, fms_reduction=red)
    if c["pf"]:
        w("get_single_component_decomposition", T.get_single_component_decomposition, 0)
    files(w, T)


def read(m, data, extra=()):
    """All readable figures of a model."""
    w = Watch(decomposition=m.decomposition, uncoupled=list(getattr(m, "uncoupled_factor_matrices", None) or []), **data)
    for a in ("SSE", "MSE", "RMSE", "explained_variance", "loss", "reconstructed_X", "factor_matrices", "weights", "projected_X", "coupled_factor_matrices_SSE",
              "reconstructed_coupled_matrices", "coupled_factor_matrices"):
        if hasattr(type(m), a):
            w(a, lambda: getattr(m, a))
    for k in LOGGERS:
        w(k, getattr(loggers, k)().log, m)
    with tempfile.TemporaryDirectory() as d:
        m.checkpoint_path = os.path.join(d, "c.h5")
        w("store_checkpoint", m.store_checkpoint)


def c_cp(c, rng):
    dims, R, how = c["dims"], c["R"], c["how"]
    n = len(dims)
    if any(d < R for d in dims) or len(how) != n or any(not 0 <= k < n for k in c.get("modes", [])):
        raise Skip
    X = lay(kruskal([rng.uniform(0.2, 1, (d, R)) for d in dims]) + 0.5 * rng.standard_normal(dims), c["layout"])
    data = dict(X=X)
    extra = {}
    if c["kind"] == "cmtf":
        Ys = [lay(rng.standard_normal((dims[k], int(rng.integers(2, 6)))), c["layout"]) for k in c["modes"]]
        extra = dict(coupled_matrices=Ys, coupling_modes=list(c["modes"]))
        data.update(extra)
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how])
    opts = dict(con=con, ridge=[0.5] * n if c["ridge"] else None, dims=list(dims))
    with tempfile.TemporaryDirectory() as d:
        cp = dict(checkpoint_path=os.path.join(d, "x.h5"), checkpoint_frequency=2) if c.get("cp") else {}
        m = (CMTF_ALS if c["kind"] == "cmtf" else CP_ALS)(R, max_its=3, init=c["init"], print_frequency=-1, ridge_penalties=opts["ridge"], loggers=[getattr(loggers, k)() for k in LOGGERS], **con, **cp)
        w = Watch(**data)
        w("fit", m.fit, X, **extra)
        w("continue_fit", m.continue_fit, 5)
        w("fit_transform", m.fit_transform, X, **extra)
        w("fit without iterations", m.fit, X, max_its=0, **extra)
    read(m, data)


def c_pf2(c, rng):
    I, Js, R, how = c["I"], c["Js"], c["R"], c["how"]
    K = len(Js)
    if I < R or min(Js) < R or how[2] == "orth" and K < R or c["init"] == "cp" and len(set(Js)) > 1:
        raise Skip
    q = lambda J: np.linalg.qr(rng.standard_normal((J, R)))[0]
    A, B, C, Ps = rng.uniform(0.2, 1, (I, R)), rng.uniform(0.2, 1, (R, R)) + np.eye(R), rng.uniform(0.3, 1, (K, R)), [q(J) for J in Js]
    Xs = [(A * C[k]) @ (Ps[k] @ B).T + 0.5 * rng.standard_normal((I, Js[k])) for k in range(K)]
    X = [x.copy() for x in Xs] if len(set(Js)) > 1 or c["aslist"] and c["init"] != "cp" else np.stack(Xs, axis=2)
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how])
    opts = dict(con=con, ridge=[0.5] * 3 if c["ridge"] else None)
    with tempfile.TemporaryDirectory() as d:
        cp = dict(checkpoint_path=os.path.join(d, "x.h5"), checkpoint_frequency=2) if c.get("cp") else {}
        m = Parafac2_ALS(R, max_its=3, init=c["init"], print_frequency=-1, ridge_penalties=opts["ridge"], loggers=[getattr(loggers, k)() for k in LOGGERS], **con, **cp)
        w = Watch(X=X)
        w("fit", m.fit, X)
        w("continue_fit", m.continue_fit, 5)
        w("fit_transform", m.fit_transform, X)
        w("fit without iterations", m.fit, X, max_its=0)
    read(m, dict(X=X))
