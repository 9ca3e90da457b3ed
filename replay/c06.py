import os
import tempfile
import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from .common import *

OPS = ["continue", "refit", "reshape", "replace", "modify", "normalise", "load", "target", "store"]


def fixed(tier):
    out = []
    for kind in ("cp", "pf2", "pf2irr"):
        for ridge in (False, True):
            for op in OPS:
                out.append(dict(kind=kind, order=3, R=2, ridge=ridge, how="free", its=2, ops=[op], noise=0.3))
            out.append(dict(kind=kind, order=3, R=2, ridge=ridge, how="nonneg", its=2, ops=["continue", "replace", "continue"], noise=0.3))
            out.append(dict(kind=kind, order=3, R=2, ridge=ridge, how="orth", its=2, ops=["refit", "modify", "continue"], noise=0.3))
    for order in (2, 4, 5):
        for how in ("free", "nonneg", "orth"):
            out.append(dict(kind="cp", order=order, R=2, ridge=True, how=how, its=2, ops=["continue", "refit"], noise=0.3))
    return out


def random_case(rng, tier):
    kind = pick(rng, ["cp", "cp", "pf2", "pf2irr"])
    return dict(kind=kind, order=pick(rng, [2, 3, 4, 5]) if kind == "cp" else 3, R=pick(rng, [1, 2]), ridge=bool(rng.random() < 0.5), how=pick(rng, ["free", "nonneg", "orth"]),
                its=int(rng.integers(0, 4)), ops=[pick(rng, OPS) for _ in range(int(rng.integers(0, 5)))], noise=pick(rng, [0.1, 1.0]))


class Spy:
    def __init__(self, f):
        self.f = f

    def log(self, m):
        self.f(m, f"during the fit, iteration {m.current_iteration}")

    def write_to_hdf5_group(self, g):
        pass


def check(c):
    with tempfile.TemporaryDirectory() as d:
        run(c, os.path.join(d, "c.h5"))


def slices_of(X):
    return [X[:, :, k] for k in range(X.shape[2])] if isinstance(X, np.ndarray) else X


def judge(m, X, c, what, lam):
    if c["kind"] == "cp":
        d = m.decomposition
        sse = float(np.sum((X - kruskal(d.factor_matrices, d.weights)) ** 2))
        N, n2, fs = X.size, float(np.sum(X ** 2)), d.factor_matrices
    else:
        d = m.decomposition
        Xs = slices_of(X)
        rec = slices(d.A, [P @ d.blueprint_B for P in d.projection_matrices], d.C)
        sse = float(sum(np.sum((x - r) ** 2) for x, r in zip(Xs, rec)))
        N, n2, fs = sum(x.size for x in Xs), float(sum(np.sum(x ** 2) for x in Xs)), [d.A, d.blueprint_B, d.C]
    pen = sum(l * float(np.sum(np.asarray(f) ** 2)) for l, f in zip(lam, fs)) if lam else 0.0
    for _ in range(2):
        for nm, got, want, scale in (("SSE", m.SSE, sse, n2 + sse), ("MSE", m.MSE, sse / N, (n2 + sse) / N), ("explained variance", m.explained_variance, 1 - sse / n2, 1 + sse / n2),
                                     ("loss", m.loss, sse + pen, n2 + sse + pen)):
            assert abs(float(got) - want) <= 1e-9 * scale, (what, nm, float(got), want)
        if sse > 1e-8 * n2:
            assert abs(float(m.RMSE) - np.sqrt(sse / N)) <= 1e-6 * np.sqrt((n2 + sse) / N), (what, "RMSE", float(m.RMSE), np.sqrt(sse / N))


def run(c, path):
    rng = rng_of(c)
    R, n = c["R"], c["order"]
    base = [4, 3, 5, 2, 3][:n]
    lam = [0.3, 0.0, 1.5, 0.2, 0.7][:n] if c["ridge"] else None

    def data(dims):
        if c["kind"] == "cp":
            return kruskal([rng.uniform(0.2, 1, (d, R)) for d in dims]) + c["noise"] * rng.standard_normal(dims)
        Js = [dims[1]] * dims[2] if c["kind"] == "pf2" else [dims[1] + (k * 2) % 3 for k in range(dims[2])]
        Xs = [rng.standard_normal((dims[0], j)) for j in Js]
        return np.stack(Xs, axis=2) if c["kind"] == "pf2" else Xs

    def start(dims, w=True):
        if c["kind"] == "cp":
            return KruskalTensor([rng.uniform(0.2, 1, (d, R)) for d in dims], *([rng.uniform(0.5, 2, R)] if w else []))
        Js = [dims[1]] * dims[2] if c["kind"] == "pf2" else [dims[1] + (k * 2) % 3 for k in range(dims[2])]
        return Parafac2Tensor(rng.uniform(0.2, 1, (dims[0], R)), np.eye(R) + 0.1 * rng.random((R, R)), rng.uniform(0.2, 1, (dims[2], R)),
                              [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in Js])
    flags = lambda h: [h == c["how"] and k == 0 for k in range(n)]
    cls = CP_ALS if c["kind"] == "cp" else Parafac2_ALS
    kw = dict(convergence_tol=0, init="precomputed", print_frequency=-1, ridge_penalties=lam, non_negativity_constraints=flags("nonneg"), orthonormality_constraints=flags("orth"))
    now = {}
    m = cls(R, loggers=[Spy(lambda m, what: judge(m, now["X"], c, what, lam))], checkpoint_path=path, **kw)
    dims = base
    now["X"] = data(dims)
    m.fit(now["X"], max_its=c["its"], initial_decomposition=start(dims))
    judge(m, now["X"], c, "after the first fit", lam)
    stored = 50000
    for op in c["ops"]:
        if op == "continue":
            m.continue_fit(max_its=int(m.current_iteration) + 2)
        elif op == "refit":
            now["X"] = data(dims)
            m.checkpoint_path = None
            m.fit(now["X"], max_its=c["its"], initial_decomposition=start(dims))
        elif op == "reshape":
            dims = [d + 1 for d in dims]
            now["X"] = data(dims)
            m.checkpoint_path = None
            m.fit(now["X"], max_its=c["its"], initial_decomposition=start(dims))
        elif op == "replace":
            m.decomposition = start(dims)
        elif op == "modify":
            d = m.decomposition
            for f in (d.factor_matrices if c["kind"] == "cp" else [d.A, d.blueprint_B, d.C]):
                f[...] = rng.standard_normal(f.shape)
        elif op == "normalise":
            if c["kind"] == "cp":
                m.decomposition.normalize_components()
        elif op == "target":
            now["X"] = data(dims)
            m.set_target(now["X"])
        elif op == "store":
            stored += 1
            m.checkpoint_path = path
            m.store_checkpoint(stored)
        elif op == "load":
            m2 = cls(R, checkpoint_path=path + ".other", **kw)
            m2.decomposition = start(dims)
            if os.path.exists(path + ".other"):
                os.remove(path + ".other")
            m2.store_checkpoint(4)
            m.load_checkpoint(path + ".other")
            m.checkpoint_path = None
        judge(m, now["X"], c, f"after {op}", lam)
