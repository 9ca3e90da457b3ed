import os
import tempfile
import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from .common import *


def fixed(tier):
    out = []
    for kind in ("cp", "pf2", "cmtf"):
        for b in (0, 1, 2, 7):
            for tol in (0, 1e-2, 1e-6):
                out.append(dict(kind=kind, dims=[4, 3, 5], R=2, b0=b, fit_b=None, cont=[None, 3], tol=tol, rel_tol=1e-10, pf=None, ck=None, noise=0.2))
        out.append(dict(kind=kind, dims=[4, 3, 5], R=2, b0=50, fit_b=None, cont=[60, 60], tol=1e-3, rel_tol=1e-10, pf=1, ck=None, noise=0.0))
        out.append(dict(kind=kind, dims=[4, 3, 5], R=2, b0=50, fit_b=4, cont=[2, 4, 6, 3], tol=0, rel_tol=0.3, pf=3, ck=None, noise=0.1))
        out.append(dict(kind=kind, dims=[4, 3, 5], R=2, b0=8, fit_b=None, cont=[12], tol=1e-7, rel_tol=0, pf=None, ck=None, noise=0.5, infeasible=True))
        out.append(dict(kind=kind, dims=[4, 3, 5], R=2, b0=9, fit_b=0, cont=[0, None], tol=1e-8, rel_tol=1e-10, pf=0, ck=3, noise=0.1))
    return out


def random_case(rng, tier):
    return dict(kind=pick(rng, ["cp", "cp", "pf2", "cmtf"]), dims=[size(rng, 2, 5) for _ in range(3)], R=size(rng, 1, 2), b0=int(rng.integers(0, 12)),
                fit_b=pick(rng, [None, None, 0, 1, 3, 20]), cont=[pick(rng, [None, 0, 2, 5, 12, 40]) for _ in range(int(rng.integers(0, 3)))],
                tol=pick(rng, [0, 1e-1, 1e-2, 1e-4, 1e-6]), rel_tol=pick(rng, [0, 1e-10, 1e-1, 0.5]), pf=pick(rng, [None, -1, 0, 1, 2]),
                ck=pick(rng, [None, None, 0, 4]), noise=pick(rng, [0, 0.1, 1.0]), infeasible=bool(rng.random() < 0.15))


class Spy:
    """Records the monitored error (from its definition) after every iteration."""

    def __init__(self, err):
        self.err, self.its, self.vals = err, [], []

    def log(self, d):
        self.its.append(int(d.current_iteration))
        self.vals.append(self.err(d))

    def write_to_hdf5_group(self, g):
        pass


def check(c):
    rng = rng_of(c)
    dims, R = c["dims"], c["R"]
    fs = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    start = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    if c.get("infeasible"):     # a good start that violates the constraints: the error grows at first
        fs = [f * ([1, -1] * R)[:R] if k == 0 else f for k, f in enumerate(fs)]
        start = [f + 0.01 * s for f, s in zip(fs, start)]
    X = kruskal(fs) + c["noise"] * rng.standard_normal(dims)
    opts = dict(non_negativity_constraints=[True] * 3) if c.get("infeasible") else {}
    kw = dict(opts, max_its=c["b0"], convergence_tol=c["tol"], print_frequency=c["pf"], init="precomputed")
    extra = {}
    if c["kind"] == "cp":
        err = lambda d: float(np.sum((X - d.decomposition.construct_tensor()) ** 2))
        m = CP_ALS(R, rel_loss_tol=c["rel_tol"], **kw)
        init = KruskalTensor(start)
    elif c["kind"] == "cmtf":
        Y = fs[1] @ rng.uniform(0.2, 1, (3, R)).T + c["noise"] * rng.standard_normal((dims[1], 3))
        err = None
        m = CMTF_ALS(R, rel_loss_tol=c["rel_tol"], **kw)
        init = KruskalTensor(start)
        extra = dict(coupled_matrices=[Y], coupling_modes=[1])
        err = lambda d: float(np.sum((X - kruskal(d.factor_matrices, d.weights)) ** 2) + np.sum((Y - d.factor_matrices[1] @ d.uncoupled_factor_matrices[0].T) ** 2))
    else:
        err = lambda d: float(sum(np.sum((X[:, :, k] - s) ** 2) for k, s in enumerate(slices(d.decomposition.A, list(d.decomposition.B), d.decomposition.C))))
        m = Parafac2_ALS(R, **kw)
        if R > min(dims[0], dims[1]):
            raise Skip
        init = Parafac2Tensor(start[0], np.eye(R) + 0.1 * rng.random((R, R)), start[2], [np.linalg.qr(rng.standard_normal((dims[1], R)))[0] for _ in range(dims[2])])
        if c.get("infeasible"):
            X = np.stack(slices(start[0], [p @ init.blueprint_B for p in init.projection_matrices], start[2]), 2) + 0.01 + 0.01 * c["noise"]
    nX = float(np.sum(X ** 2))
    spy = Spy(err)
    m.loggers = [spy]
    c0 = 0
    if c["ck"] is not None and c["kind"] != "cmtf":
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, "c.h5")
            m0 = type(m)(R, checkpoint_path=path)
            m0.decomposition = init
            m0.store_checkpoint(c["ck"])
            m.init = "from_checkpoint"
            first(m, X, path, c, extra)
        c0 = c["ck"] + 1
    else:
        first(m, X, init, c, extra)
    B = c["b0"] if c["fit_b"] is None else c["fit_b"]
    probe = type(m)(R, max_its=0, init="precomputed", **opts)       # the error of the initial decomposition
    init2 = rebuild(c, rng_of(c))
    state = np.random.get_state()
    if c["kind"] == "cmtf":
        e0 = None
    else:
        probe.fit(X, initial_decomposition=init2)
        e0 = err(probe)
    np.random.set_state(state)
    judge(c, spy, 0, c0, B, e0, np.inf, nX, m)
    for b in c["cont"]:
        n, cur = len(spy.vals), int(m.current_iteration)
        B = B if b is None else b
        last, rel = (spy.vals[-1] if n else e0), (None if n == 0 else "last")
        keep = [np.array(f) for f in parts(m)]
        m.continue_fit(max_its=b)
        if len(spy.vals) == n and c["kind"] != "cmtf":
            for f, k in zip(parts(m), keep):
                assert np.array_equal(f, k), "no iteration was made but the decomposition changed"
        prev = np.inf
        if n:
            before = spy.vals[n - 2] if n > 1 else e0
            prev = None if before is None else (before - last) / before
        judge(c, spy, n, cur, B, last, prev, nX, m)


def parts(m):
    d = m.decomposition
    return list(d.factor_matrices) if isinstance(d, KruskalTensor) else [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)


def rebuild(c, rng):
    """The same initial decomposition again (fits work in place)."""
    dims, R = c["dims"], c["R"]
    fs = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    start = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    if c.get("infeasible"):
        fs = [f * ([1, -1] * R)[:R] if k == 0 else f for k, f in enumerate(fs)]
        start = [f + 0.01 * s for f, s in zip(fs, start)]
    rng.standard_normal(dims)
    if c["kind"] != "pf2":
        return KruskalTensor(start)
    return Parafac2Tensor(start[0], np.eye(R) + 0.1 * rng.random((R, R)), start[2], [np.linalg.qr(rng.standard_normal((dims[1], R)))[0] for _ in range(dims[2])])


def first(m, X, init, c, extra):
    np.random.seed(c["seed"] % 2**32)
    if extra:
        m.fit(X, initial_decomposition=init, max_its=c["fit_b"], **extra)
    else:
        m.fit(X, initial_decomposition=init, max_its=c["fit_b"])


def judge(c, spy, n, cur, B, e, rel, nX, m):
    """The iterations made since the n-th log entry, starting with error e and relative change rel."""
    new = spy.vals[n:]
    assert spy.its[n:] == list(range(cur, cur + len(new))), f"iteration numbers {spy.its[n:]}"
    assert int(m.current_iteration) == cur + len(new), "number of iterations"
    assert len(new) <= max(0, B - cur), "more iterations than the budget"
    slack = 1e-6
    for t in range(len(new) + 1):
        good = c["kind"] != "pf2" and e is not None and e / nX < c["rel_tol"] * (1 - slack) - 1e-13
        maybe_good = c["kind"] != "pf2" and (e is None or e / nX < c["rel_tol"] * (1 + slack) + 1e-13)
        noise = 1e-9 + (1e-13 * nX / e if e else 0)
        conv = rel is not None and np.isfinite(rel) and abs(rel) < c["tol"] * (1 - slack) - noise
        maybe_conv = rel is None or (np.isfinite(rel) and abs(rel) < c["tol"] * (1 + slack) + noise) or not np.isfinite(rel) and e == 0
        if t < len(new):
            assert not good, f"iteration {cur + t} made although the error is small enough"
            assert not conv, f"iteration {cur + t} made although the fit has converged (relative change {rel:.3g})"
            rel = None if e is None else (e - new[t]) / e if e else np.nan
            e = new[t]
        else:
            assert cur + t >= B or maybe_good or maybe_conv, f"stopped after {t} iterations (budget {B}, relative change {rel})"
