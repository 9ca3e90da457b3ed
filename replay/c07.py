import os
import tempfile
import warnings
import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from .common import *


def fixed(tier):
    out = []
    F, N, O = "free", "nonneg", "orth"
    for kind in ("cp", "pf2", "pf2irr"):
        for how in ((N, N, N), (O, F, F), (F, O, F), (F, F, O), (N, O, F), (O, F, N), (F, N, O), (O, N, N)):
            for ridge in (None, [0.5, 1.0, 0.1]):
                for init in ("random", "svd", "precomputed") + (("cp",) if kind == "pf2" else ()):
                    out.append(dict(kind=kind, dims=[5, 6, 4], R=2, how=list(how), ridge=ridge, init=init, its=3, cont=0, renorm=False, inner=3))
        for mode in range(3):
            for ridge in (None, [1, 1, 1]):
                out.append(dict(kind=kind, dims=[5, 6, 4], R=2, how=[F] * mode + ["both"] + [F] * (2 - mode), ridge=ridge, init="random", its=1, cont=0, renorm=False, inner=1))
        out.append(dict(kind=kind, dims=[5, 6, 4], R=2, how=[N, O, F], ridge=None, init="checkpoint", its=2, cont=2, renorm=True, inner=1))
    return out


def random_case(rng, tier):
    kind = pick(rng, ["cp", "cp", "pf2", "pf2irr"])
    n = pick(rng, [2, 3, 4, 5]) if kind == "cp" else 3
    return dict(kind=kind, dims=[size(rng, 2, 6) for _ in range(n)], R=size(rng, 1, 3), how=[pick(rng, ["free", "nonneg", "orth"]) for _ in range(n)],
                ridge=pick(rng, [None, [float(rng.choice([0, 0.1, 2.0])) for _ in range(n)]]), init=pick(rng, ["random", "svd", "precomputed", "checkpoint"] + (["cp"] if kind == "pf2" else [])),
                its=int(rng.integers(1, 5)), cont=int(rng.integers(0, 4)), renorm=bool(rng.random() < 0.3), inner=int(rng.integers(1, 4)))


def check(c):
    with tempfile.TemporaryDirectory() as d, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        from tenkit import base
        real = base.orthogonal_rightsolve
        try:
            run(c, os.path.join(d, "c.h5"))
        finally:
            base.orthogonal_rightsolve = real


def run(c, path):
    rng = rng_of(c)
    dims, R, how = c["dims"], c["R"], c["how"]
    n = len(dims)
    if len(how) != n or min(dims) < R or (c["kind"] != "cp" and (n != 3 or min(dims[0], dims[1]) < R)):
        raise Skip
    cls = CP_ALS if c["kind"] == "cp" else Parafac2_ALS
    kw = dict(convergence_tol=0, print_frequency=-1, ridge_penalties=c["ridge"], non_negativity_constraints=[h in ("nonneg", "both") for h in how],
              orthonormality_constraints=[h in ("orth", "both") for h in how])
    if c["kind"] == "cp":
        kw["rel_loss_tol"] = 0
        X = rng.standard_normal(dims)
        init = KruskalTensor([rng.standard_normal((d, R)) for d in dims], rng.uniform(0.5, 2, R))
    else:
        kw["cp_updates_per_it"] = c["inner"]
        Js = [dims[1]] * dims[2] if c["kind"] == "pf2" else [dims[1] + k % 2 for k in range(dims[2])]
        Xs = [rng.standard_normal((dims[0], j)) for j in Js]
        X = np.stack(Xs, axis=2) if c["kind"] == "pf2" else Xs
        init = Parafac2Tensor(rng.standard_normal((dims[0], R)), rng.standard_normal((R, R)), rng.standard_normal((dims[2], R)), [np.linalg.qr(rng.standard_normal((j, R)))[0] for j in Js])
    m = cls(R, init=c["init"] if c["init"] != "checkpoint" else path, **kw)
    if c["init"] == "checkpoint":
        m0 = cls(R, checkpoint_path=path)
        m0.decomposition = init
        m0.store_checkpoint(0)
    give = dict(initial_decomposition=init) if c["init"] == "precomputed" else {}
    if "both" in how:
        try:
            m.fit(X, max_its=c["its"], **give)
        except ValueError:
            return
        assert False, "both constraints on one mode were accepted"
    start = 1 if c["init"] == "checkpoint" else 0
    regular = Gate(m, how, c)
    m.fit(X, max_its=start + c["its"], **give)
    judge(m, how, c, "after the fit", R, regular)
    if c["cont"]:
        if c["renorm"] and c["kind"] == "cp":
            m.decomposition.normalize_components()
        m.continue_fit(max_its=start + c["its"] + c["cont"])
        judge(m, how, c, "after continuing", R, regular)


class Gate:
    """Remembers which orthonormal subproblems were (numerically) rank deficient."""

    def __init__(self, m, how, c):
        self.ok = True
        from tenkit import base
        self.base, self.real = base, base.orthogonal_rightsolve

        def spy(A, B):
            s = np.linalg.svd(B @ A.T, compute_uv=False)
            if s[-1] < 1e-10 * s[0] or s[0] == 0:
                self.ok = False
            return self.real(A, B)
        base.orthogonal_rightsolve = spy


def judge(m, how, c, what, R, gate):
    d = m.decomposition
    fs = list(d.factor_matrices) if c["kind"] == "cp" else [d.A, d.blueprint_B, d.C]
    for k, (f, h) in enumerate(zip(fs, how)):
        if h == "nonneg":
            assert np.all(np.asarray(f) >= 0), (what, "negative entries in mode", k, float(np.min(f)))
        if h == "orth" and gate.ok:
            assert np.allclose(f.T @ f, np.eye(R), atol=1e-8), (what, "mode is not orthonormal", k)
    if c["kind"] == "cp":
        assert np.all(np.asarray(d.weights) == 1), (what, "weights", d.weights)
