import os
import tempfile
import h5py
import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from tenkit.decomposition.logging import logger as lg
from .common import *

KINDS = {"LossLogger": "loss", "MSELogger": "MSE", "SSELogger": "SSE", "RMSELogger": "RMSE", "ExplainedVarianceLogger": "explained_variance"}


def fixed(tier):
    out = []
    for kind in ("cp", "pf2", "cmtf"):
        for f in (None, 1, 2, 3, 20):
            for b in (0, 1, 6, 7):
                out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, kinds=list(KINDS), steps=[["fit", b]]))
        for f in (None, 1, 2, 4):
            out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, kinds=list(KINDS), steps=[["fit", 5], ["continue", 9], ["store", 0], ["continue", 14]]))
            if kind != "cmtf":
                out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, kinds=["MSELogger", "LossLogger"], steps=[["fit", 5], ["resume", 9], ["resume", 12], ["continue", 15]]))
        out.append(dict(kind=kind, order=3, R=2, f=2, tol=0, path=False, kinds=list(KINDS), steps=[["fit", 5], ["continue", 9]]))
        out.append(dict(kind=kind, order=3, R=1, f=3, tol=1e-2, path=True, kinds=["RMSELogger"], steps=[["fit", 50], ["continue", 90]]))
    return out


def random_case(rng, tier):
    kind = pick(rng, ["cp", "cp", "pf2", "cmtf"])
    steps, b = [["fit", int(rng.integers(0, 9))]], 9
    for _ in range(int(rng.integers(0, 4))):
        b += int(rng.integers(0, 6))
        steps.append([pick(rng, ["continue", "continue", "resume", "store"] if kind != "cmtf" else ["continue"]), b])
    kinds = [k for k in KINDS if rng.random() < 0.6]
    rng.shuffle(kinds)
    return dict(kind=kind, order=pick(rng, [2, 3, 4, 5]) if kind == "cp" else 3, R=pick(rng, [1, 2]), f=pick(rng, [None, -1, 1, 2, 3, 5, 8]), tol=pick(rng, [0, 0, 1e-1, 1e-3]),
                path=bool(rng.random() < 0.9), kinds=kinds, steps=steps)


class Spy:
    """Evaluates every metric by itself after every iteration (last in the list of loggers)."""

    def __init__(self):
        self.its, self.vals = [], []

    def log(self, d):
        self.its.append(int(d.current_iteration))
        self.vals.append({k: float(getattr(d, a)) for k, a in KINDS.items()})

    def write_to_hdf5_group(self, g):
        pass


def check(c):
    with tempfile.TemporaryDirectory() as d:
        run(c, os.path.join(d, "c.h5"))


def make(c, path):
    cls = dict(cp=CP_ALS, pf2=Parafac2_ALS, cmtf=CMTF_ALS)[c["kind"]]
    loggers, spy = {k: getattr(lg, k)() for k in c["kinds"]}, Spy()
    m = cls(c["R"], convergence_tol=c["tol"], init="precomputed", checkpoint_path=path if c["path"] else None, checkpoint_frequency=c["f"], loggers=list(loggers.values()) + [spy])
    return m, loggers, spy


def run(c, path):
    rng = rng_of(c)
    dims, R = [4, 3, 5, 2, 2][:c["order"]], c["R"]
    fs = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    X = kruskal(fs) + 0.2 * rng.standard_normal(dims)
    start = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    if c["kind"] == "pf2":
        init = Parafac2Tensor(start[0].copy(), np.eye(R) + 0.1, start[2].copy(), [np.linalg.qr(rng.standard_normal((dims[1], R)))[0] for _ in range(dims[2])])
    else:
        init = KruskalTensor([s.copy() for s in start])
    extra = dict(coupled_matrices=[rng.uniform(0.2, 1, (dims[1], 3))], coupling_modes=[1]) if c["kind"] == "cmtf" else {}
    m, loggers, spy = make(c, path)
    old = []                       # (iteration, values) of earlier runs in this file
    hist = []
    shared = 0                     # entries in the file
    for number, (op, b) in enumerate(c["steps"]):
        start_it = len(spy.its)
        if op == "fit":
            m.fit(X, max_its=b, initial_decomposition=init, **extra)
        elif op == "continue":
            m.continue_fit(max_its=b)
        elif op == "store":
            if not c["path"] or m.current_iteration == 0:
                continue
            m.store_checkpoint(90000 + number)
            shared = len(old) + len(spy.its)
        elif op == "resume":
            if not os.path.exists(path):
                continue
            with h5py.File(path, "r") as h5:
                if int(h5.attrs["final_iteration"]) >= 90000:
                    continue
            old = old + list(zip(spy.its, spy.vals))
            old = old[:shared]
            m, loggers, spy = make(c, path)
            start_it = 0
            m.init = path
            m.fit(X, max_its=b)
        hist = old + list(zip(spy.its, spy.vals))
        made = len(spy.its) - start_it
        first = int(m.current_iteration) - made
        assert spy.its[start_it:] == list(range(first, first + made)), ("iterations", spy.its[start_it:], first, made)
        if made:
            shared = len(hist)     # the last iteration is stored
        if not c["path"]:
            assert not os.path.exists(path)
        for k, l in loggers.items():
            agree(f"{op}: {k} in memory", l.log_iterations, l.log_metrics, list(zip(spy.its, spy.vals)), k)
        if c["path"] and os.path.exists(path):
            with h5py.File(path, "r") as h5:
                for k in loggers:
                    agree(f"{op}: {k} on disk", h5[k]["iterations"][...], h5[k]["values"][...], hist[:shared], k)


def agree(what, its, vals, hist, k):
    assert len(its) == len(vals) == len(hist), (what, "lengths", len(its), len(vals), len(hist))
    assert [int(i) for i in its] == [i for i, _ in hist], (what, "iterations", list(its), [i for i, _ in hist])
    for a, (i, v) in zip(vals, hist):
        assert float(a) == v[k], (what, "iteration", i, float(a), v[k])
