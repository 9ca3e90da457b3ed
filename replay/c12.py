import os
import tempfile
import h5py
import numpy as np
from tenkit import utils
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, Parafac2Tensor
from .common import *


def fixed(tier):
    out = []
    for kind in ("cp", "pf2", "cmtf"):
        for f in (None, -1, 0, 1, 2, 3, 7, 20):
            for b in (0, 1, 6, 7):
                out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, steps=[["fit", b]]))
        out.append(dict(kind=kind, order=3, R=2, f=3, tol=1e-3, path=True, steps=[["fit", 40], ["continue", 60]]))
        out.append(dict(kind=kind, order=3, R=2, f=2, tol=0, path=False, steps=[["fit", 5]]))
        for f in (None, 1, 4):
            out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, steps=[["fit", 4], ["continue", 4], ["continue", 9], ["continue", 10]]))
            if kind != "cmtf":
                out.append(dict(kind=kind, order=3, R=2, f=f, tol=0, path=True, steps=[["fit", 5], ["load", None], ["continue", 9], ["resume", 12], ["continue", 15]]))
    return out


def random_case(rng, tier):
    kind = pick(rng, ["cp", "cp", "pf2", "cmtf"])
    steps, b = [["fit", int(rng.integers(0, 9))]], 9
    for _ in range(int(rng.integers(0, 4))):
        b += int(rng.integers(0, 6))
        steps.append([pick(rng, ["continue", "continue", "load", "resume"] if kind != "cmtf" else ["continue"]), b])
    return dict(kind=kind, order=pick(rng, [2, 3, 4, 5]) if kind == "cp" else 3, R=size(rng, 1, 2), f=pick(rng, [None, -1, 1, 2, 3, 5, 8]), tol=pick(rng, [0, 0, 1e-1, 1e-3]),
                path=bool(rng.random() < 0.95), steps=steps)


def contents(d):
    if isinstance(d, KruskalTensor):
        return [np.array(f) for f in d.factor_matrices] + [np.array(d.weights)]
    return [np.array(x) for x in [d.A, d.blueprint_B, d.C] + list(d.projection_matrices)]


class Spy:
    """Remembers the decomposition after every iteration."""

    def __init__(self):
        self.seen = {}
        self.writes = []

    def log(self, d):
        self.seen[int(d.current_iteration)] = contents(d.decomposition)

    def write_to_hdf5_group(self, g):
        self.writes.append(sorted(self.seen))


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


def check(c):
    with tempfile.TemporaryDirectory() as d:
        run(c, os.path.join(d, "c.h5"), d)


def make(c, path, dims):
    cls = dict(cp=CP_ALS, pf2=Parafac2_ALS, cmtf=CMTF_ALS)[c["kind"]]
    spy = Spy()
    m = cls(c["R"], convergence_tol=c["tol"], init="precomputed", checkpoint_path=path if c["path"] else None, checkpoint_frequency=c["f"], loggers=[spy])
    return m, spy


def stored_in(path, cls):
    out = {}
    if not os.path.exists(path):
        return out
    with h5py.File(path, "r") as h5:
        names = [n for n in h5 if n.startswith("checkpoint")]
        for n in names:
            e = int(n.split("_")[1])
            assert n == f"checkpoint_{e:05d}", n
            out[e] = contents(cls.DecompositionType.load_from_hdf5_group(h5[n]))
        its = [int(i) for i in h5.attrs["checkpoint_its"]]
        assert sorted(its) == sorted(out), ("recorded iterations", its, sorted(out))
        assert len(set(its)) == len(its), its
        order = [g.name for g in utils.iter_checkpoints(h5)]
        assert order == [f"/checkpoint_{e:05d}" for e in sorted(out)], order
        assert int(h5.attrs["final_iteration"]) == its[-1], "latest iteration"
    return out


def run(c, path, folder):
    rng = rng_of(c)
    dims, R = [4, 3, 5, 2, 2][:c["order"]], c["R"]
    fs = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    X = kruskal(fs) + 0.2 * rng.standard_normal(dims)
    start = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    if c["kind"] == "pf2":
        if R > min(dims[:2]):
            raise Skip
        init = lambda: Parafac2Tensor(start[0].copy(), np.eye(R) + 0.1, start[2].copy(), [np.linalg.qr(rng.standard_normal((dims[1], R)))[0] for _ in range(dims[2])])
    else:
        init = lambda: KruskalTensor([s.copy() for s in start])
    extra = {}
    if c["kind"] == "cmtf":
        extra = dict(coupled_matrices=[rng.uniform(0.2, 1, (dims[1], 3))], coupling_modes=[1])
    m, spy = make(c, path, dims)
    want = {}                     # what the file has to hold
    for op, b in c["steps"]:
        before = dict(want)
        if op == "fit":
            m.fit(X, max_its=b, initial_decomposition=init(), **extra)
            first = 0
        elif op == "continue":
            first = int(m.current_iteration)
            m.continue_fit(max_its=b)
        elif op in ("load", "resume"):
            if not want:
                try:
                    m.load_checkpoint(path) if os.path.exists(path) else None
                except ValueError:
                    pass
                continue
            if op == "resume":
                m, spy2 = make(c, path, dims)
                m.init = path
                m.fit(X, max_its=b)
                first, spy = max(want) + 1, spy2
            else:
                loads(m, path, want)
                continue
        done = sorted(e for e in spy.seen if e >= first)
        n = int(m.current_iteration)
        assert done == list(range(first, n)), ("iterations seen", done, first, n)
        f = c["f"]
        if c["path"]:
            for e in done:
                if f is not None and f > 0 and (e + 1) % f == 0 or e == n - 1:
                    want[e] = spy.seen[e]
        got = stored_in(path, type(m))
        assert sorted(got) == sorted(want), (op, "stored iterations", sorted(got), "expected", sorted(want))
        for e in want:
            assert same(got[e], want[e]), (op, "contents of checkpoint", e)
        if not c["path"]:
            assert os.listdir(folder) == [], os.listdir(folder)
        if done and c["kind"] != "cmtf":      # CMTF normalises its components at the end
            assert same(contents(m.decomposition), spy.seen[n - 1]), "the model holds its last iterate"
    # loading leaves everything else alone
    if want and c["kind"] != "cmtf":
        loads(m, path, want)
        got = stored_in(path, type(m))
        assert sorted(got) == sorted(want) and all(same(got[e], want[e]) for e in want), "loading changed the file"


def loads(m, path, want):
    for e in [None] + sorted(want):
        latest = max(want) if e is None else e
        m.load_checkpoint(path, load_it=e) if e is not None else m.load_checkpoint(path)
        assert same(contents(m.decomposition), want[latest]), ("loaded", e)
        assert int(m.current_iteration) == latest + 1, ("iteration number after loading", e, m.current_iteration)
    keep, it = m.decomposition, m.current_iteration
    for e in range(max(want) + 3):
        if e not in want:
            try:
                m.load_checkpoint(path, load_it=e)
            except (ValueError, KeyError):
                pass
            else:
                assert False, ("missing checkpoint accepted", e)
            assert m.decomposition is keep and m.current_iteration == it, "refused loading changed the model"
    m.load_checkpoint(path)
