import os
import tempfile
import h5py
import numpy as np
from tenkit.log import Experiment, HDF5Logger, Logger
from .common import *


def fixed(tier):
    out = []
    for freq in (1, 2, 3, 7):
        for runs in ([["l"] * n for n in (5,)], [["l"] * 4 + ["s"] + ["l"] * 3], [["s", "s"] + ["l"] * 2 + ["s", "s", "l", "l"]],
                     [["l"] * 4 + ["s"], ["l"] * 5], [["l"] * 3, ["l"] * 3, ["l"] * 3], [[], ["l"] * 2 + ["s"], ["s"]], [["l", "s"] * 8]):
            out.append(dict(kind="logger", freq=freq, runs=runs, nt=2, na=1, other=True))
    for cont in (False, True):
        for meta in (False, True):
            out.append(dict(kind="experiment", runs=2, cont=cont, meta=meta, attrs=True, shape=[3, 2]))
    return out


def random_case(rng, tier):
    if rng.random() < 0.6:
        runs = [["s" if rng.random() < 0.15 else "l" for _ in range(int(rng.integers(0, 15)))] for _ in range(int(rng.integers(1, 4)))]
        return dict(kind="logger", freq=size(rng, 1, 6), runs=runs, nt=size(rng, 1, 4), na=size(rng, 0, 3), other=bool(rng.random() < 0.6))
    return dict(kind="experiment", runs=size(rng, 1, 4), cont=bool(rng.random() < 0.5), meta=bool(rng.random() < 0.7), attrs=bool(rng.random() < 0.7),
                shape=[size(rng, 1, 4), size(rng, 1, 4)])


def logger(c):
    rng = rng_of(c)
    names = ["zeta", "loss", "grad_norm", "b"][:c["nt"]]
    args = tuple(rng.standard_normal(3) for _ in range(c["na"]))
    mult = {t: k + 1.3 for k, t in enumerate(names)}

    def mk(t):
        def f(p, *a):
            assert len(a) == len(args) and all(x is y for x, y in zip(a, args)), "extra arguments"
            return mult[t] * float(np.sum(p)) + sum((k + 1) * float(x[0]) for k, x in enumerate(a))
        return f
    fs = {t: mk(t) for t in names}
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "log.h5")
        if c["other"]:
            with h5py.File(path, "w") as h5:
                h5["other/keep"] = np.arange(4.0)
                h5["ex/param"] = 3
        exp = {t: [] for t in names}            # everything ever written + pending of the current run
        written = 0                             # what must be on disk
        for n, ops in enumerate(c["runs"]):
            for t in names:
                del exp[t][written:]            # values of an earlier run that were never saved are gone
            lg = HDF5Logger(path, "ex", c["freq"], args, continue_old=n > 0, **fs)
            run = {t: [] for t in names}
            for o in ops:
                if o == "s":
                    lg.save_logs()
                    written = len(exp[names[0]])
                else:
                    p = rng.standard_normal(4)
                    q = p.copy()
                    lg.log(p)
                    assert np.array_equal(p, q), "parameters changed"
                    for t in names:
                        v = fs[t](p, *args)
                        exp[t].append(v)
                        run[t].append(v)
                    if len(exp[names[0]]) % c["freq"] == 0:
                        written = len(exp[names[0]])
                assert sorted(lg.target_values) == sorted(names), "targets"
                with h5py.File(path, "r") as h5:
                    for t in names:
                        assert lg.target_values[t] == run[t], f"{t}: values in memory"
                        got = h5["ex"][t][...]
                        assert got.dtype == np.float32 and got.shape == (written,), f"{t}: {got.shape} {got.dtype} on disk instead of {written} values"
                        assert np.array_equal(got, np.array(exp[t][:written], dtype=np.float32)), f"{t}: values on disk"
                    if c["other"]:
                        assert np.array_equal(h5["other/keep"][...], np.arange(4.0)) and h5["ex/param"][()] == 3, "other data lost"
        lg = Logger(args, **fs)
        ps = [rng.standard_normal(3) for _ in range(4)]
        for p in ps:
            lg.log(p)
        for t in names:
            assert lg.target_values[t] == [fs[t](p, *args) for p in ps], "plain logger"


def experiment(c):
    rng = rng_of(c)
    X = rng.standard_normal(c["shape"])
    keep = X.copy()
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "ex.h5")
        want = {}

        def run(name, ex, cont):
            params = dict(rank=int(rng.integers(1, 5)), tol=float(rng.random()), mode="fast", grid=rng.standard_normal(3), flag=bool(rng.random() < 0.5))
            outs = dict(A=rng.standard_normal(c["shape"]), err=float(rng.random()), its=int(rng.integers(9)))
            evals = dict(score=float(rng.random()), curve=rng.standard_normal(5))
            logger, calls = object(), []
            note = float(rng.random())

            def f(Z, *, h5_group, logger, load_old, **kw):
                assert Z is X and logger is lg and load_old is cont and set(kw) == set(params) and all(kw[k] is params[k] for k in kw), "arguments of the experiment function"
                if "note" in h5_group:
                    del h5_group["note"]
                h5_group["note"] = note
                calls.append("f")
                return outs

            def ev(Z, p, o):
                assert Z is X and p == params and o is outs, "arguments of the evaluation"
                calls.append("e")
                return evals
            lg = logger
            ex.run_experiment(X, f, params, ev, logger=lg, continue_old=cont)
            assert calls == ["f", "e"], "calls"
            want[name] = dict(want.get(name, {}), attrs=dict(want.get(name, {}).get("attrs", {}), **params), data=dict(outs, **evals, note=note))
        meta = {}
        exs = {}
        for n in range(c["runs"]):
            name = f"ex{n}"
            at = dict(who=name, lr=float(rng.random())) if c["attrs"] else None
            md = {f"m{n}": rng.standard_normal(2), f"seed{n}": n} if c["meta"] else None
            meta.update(md or {})
            exs[name] = Experiment(path, name, at, md)
            want[name] = dict(attrs=dict(at or {}), data={})
            run(name, exs[name], False)
            verify(path, want, meta)
        if c["cont"]:
            for n in range(c["runs"]):
                run(f"ex{n}", Experiment(path, f"ex{n}"), True)
                verify(path, want, meta)
    assert np.array_equal(X, keep), "data changed"


def verify(path, want, meta):
    with h5py.File(path, "r") as h5:
        for k, v in meta.items():
            assert np.array_equal(h5["metadata"][k][()], v), f"metadata {k}"
        for name, w in want.items():
            g = h5[name]
            for k, v in w["attrs"].items():
                assert np.array_equal(g.attrs[k], v), f"{name}: attribute {k}"
            for k, v in w["data"].items():
                assert np.array_equal(g[k][()], v), f"{name}: {k}"


def check(c):
    (logger if c["kind"] == "logger" else experiment)(c)
