import os
import tempfile
import h5py
import numpy as np
from tenkit.decomposition.decompositions import EvolvingTensor, KruskalTensor, Parafac2Tensor
from .common import *

CLS = {"K": KruskalTensor, "E": EvolvingTensor, "P": Parafac2Tensor}
DTYPES = ("float64", "float64", "float64", "float32", "int64")
SPECIAL = (1e-300, 1e300, -0.0, 0.1, np.pi, 1 + 2**-52, 5e-324, 1e-20)


def fixed(tier):
    out = []
    for o in (1, 2, 3, 4, 5, 12, 103):
        for w in (False, True):
            out.append(dict(kind="K", dims=[2 + (m % 3) for m in range(o)], R=2, w=w))
    for kind in "EP":
        for Js in ([3, 3, 3], [4, 2, 5], [1], [2] * 12, [3, 2] * 60, [1 + (k % 3) for k in range(1003)]):
            for warn in (True, False, None):
                out.append(dict(kind=kind, dims=[3], Js=Js, R=2, warning=warn, as_array=warn is True))
    for a in "KEP":
        for b in "KEP":
            out.append(dict(kind=a, dims=[2, 3, 2], Js=[2, 3], R=2, w=True, warning=False, read=b))
    return [dict(fl="normal", lay="C", dt="float64", special=True, read=None, where="file", before=None) | d for d in out]


def random_case(rng, tier):
    kind = pick(rng, "KEP")
    K = size(rng, 1, 6)
    Js = [size(rng, 1, 5)] * K if rng.random() < 0.4 else [size(rng, 1, 5) for _ in range(K)]
    if rng.random() < 0.02:
        Js = [int(j) for j in rng.integers(1, 3, size=pick(rng, [99, 101, 130, 1001]))]
    return dict(kind=kind, dims=sizes(rng, size(rng, 1, 6)), Js=Js, R=size(rng, 1, 5), w=bool(rng.random() < 0.6), warning=pick(rng, [True, False, None]),
                as_array=bool(rng.random() < 0.5), fl=pick(rng, FLAVOURS), lay=pick(rng, LAYOUTS), dt=pick(rng, DTYPES), special=bool(rng.random() < 0.3),
                read=pick(rng, [None, None, None, "K", "E", "P"]), where=pick(rng, ["file", "group", "nested"]), before=pick(rng, [None, "K", "E", "P"]))


def build(rng, c, kind):
    def mk(*shape):
        x = values(rng, shape, c["fl"])
        if c["special"] and x.size:
            x.flat[int(rng.integers(x.size))] = pick(rng, SPECIAL)
        if c["dt"] == "int64":
            x = np.round(3 * x)
        return layout(rng, np.clip(x, -1e30, 1e30).astype(c["dt"]) if c["dt"] != "float64" else x, c["lay"])
    R = c["R"]
    if kind == "K":
        fs = [mk(d, R) for d in c["dims"]]
        w = mk(R) if c.get("w") else None
        return KruskalTensor(fs, w), dict(factors=fs, weights=w)
    I, Js = c["dims"][0], c.get("Js") or [2, 3]
    A, C, B = mk(I, R), mk(len(Js), R), [mk(j, R) for j in Js]
    kw = {} if c.get("warning") is None else {"warning": c["warning"]}
    if c.get("as_array") and len(set(Js)) == 1:
        B = np.array(B)
    if kind == "E":
        return EvolvingTensor(A, B, C, **kw), dict(A=A, C=C, B=list(B))
    Bl = mk(R, R)
    return Parafac2Tensor(A, Bl, C, B, **kw), dict(A=A, C=C, Bl=Bl, P=list(B))


def exact(a, b, what):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}"
    assert np.array_equal(a, b), f"{what}: not equal"


def near(a, b, what, special):
    """Equal up to rounding (the loaded arrays may have another memory layout)."""
    assert a.shape == b.shape, what
    if not special and b.dtype == np.float64:
        close(a, b, tol=1e-7, what=what, scale=np.abs(b).max() + 1e-250)


def compare(T, parts, L, c, kind):
    assert type(L) is CLS[kind], "class"
    assert L.rank == c["R"], "rank"
    if kind == "K":
        assert len(L.factor_matrices) == len(parts["factors"]), "number of factors"
        for m, f in enumerate(parts["factors"]):
            exact(L.factor_matrices[m], f, f"factor {m}")
        exact(L.weights, parts["weights"] if parts["weights"] is not None else np.ones(c["R"]), "weights")
        if 1 < len(parts["factors"]) < 7:
            near(L.construct_tensor(), T.construct_tensor(), "reconstruction", c["special"])
        return
    exact(L.A, parts["A"], "A")
    exact(L.C, parts["C"], "C")
    if kind == "E":
        assert len(L.B) == len(parts["B"]), "number of evolving factors"
        for k, b in enumerate(parts["B"]):
            exact(L.B[k], b, f"B_{k}")
    else:
        exact(L.blueprint_B, parts["Bl"], "blueprint")
        assert len(L.projection_matrices) == len(parts["P"]), "number of projections"
        for k, b in enumerate(parts["P"]):
            exact(L.projection_matrices[k], b, f"projection {k}")
    assert bool(L.warning) == (True if c.get("warning") is None else c["warning"]), "warning setting"
    if len(parts.get("B", parts.get("P"))) < 20:
        for k, s in enumerate(T.construct_slices()):
            near(L.construct_slices()[k], s, f"slice {k}", c["special"])


def check(c):
    rng = rng_of(c)
    kind, read = c["kind"], c.get("read") or c["kind"]
    T, parts = build(rng, c, kind)
    fr = Frame(**parts)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, "x.h5")
        if c["where"] == "file":
            if c.get("before"):
                build(rng, c, c["before"])[0].store(path)
            T.store(path)
            fr.check("storing modifies")
            for v in [v for v in parts.values() if isinstance(v, np.ndarray)]:
                keep = v.copy(); v[...] = 1; v[...] = keep
            load = lambda cls: cls.from_file(path)
            go(load, T, parts, c, kind, read)
        else:
            with h5py.File(path, "w") as h5:
                g = h5.create_group("a" if c["where"] == "group" else "a/b/c")
                if c.get("before"):
                    T0, p0 = build(rng, c, c["before"])
                    g0 = h5.create_group("z")
                    T0.store_in_hdf5_group(g0)
                T.store_in_hdf5_group(g)
                fr.check("storing modifies")
            with h5py.File(path, "r") as h5:
                g = h5["a" if c["where"] == "group" else "a/b/c"]
                go(lambda cls: cls.load_from_hdf5_group(g), T, parts, c, kind, read)
                if c.get("before"):
                    compare(T0, p0, CLS[c["before"]].load_from_hdf5_group(h5["z"]), c, c["before"])
    fr.check()


def go(load, T, parts, c, kind, read):
    if read == kind:
        compare(T, parts, load(CLS[kind]), c, kind)
    else:
        raises(f"{CLS[kind].__name__} read as {CLS[read].__name__}", (Exception,), lambda: load(CLS[read]))
