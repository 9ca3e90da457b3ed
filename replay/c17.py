import os
import tempfile
import warnings
import numpy as np
from tenkit import metrics
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor, Parafac2Tensor
from .common import *

UNKNOWN = ("", "foo", "svd ", " random", "rand", "randomly", "precompute", "from-checkpoint", "hosvd", "nothing.h5", "none", "xsvd", "random,svd")
KINDS = ("kruskal", "kruskal", "cp", "cp", "cpload", "pf2", "pf2", "pf2", "pf2load", "init", "reduction", "svd", "svd", "core", "wrongkind")


def fixed(tier):
    out = []
    for n in (1, 2, 3, 4):
        for bad in range(-1, n + 2):
            out.append(dict(kind="kruskal", n=n, bad=bad, opt=bad + 1))
    for kind in ("cp", "cpload"):
        for n in (2, 3, 4):
            for bad in range(-1, 2 * n + 4):
                out.append(dict(kind=kind, n=n, bad=bad, opt=bad + 1))
    for kind in ("pf2", "pf2load"):
        for n in (1, 2, 4):
            for bad in range(-1, 14):
                out.append(dict(kind=kind, n=n, bad=bad, opt=bad + 1))
    for bad in range(len(UNKNOWN)):
        for n in (0, 1):
            out.append(dict(kind="init", n=n, bad=bad, opt=0))
    for opt in range(12):
        for n in (2, 3):
            out.append(dict(kind="reduction", n=n, bad=0, opt=opt))
    for n in (2, 3, 4):
        for bad in range(-1, 4):
            for opt in range(3):
                out.append(dict(kind="svd", n=n, bad=bad, opt=opt))
    for n in (1, 2, 3, 4, 5):
        for opt in (0, 1):
            out.append(dict(kind="core", n=n, bad=0, opt=opt))
    for opt in range(6):
        out.append(dict(kind="wrongkind", n=3, bad=0, opt=opt))
    return out


def random_case(rng, tier):
    return dict(kind=pick(rng, KINDS), n=int(rng.integers(1, 5)), bad=int(rng.integers(-1, 14)), opt=int(rng.integers(12)))


def decide(what, fits, f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            f()
        except Exception as e:
            assert not fits, f"{what}: rejected although it fits: {type(e).__name__}: {e}"
            return
    assert fits, f"{what}: accepted although it does not fit"


def check(case):
    k = case["kind"]
    with tempfile.TemporaryDirectory() as tmp:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run(case, k, tmp)


def other(rng, n):
    """another size"""
    c = [m for m in (1, n - 1, n + 1, n + 2, 2 * n) if m >= 1 and m != n]
    return pick(rng, c)


def run(case, k, tmp):
    rng = rng_of(case)
    n, bad, opt = case["n"], case["bad"], case["opt"]
    if k == "kruskal":
        R = int(rng.integers(1, 5))
        cols = [R] * n
        W = R
        fits = True
        if 0 <= bad < n and n > 1:
            cols[bad] = other(rng, R)
            fits = False
        elif bad == n:
            W, fits = other(rng, R), False
        fs = [rng.standard_normal((int(rng.integers(1, 6)), c)) for c in cols]
        if 0 <= bad < n and n > 1:
            W = pick(rng, cols)
        w = rng.standard_normal(W)
        if opt % 3 == 0 and bad != n:
            w = None
        elif opt % 3 == 1:
            w = list(w)
        decide("Kruskal tensor", fits, lambda: KruskalTensor(fs, w) if opt % 2 else KruskalTensor(fs, weights=w))
    elif k in ("cp", "cpload"):
        n = max(n, 2)
        R = int(rng.integers(1, 4))
        shape = [int(rng.integers(2, 6)) for _ in range(n)]
        if opt % 4 == 0:
            shape = [shape[0]] * n
        ds, Rd, fits = list(shape), R, True
        if 0 <= bad < n:
            ds[bad] = other(rng, ds[bad])
            fits = False
        elif bad == n:
            Rd, fits = other(rng, R), False
        elif bad == n + 1:
            ds, fits = ds + [int(rng.integers(1, 4))], False
        elif bad == n + 2:
            ds, fits = ds[:-1], False
        elif bad == n + 3:
            # modes in another order
            ds = ds[::-1]
            fits = ds == shape
        elif bad > n + 3 and n < 5:
            ds, fits = [1] + ds, False
        X = rng.standard_normal(shape)
        dec = KruskalTensor([rng.standard_normal((d, Rd)) for d in ds], rng.standard_normal(Rd))
        its = pick(rng, (0, 1, 2))
        if k == "cp":
            m = CP_ALS(R, max_its=its, init=pick(rng, ("precomputed", "Precomputed")), convergence_tol=0)
            decide("precomputed CP start", fits, lambda: m.fit(X, initial_decomposition=dec))
        else:
            path = os.path.join(tmp, "c.h5")
            s = CP_ALS(Rd, checkpoint_path=path)
            s.decomposition = dec
            s.store_checkpoint(int(rng.integers(0, 30)))
            m = CP_ALS(R, max_its=its, init=pick(rng, ("from_checkpoint", path)), convergence_tol=0)
            if opt % 2:
                m.set_target(X)
                decide("loaded CP checkpoint", fits, lambda: m.load_checkpoint(path))
            else:
                decide("loaded CP start", fits, lambda: m.fit(X, initial_decomposition=path if m.init == "from_checkpoint" else None))
    elif k in ("pf2", "pf2load"):
        K = n
        R = int(rng.integers(1, 4))
        I = R + int(rng.integers(0, 3))
        J = [R + int(rng.integers(0, 4)) for _ in range(K)]
        if opt % 3 == 0:
            J = [J[0]] * K
        dI, dJ, dK, RA, RF, RC, Q = I, list(J), K, R, R, R, R
        fits = True
        if bad == 0:
            dI, fits = other(rng, I), False
        elif bad == 1:
            j = int(rng.integers(K))
            dJ[j], fits = other(rng, dJ[j]), False
        elif bad == 2:
            dJ[-1], fits = other(rng, dJ[-1]), False
        elif bad == 3:
            dJ, dK, fits = dJ + [dJ[-1]], K + 1, False
        elif bad == 4 and K > 1:
            dJ, dK, fits = dJ[:-1], K - 1, False
        elif bad == 5:
            RA, fits = other(rng, R), False
        elif bad == 6:
            RF, fits = other(rng, R), False
        elif bad == 7:
            RC, fits = other(rng, R), False
        elif bad == 8:
            RA = RF = RC = Q = other(rng, R)
            fits = False
        elif bad == 9:
            dJ = dJ[::-1]
            fits = dJ == J
        elif bad == 10:
            dK, fits = K + 1, False
        elif bad == 11:
            # number of projection matrices only
            dJ, fits = dJ + [dJ[-1]], False
        elif bad == 12:
            Q, fits = other(rng, R), False
        X = [rng.standard_normal((I, j)) for j in J]
        P = [np.linalg.qr(rng.standard_normal((max(j, Q), Q)))[0][:j] for j in dJ]
        dec = Parafac2Tensor(rng.standard_normal((dI, RA)), rng.standard_normal((Q, RF)), rng.standard_normal((dK, RC)), P)
        its = pick(rng, (0, 1))
        if k == "pf2":
            m = Parafac2_ALS(R, max_its=its, init="precomputed", print_frequency=-1)
            decide("precomputed PARAFAC2 start", fits, lambda: m.fit(X, initial_decomposition=dec))
        else:
            if bad in (5, 6, 7, 12):
                raise Skip
            path = os.path.join(tmp, "c.h5")
            s = Parafac2_ALS(R, checkpoint_path=path)
            s.decomposition = dec
            s.store_checkpoint(3)
            m = Parafac2_ALS(R, max_its=its, init=pick(rng, ("from_checkpoint", path)), print_frequency=-1)
            decide("loaded PARAFAC2 start", fits, lambda: m.fit(X, initial_decomposition=path if m.init == "from_checkpoint" else None))
    elif k == "init":
        s = UNKNOWN[bad % len(UNKNOWN)]
        X = rng.standard_normal((3, 4, 2))
        cls = CP_ALS if n % 2 else Parafac2_ALS
        m = cls(2, max_its=1, init=s, print_frequency=-1)
        here = os.getcwd()
        os.chdir(tmp)
        try:
            decide(f"init={s!r}", False, lambda: m.fit(X))
            for v in ("random", "Random", "RANDOM", "svd", "SVD") + (() if n % 2 else ("cp", "CP")):
                m = cls(2, max_its=1, init=v, print_frequency=-1)
                decide(f"init={v!r}", True, lambda: m.fit(X))
        finally:
            os.chdir(here)
    elif k == "reduction":
        R = int(rng.integers(1, 4))
        fs = [rng.standard_normal((4, R)) for _ in range(max(n, 2))]
        gs = [rng.standard_normal((4, R)) for _ in range(max(n, 2))]
        s = ("max", "", "MIN", "Mean", "median", "sum", "min ", "avg", "none", "prod", "min", "mean")[opt % 12]
        fits = s in ("min", "mean")
        for wp in (True, False):
            decide(f"factor_match_score reduction {s!r}", fits, lambda: metrics.factor_match_score(fs, gs, weight_penalty=wp, fms_reduction=s))
            decide(f"KruskalTensor reduction {s!r}", fits, lambda: KruskalTensor(fs).factor_match_score(KruskalTensor(gs), weight_penalty=wp, fms_reduction=s))
        decide(f"mode-wise reduction {s!r}", fits, lambda: metrics.separate_mode_factor_match_score(fs, gs, fms_reduction=s))
        if fs:
            e = [EvolvingTensor(f[0], [f[1]] * 4, f[0] + 0) for f in (fs, gs)]
            decide(f"EvolvingTensor reduction {s!r}", fits, lambda: e[0].factor_match_score(e[1], fms_reduction=s))
    elif k == "svd":
        n = max(n, 2)
        shape = [int(rng.integers(2, 5)) for _ in range(n)]
        if 0 <= bad < n:
            shape[bad] = int(rng.integers(1, 3))
        R = max(1, min(shape) + int(rng.integers(-1, 2)) if opt < 8 else max(shape))
        X = rng.standard_normal(shape)
        decide("CP SVD initialisation", R <= min(shape), lambda: CP_ALS(R, max_its=1, init="svd").fit(X))
        if n == 3:
            d = min(shape[:2])
            decide("PARAFAC2 SVD initialisation", R <= d, lambda: Parafac2_ALS(R, max_its=1, init="svd", print_frequency=-1).fit(X))
            J = [shape[1] + int(j) for j in rng.integers(0, 3, 3)]
            J[opt % 3] = shape[1]
            Xs = [rng.standard_normal((shape[0], j)) for j in J]
            decide("PARAFAC2 SVD initialisation, ragged", R <= min(shape[0], *J), lambda: Parafac2_ALS(R, max_its=1, init="svd", print_frequency=-1).fit(Xs))
    elif k == "core":
        shape = [3 + int(rng.integers(0, 2)) for _ in range(n)]
        fs = [rng.standard_normal((d, 2)) for d in shape]
        decide(f"core consistency of order {n}", n == 3, lambda: KruskalTensor(fs).core_consistency(rng.standard_normal(shape), normalized=bool(opt % 2)))
    elif k == "wrongkind":
        path = os.path.join(tmp, "c.h5")
        X = rng.standard_normal((4, 5, 3))
        cp, pf = opt % 2, opt // 2 % 2
        s = (Parafac2_ALS if cp else CP_ALS)(2, max_its=2, checkpoint_path=path, print_frequency=-1)
        s.fit(X)
        m = (CP_ALS if cp else Parafac2_ALS)(2, max_its=1, init="from_checkpoint", print_frequency=-1)
        decide("checkpoint of another kind", False, lambda: m.fit(X, initial_decomposition=path))
        decide("missing checkpoint file", False, lambda: m.fit(X, initial_decomposition=os.path.join(tmp, "no.h5")))
        open(os.path.join(tmp, "x"), "w").close()
        decide("file that is not a checkpoint", False, lambda: m.fit(X, initial_decomposition=os.path.join(tmp, "x")))
