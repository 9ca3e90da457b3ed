import warnings
import numpy as np
from tenkit.decomposition.parafac2 import Parafac2_ALS
from tenkit.decomposition.decompositions import Parafac2Tensor
from .common import *
from .c05 import well

HOW = ["free", "nonneg", "orth"]


def fixed(tier):
    out = []
    for Js in ([5, 5, 5], [4, 6, 5], [3, 7]):
        for ridge in (None, [0.5, 2.0, 0.1]):
            for how in (["free"] * 3, ["nonneg"] * 3, ["orth", "free", "free"], ["free", "orth", "nonneg"], ["nonneg", "free", "nonneg"]):
                out.append(dict(kind="pf2", I=5, Js=Js, R=2, how=how, ridge=ridge, its=3, inner=2, init="precomputed", cont=0, lists=how[0] != "free" or how[1] != "free"))
        for kinds in (["data"], ["start"]):
            for how in (["free"] * 3, ["nonneg", "free", "nonneg"]):
                out.append(dict(kind="pf2", I=5, Js=Js, R=2, how=how, ridge=None, its=3, inner=2, init="precomputed", cont=0, lists=True, int=kinds))
        for init in ("random", "svd", "cp"):
            if init != "cp" or len(set(Js)) == 1:
                out.append(dict(kind="pf2", I=5, Js=Js, R=2, how=["free"] * 3, ridge=None, its=3, inner=5, init=init, cont=2, lists=False))
    return out


def random_case(rng, tier):
    K = size(rng, 2, 5)
    R = int(rng.integers(1, 4))
    J = int(rng.integers(R, 8))
    Js = [J] * K if rng.random() < 0.5 else [int(rng.integers(R, 8)) for _ in range(K)]
    how = [pick(rng, HOW) for _ in range(3)] if rng.random() < 0.6 else ["free"] * 3
    init = pick(rng, ["precomputed", "precomputed", "random", "svd"] + (["cp"] if len(set(Js)) == 1 else []))
    return dict(kind="pf2", I=int(rng.integers(R, 8)), Js=Js, R=R, how=how, ridge=pick(rng, [None, None, [float(rng.choice([0, 0.01, 0.5, 3.0])) for _ in range(3)]]),
                int=pick(rng, [[], [], [], ["data"], ["start"]]), its=int(rng.integers(1, 5)), inner=int(rng.integers(1, 4)), init=init, cont=int(rng.integers(0, 3)), lists=True)


def ortho(P):
    return np.allclose(P.T @ P, np.eye(P.shape[1]), atol=1e-8)


def check(c):
    rng = rng_of(c)
    I, Js, R, how, ridge = c["I"], c["Js"], c["R"], c["how"], c["ridge"]
    K = len(Js)
    if I < R or min(Js) < R or how[2] == "orth" and K < R or len(how) != 3 or K < 1:
        raise Skip
    if c["init"] == "cp" and len(set(Js)) > 1:
        raise Skip
    q = lambda J: np.linalg.qr(rng.standard_normal((J, R)))[0]
    A, B, C, Ps = rng.uniform(0.2, 1, (I, R)), rng.uniform(0.2, 1, (R, R)) + np.eye(R), rng.uniform(0.3, 1, (K, R)), [q(J) for J in Js]
    Xs = [(A * C[k]) @ (Ps[k] @ B).T + 0.3 * rng.standard_normal((I, Js[k])) for k in range(K)]
    X = np.stack(Xs, axis=2) if len(set(Js)) == 1 else [x.copy() for x in Xs]
    kinds = c.get("int", [])
    if "data" in kinds:
        Xs = [np.round(20 * x).astype(int) for x in Xs]
        X = np.stack(Xs, axis=2) if len(set(Js)) == 1 else [x.copy() for x in Xs]
    n2 = sum(float(np.sum(x ** 2)) for x in Xs)
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how]) if c["lists"] else {}
    warnings.simplefilter("ignore")
    np.random.seed(int(rng.integers(0, 2**31)))
    m = Parafac2_ALS(R, max_its=0, convergence_tol=0, init=c["init"], print_frequency=-1, cp_updates_per_it=c["inner"], ridge_penalties=None if ridge is None else list(ridge), **con)
    first = lambda sh: np.round(10 * rng.uniform(0.2, 1, sh)).astype(int) if "start" in kinds else rng.uniform(0.2, 1, sh)
    give = dict(initial_decomposition=Parafac2Tensor(first((I, R)), first((R, R)), first((K, R)), [q(J) for J in Js])) if c["init"] == "precomputed" else {}
    m.fit(X, **give)
    now = lambda: [np.array(m.decomposition.A), np.array(m.decomposition.blueprint_B), np.array(m.decomposition.C), [np.array(P) for P in m.decomposition.projection_matrices]]
    pen = lambda s: sum(r * float(np.sum(f ** 2)) for r, f in zip(ridge, s[:3])) if ridge else 0.0

    def loss(s):
        return sum(float(np.sum((Xs[k] - (s[0] * s[2][k]) @ (s[3][k] @ s[1]).T) ** 2)) for k in range(K)) + pen(s)

    def full(s):
        """the projection problems have full rank"""
        for k in range(K):
            sv = np.linalg.svd(Xs[k].T @ ((s[0] * s[2][k]) @ s[1].T), compute_uv=False)
            if len(sv) < R or sv[-1] < 1e-5 * sv[0] or sv[0] < 1e-8:
                return False
        return True
    feasible = lambda s: all(h != "orth" or np.allclose(f.T @ f, np.eye(R), atol=1e-8) for h, f in zip(how, s)) and all(ortho(P) for P in s[3]) \
        and all(h != "nonneg" or np.all(f >= 0) for h, f in zip(how, s))
    mids = []
    if hasattr(m, "_update_projection_matrices"):
        real = m._update_projection_matrices

        def spy():
            b = now()
            real()
            mids.append((b, now()))
        m._update_projection_matrices = spy
    total = 0
    for its in [1] * c["its"] + [c["cont"]]:
        if not its:
            continue
        b = now()
        ok = full(b)
        k = len(mids)
        total += its
        m.continue_fit(max_its=total)
        a = now()
        if not all(full(x[0]) for x in mids[k:]) or not ok:
            return
        for kk, P in enumerate(a[3]):
            assert ortho(P), ("projection matrix is not orthonormal", kk)
        Bs = [np.array(Bk) for Bk in m.decomposition.B]
        for kk, Bk in enumerate(Bs):
            assert np.allclose(Bk, a[3][kk] @ a[1], atol=1e-8 * (1 + np.abs(a[1]).max())), ("evolving factor", kk)
            assert np.allclose(Bk.T @ Bk, Bs[0].T @ Bs[0], atol=1e-8 * (1 + np.sum(a[1] ** 2))), ("B_k^T B_k differs", kk)
        for pb, pa in mids[k:]:
            for j in range(3):
                assert np.array_equal(pb[j], pa[j]), ("updating the projections changes a factor", j)
            for kk in range(K):
                M = (pb[0] * pb[2][kk]) @ pb[1].T
                U, s, Vh = np.linalg.svd(Xs[kk].T @ M, full_matrices=False)
                f = lambda P: float(np.sum((Xs[kk] - M @ P.T) ** 2))
                assert f(pa[3][kk]) <= f(U @ Vh) + 1e-9 * (n2 + f(U @ Vh)), ("projection is not optimal", kk)
        if not feasible(b):
            continue
        Y = np.stack([Xs[kk] @ a[3][kk] for kk in range(K)], axis=2)
        if its == 1 and (well(Y, a[:3], how, ridge) and well(Y, b[:3], how, ridge)):
            assert loss(a) <= loss(b) + 1e-8 * (n2 + loss(b)), ("the loss increased", loss(b), loss(a))
            assert abs(float(m.loss) - loss(a)) <= 1e-8 * (n2 + loss(a)), ("reported loss", float(m.loss), loss(a))
            stationary(Y, a, how, ridge, n2)


def stationary(Y, s, how, ridge, n2):
    """The factor updated last (the C mode, after A and the blueprint) minimises the projected problem."""
    from .c05 import judge
    judge(Y, 2, s[:3], s[:3], how[2], 0.0 if ridge is None else ridge[2], n2)
