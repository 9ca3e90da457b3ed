import numpy as np
from tenkit.decomposition.cp import CP_ALS
from tenkit.decomposition.decompositions import KruskalTensor
from .common import *

HOW = ["free", "nonneg", "orth"]


def fixed(tier):
    out = []
    for dims in ([5, 4], [5, 4, 3], [3, 4, 2, 5], [3, 2, 4, 2, 3], [2, 3, 2, 2, 3, 2]):
        n = len(dims)
        for ridge in (None, [0.0] * n, [0.5, 2.0, 0.1, 1.0, 0.7, 1.5][:n]):
            out.append(dict(kind="cp", dims=dims, R=2, how=["free"] * n, ridge=ridge, weights=False, renorm=False, its=4))
            out.append(dict(kind="cp", dims=dims, R=2, how=["nonneg"] * n, ridge=ridge, weights=True, renorm=True, its=4))
            for k in range(n):
                out.append(dict(kind="cp", dims=dims, R=2, how=["orth" if j == k else "free" for j in range(n)], ridge=ridge, weights=False, renorm=False, its=3))
                out.append(dict(kind="cp", dims=dims, R=2, how=["orth" if j == k else "nonneg" for j in range(n)], ridge=ridge, weights=True, renorm=False, its=3))
        out.append(dict(kind="cp", dims=dims, R=2, how=["free"] * n, ridge=None, weights=True, renorm=True, its=4))
        for kinds in (["data"], ["start"], ["data", "start"]):
            for h in ("free", "nonneg"):
                for ridge in (None, [0.5, 2.0, 0.1, 1.0, 0.7, 1.5][:n]):
                    out.append(dict(kind="cp", dims=dims, R=2, how=[h] * n, ridge=ridge, weights=ridge is None, renorm=False, its=3, int=kinds))
        for k in range(n):
            out.append(dict(kind="cp", dims=[1 if j == k else d for j, d in enumerate(dims)], R=2, how=["free"] * n, ridge=None, weights=True, renorm=False, its=2))
    return out


def random_case(rng, tier):
    n = pick(rng, [2, 3, 3, 4, 5, 6])
    dims = [1 if rng.random() < 0.15 else size(rng, 2, 6 if n < 5 else 3, 0.08 if n < 5 else 0) for _ in range(n)]
    R = int(rng.integers(1, 4))
    how = ["free"] * n if rng.random() < 0.3 else [pick(rng, HOW) if d >= R else pick(rng, HOW[:2]) for d in dims]
    return dict(kind="cp", dims=dims, R=R, how=how, ridge=pick(rng, [None, None, [float(rng.choice([0, 0.01, 0.5, 3.0])) for _ in range(n)]]), int=pick(rng, [[], [], [], ["data"], ["start"]]), weights=bool(rng.random() < 0.3),
                renorm=bool(rng.random() < 0.3), its=int(rng.integers(1, 5)))


def loss(X, fs, w, ridge):
    l = float(np.sum((X - kruskal(fs, w)) ** 2))
    return l + (sum(r * float(np.sum(f ** 2)) for r, f in zip(ridge, fs)) if ridge else 0.0)


def check(c):
    rng = rng_of(c)
    dims, R, how, ridge = c["dims"], c["R"], c["how"], c["ridge"]
    n = len(dims)
    if any(d < R and h == "orth" for d, h in zip(dims, how)) or len(how) != n or max(np.prod(dims) // d for d in dims) > 2000:
        raise Skip
    X = kruskal([rng.uniform(0.2, 1, (d, R)) for d in dims]) + 0.5 * rng.standard_normal(dims)
    start = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    kinds = c.get("int", [])
    if "data" in kinds:
        X = np.round(20 * X).astype(int)
    if "start" in kinds:
        start = [np.round(10 * s).astype(int) for s in start]
    w = rng.uniform(0.5, 2, R) if c["weights"] else np.ones(R)
    m = CP_ALS(R, max_its=0, convergence_tol=0, rel_loss_tol=0, init="precomputed", ridge_penalties=None if ridge is None else list(ridge),
               non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how])
    m.fit(X, initial_decomposition=KruskalTensor([s.copy() for s in start], w.copy()))
    steps = []
    if hasattr(m, "_update_als_factor"):
        real = m._update_als_factor

        def spy(mode):
            before = [np.array(f) for f in m.factor_matrices]
            real(mode)
            steps.append((mode, before, [np.array(f) for f in m.factor_matrices]))
        m._update_als_factor = spy
    nX = float(np.sum(X ** 2))
    # (the weights are moved to the first mode before the first update)
    feasible = lambda: (how[0] != "orth" or np.allclose(m.weights, 1)) and all(h != "orth" or np.allclose(f.T @ f, np.eye(R), atol=1e-8) for h, f in zip(how, m.factor_matrices))
    for it in range(c["its"]):
        if c["renorm"] and it:
            m.decomposition.normalize_components()
        before = loss(X, m.factor_matrices, m.weights, ridge) if feasible() and not (c["renorm"] and ridge) else None
        # normalising changes the penalty, so the penalised loss is compared from the factors the updates start from
        m.continue_fit(max_its=it + 1)
        after = loss(X, m.factor_matrices, m.weights, ridge)
        assert np.all(m.weights == 1), "weights"
        if well(X, m.factor_matrices, how, ridge):
            if before is not None:
                assert after <= before + 1e-9 * nX, ("the loss increased", it, before, after)
            assert abs(float(m.loss) - after) <= 1e-8 * (nX + after), ("reported loss", float(m.loss), after)
    for mode, b, a in steps:
        judge(X, mode, b, a, how[mode], 0.0 if ridge is None else ridge[mode], nX)


def design(fs, mode):
    o = [f for k, f in enumerate(fs) if k != mode]
    Z = o[0]
    for f in o[1:]:
        Z = np.einsum("ir,jr->ijr", Z, f).reshape(-1, f.shape[1])
    return Z


def well(X, fs, how, ridge):
    for k in range(len(fs)):
        s = np.linalg.svd(design(fs, k), compute_uv=False)
        if s[-1] < 1e-3 * s[0] or s[0] < 1e-4:
            return False
        if how[k] == "orth":
            s = np.linalg.svd(unfold(X, k) @ design(fs, k), compute_uv=False)
            if s[-1] < 1e-6 * s[0]:
                return False
    return True


def judge(X, mode, b, a, how, lam, nX):
    for k in range(len(b)):
        if k != mode:
            assert np.array_equal(a[k], b[k]), ("an update changed another mode", mode, k)
    Z, Y, F = design(b, mode), unfold(X, mode), a[mode]
    s = np.linalg.svd(Z, compute_uv=False)
    if len(s) < F.shape[1] or s[-1] < 1e-4 * s[0] or s[0] < 1e-6:
        return                      # (almost) singular subproblem
    f = lambda F: float(np.sum((Y - F @ Z.T) ** 2) + lam * np.sum(F ** 2))
    G, M = Z.T @ Z + lam * np.eye(F.shape[1]), Y @ Z
    if how == "free":
        best = np.linalg.solve(G, M.T).T
        assert f(F) <= f(best) + 1e-9 * (nX + f(best)), ("not a minimiser", mode, f(F), f(best))
    elif how == "nonneg":
        assert np.all(F >= 0), ("negative entries", mode)
        g = F @ G - M               # KKT: g >= 0 where F == 0, g == 0 elsewhere
        tol = 1e-7 * (np.abs(M).max() + np.abs(G).max() + 1)
        assert np.all(g >= -tol) and np.all(np.abs(g[F > 1e-9]) <= tol), ("not a minimiser over the non-negative matrices", mode)
    else:
        U, S, Vh = np.linalg.svd(M, full_matrices=False)
        if S[-1] < 1e-8 * S[0]:
            return
        best = U @ Vh
        assert np.allclose(F.T @ F, np.eye(F.shape[1]), atol=1e-8), ("not orthonormal", mode)
        assert f(F) <= f(best) + 1e-9 * (nX + f(best)), ("not a minimiser over the orthonormal matrices", mode, f(F), f(best))
