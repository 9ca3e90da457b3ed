import numpy as np
from tenkit.decomposition.cmtf import CMTF_ALS
from tenkit.decomposition.decompositions import KruskalTensor
from .common import *
from .c05 import design, unfold

HOW = ["free", "nonneg", "orth"]


def fixed(tier):
    out = []
    for dims in ([5, 4, 3], [5, 4], [4, 3, 5, 3]):
        n = len(dims)
        for modes in ([], [0], [1], [n - 1], [0, 0], [1, 0, 1], [n - 1, 0]):
            for ridge in (None, [0.5, 2.0, 0.1, 1.0][:n]):
                for how in (["free"] * n, ["nonneg"] * n, ["free", "nonneg", "free", "free"][:n], ["nonneg"] * (n - 1) + ["orth"]):
                    out.append(dict(kind="cmtf", dims=dims, R=2, modes=modes, qs=[4, 3, 6][:len(modes)], how=how, ridge=ridge, its=[2, 1], lists=any(h != "free" for h in how) or n < 3))
    return out


def random_case(rng, tier):
    n = pick(rng, [2, 3, 3, 4, 5])
    dims = [size(rng, 2, 6) for _ in range(n)]
    R = size(rng, 1, min(3, min(dims)))
    modes = [int(rng.integers(0, n)) for _ in range(size(rng, 0, 4))]
    how = [pick(rng, HOW) for _ in range(n)] if rng.random() < 0.6 else ["free"] * n
    return dict(kind="cmtf", dims=dims, R=R, modes=modes, qs=[size(rng, 2, 6) for _ in modes], how=how, ridge=pick(rng, [None, None, [float(rng.choice([0, 0.01, 0.5, 3.0])) for _ in range(n)]]),
                its=[int(rng.integers(0, 4)) for _ in range(int(rng.integers(1, 4)))], lists=bool(rng.random() < 0.7 or any(h != "free" for h in how)))


def parts(X, Ys, modes, fs, w, vs):
    return float(np.sum((X - kruskal(fs, w)) ** 2)), sum(float(np.sum((Y - fs[k] @ v.T) ** 2)) for Y, k, v in zip(Ys, modes, vs))


def close(a, b, s, what):
    assert abs(float(a) - float(b)) <= 1e-8 * (s + abs(float(b))), (what, float(a), float(b))


def check(c):
    rng = rng_of(c)
    dims, R, how, ridge, modes = c["dims"], c["R"], c["how"], c["ridge"], c["modes"]
    n = len(dims)
    if any(d < R for d in dims) or len(how) != n or max(np.prod(dims) // d for d in dims) > 2000:
        raise Skip
    true = [rng.uniform(0.2, 1, (d, R)) for d in dims]
    X = kruskal(true) + 0.5 * rng.standard_normal(dims)
    Ys = [true[k] @ rng.uniform(0.2, 1, (R, q)) + 0.5 * rng.standard_normal((dims[k], q)) for k, q in zip(modes, c["qs"])]
    given = [X.copy()] + [Y.copy() for Y in Ys]
    scale = sum(float(np.sum(g ** 2)) for g in given)
    con = dict(non_negativity_constraints=[h == "nonneg" for h in how], orthonormality_constraints=[h == "orth" for h in how]) if c["lists"] else {}
    m = CMTF_ALS(R, max_its=0, convergence_tol=0, rel_loss_tol=0, init="precomputed", ridge_penalties=None if ridge is None else list(ridge), **con)
    np.random.seed(int(rng.integers(0, 2**31)))
    start = KruskalTensor([rng.uniform(0.2, 1, (d, R)) for d in dims], rng.uniform(0.5, 2, R))
    m.fit(X, coupled_matrices=Ys, coupling_modes=list(modes), initial_decomposition=start)
    state = lambda: ([np.array(f) for f in m.factor_matrices], np.array(m.weights), [np.array(v) for v in m.uncoupled_factor_matrices])
    pen = lambda fs: sum(r * float(np.sum(f ** 2)) for r, f in zip(ridge, fs)) if ridge else 0.0
    steps, trail = [], []
    if hasattr(m, "_update_als_factor"):
        real = m._update_als_factor

        def spy(mode):
            b = state()
            real(mode)
            steps.append((mode, b, state()))
        m._update_als_factor = spy
    if hasattr(m, "_update_uncoupled_matrix_factors"):
        realu = m._update_uncoupled_matrix_factors

        def spyu():
            b = state()
            realu()
            steps.append((None, b, state()))
        m._update_uncoupled_matrix_factors = spyu
    if hasattr(m, "_update_als_factors"):
        reala = m._update_als_factors

        def spya():
            trail.append((state(), None))
            reala()
            trail[-1] = (trail[-1][0], state())
        m._update_als_factors = spya
    figures(m, X, Ys, modes, ridge, scale, pen)
    total = 0
    for its in c["its"]:
        before = state()
        k = len(trail)
        total += its
        m.continue_fit(max_its=total)
        fs, w, vs = state()
        last = trail[-1][1] if len(trail) > k else before
        present = np.all([np.linalg.norm(f, axis=0) > 1e-6 for f in last[0]], axis=0) & (np.abs(last[1]) > 1e-6)
        if not np.all(present):
            return                  # a component has vanished: rounding errors decide
        figures(m, X, Ys, modes, ridge, scale, pen)
        for f in fs:
            nn = np.linalg.norm(f, axis=0)
            assert np.all(abs(nn - 1) < 1e-6), ("unit length", nn)
        if min(float(np.min(np.linalg.norm(f, axis=0))) for f in last[0]) > 1e-8 and np.all(np.abs(last[1]) > 1e-8):
            assert np.allclose(kruskal(fs, w), kruskal(last[0], last[1]), atol=1e-8 * (1 + scale)), "the final normalisation changes the tensor"
            for i, md in enumerate(modes):
                assert np.allclose(fs[md] @ vs[i].T, last[0][md] @ last[2][i].T, atol=1e-8 * (1 + scale)), ("the final normalisation changes a coupled matrix", i)
            if len(trail) > k:
                first = trail[k][0]
                if np.all(np.abs(before[1]) > 1e-8) and min(float(np.min(np.linalg.norm(f, axis=0))) for f in before[0]) > 1e-8:
                    assert np.allclose(kruskal(first[0], first[1]), kruskal(before[0], before[1]), atol=1e-8 * (1 + scale)), "continuing changes the tensor first"
                    for i, md in enumerate(modes):
                        assert np.allclose(first[0][md] @ first[2][i].T, before[0][md] @ before[2][i].T, atol=1e-8 * (1 + scale)), ("continuing changes a coupled matrix first", i)
        for b, a in trail[k:]:
            if not conditioned(X, Ys, modes, b, how) or not conditioned(X, Ys, modes, a, how) or any(h == "orth" and not np.allclose(f.T @ f, np.eye(R), atol=1e-8) for h, f in zip(how, b[0])):
                continue
            lb, la = sum(parts(X, Ys, modes, b[0], b[1], b[2])) + pen(b[0]), sum(parts(X, Ys, modes, a[0], a[1], a[2])) + pen(a[0])
            assert la <= lb + 1e-9 * (scale + lb), ("the joint loss increased", lb, la)
    for mode, b, a in steps:
        judge(X, Ys, modes, mode, b, a, how, ridge, scale)
    for g, o in zip(given, [X] + Ys):
        assert np.array_equal(g, o), "the data was modified"


def figures(m, X, Ys, modes, ridge, scale, pen):
    fs, w, vs = [np.array(f) for f in m.factor_matrices], np.array(m.weights), [np.array(v) for v in m.uncoupled_factor_matrices]
    s = sum(parts(X, Ys, modes, fs, w, vs))
    N = X.size + sum(Y.size for Y in Ys)
    close(m.SSE, s, scale, "SSE")
    close(m.MSE, s / N, scale / N, "MSE")
    close(m.RMSE, np.sqrt(s / N), np.sqrt(scale / N), "RMSE")
    close(m.loss, s + pen(fs), scale, "loss")
    assert len(m.reconstructed_coupled_matrices) == len(Ys)
    for Y, k, v in zip(m.reconstructed_coupled_matrices, modes, vs):
        assert np.allclose(Y, fs[k] @ v.T)


def blocks(X, Ys, modes, b, mode):
    Z = [design(b[0], mode)] + [b[2][i] for i, k in enumerate(modes) if k == mode]
    Y = [unfold(X, mode)] + [Ys[i] for i, k in enumerate(modes) if k == mode]
    return np.concatenate(Z, axis=0), np.concatenate(Y, axis=1)


def good(Z):
    s = np.linalg.svd(Z, compute_uv=False)
    return len(s) >= Z.shape[1] and s[-1] > 1e-4 * s[0] and s[0] > 1e-6


def conditioned(X, Ys, modes, b, how):
    for k in range(len(b[0])):
        Z, Y = blocks(X, Ys, modes, b, k)
        if not good(Z) or k in modes and not good(b[0][k]):
            return False
        if how[k] == "orth":
            s = np.linalg.svd(Y @ Z, compute_uv=False)
            if s[-1] < 1e-6 * s[0]:
                return False
    return True


def minimiser(Z, Y, F, how, lam, scale, what):
    if not good(Z):
        return
    f = lambda F: float(np.sum((Y - F @ Z.T) ** 2) + lam * np.sum(F ** 2))
    G, M = Z.T @ Z + lam * np.eye(F.shape[1]), Y @ Z
    if how == "nonneg":
        assert np.all(F >= 0), ("negative entries", what)
        g = F @ G - M
        tol = 1e-7 * (np.abs(M).max() + np.abs(G).max() + 1)
        assert np.all(g >= -tol) and np.all(np.abs(g[F > 1e-9]) <= tol), ("not a minimiser over the non-negative matrices", what)
        return
    if how == "orth":
        U, S, Vh = np.linalg.svd(M, full_matrices=False)
        if S[-1] < 1e-8 * S[0]:
            return
        best = U @ Vh
        assert np.allclose(F.T @ F, np.eye(F.shape[1]), atol=1e-8), ("not orthonormal", what)
    else:
        best = np.linalg.solve(G, M.T).T
    assert f(F) <= f(best) + 1e-9 * (scale + f(best)), ("not a minimiser of the joint loss", what, f(F), f(best))


def judge(X, Ys, modes, mode, b, a, how, ridge, scale):
    for k in range(len(b[0])):
        if k != mode:
            assert np.array_equal(a[0][k], b[0][k]), ("an update changed another mode", mode, k)
    if mode is None:
        for i, k in enumerate(modes):
            minimiser(a[0][k], Ys[i].T, a[2][i], "nonneg" if how[k] == "nonneg" else "free", 0.0, scale, ("matrix", i))
        return
    for i in range(len(modes)):
        assert np.array_equal(a[2][i], b[2][i]), ("an update changed an uncoupled factor", mode, i)
    Z, Y = blocks(X, Ys, modes, b, mode)
    minimiser(Z, Y, a[0][mode], how[mode], ridge[mode] if ridge else 0.0, scale, ("mode", mode))
