"""Snippets for numcheck.py: 'parameters: expression' or 'parameters:\n    statements'."""
SNIPPETS = [
    # arithmetic and broadcasting
    "A, C: A + C", "A, C: A - 2*C", "A, C: A * C", "A, w: A * w", "A, v: A * v[:, np.newaxis]", "A, v: v[:, None] + A", "A, x: A * x + 1",
    "A, x: -A / (x*x + 1)", "A: A ** 2", "A: 2 ** 3 * A", "Z: Z // 2", "Z: Z % 3", "Z: Z / 2", "Z, A: Z * A", "Z: Z * 1.5", "Z: Z + 1", "Z: -Z",
    "A: abs(A)", "A: +A", "A, C: A @ C.T", "A, B: A @ B", "A, w: A @ w", "v, A: v @ A", "v, u: v @ u", "A, C: A @ C", "A, B: A + B", "v, w: v + w",
    "A, C: A > C", "A, C: A <= C", "A: A == 0", "A: A != 0", "A: (A > 0) & (A < 1)", "A: (A > 0) | (A < -1)", "A: ~(A > 0)", "A: (A > 0) * 1",
    "A: (A > 0) + 0.5", "T, w: T * w[:, None]", "T, A: T * A[:, :, None]", "T, v: T + v", "v, w: v[:, None] * w[None, :]", "T, B: T * B", "T, B: T @ B.T",
    "T, D: T @ D", "H, B: H.sum(axis=(0, 3)) - B",
    # reductions
    "A: A.sum()", "A: A.sum(axis=0)", "A: A.sum(0, keepdims=True)", "A: A.sum(axis=-1)", "A: np.sum(A, axis=1, keepdims=True)", "T: T.sum(axis=(0, 2))",
    "T: np.sum(T, (1, 2), keepdims=True)", "A: A.mean()", "A: np.mean(A, axis=0)", "A: np.mean(A, 1, keepdims=True)", "A: A.var()", "A: np.var(A, axis=0)",
    "A: np.prod(A, axis=0)", "A: A.prod()", "A: A.max()", "A: np.min(A)", "A: np.max(A, axis=0)", "A: A.min(axis=1)", "A: np.argmax(A)", "A: np.argmin(A, axis=0)",
    "v: v.argmax()", "v: np.argmin(np.abs(v))", "A: np.cumsum(A, axis=0)", "A: np.cumsum(A)", "A: np.any(A > 0)", "A: np.all(A > 0)", "A: (A > 0).any(axis=0)",
    "A: np.all(A > -1, axis=1)", "A: np.count_nonzero(A)", "Z: Z.sum()", "Z: Z.mean()", "Z: np.prod(Z, axis=1)", "A: (A > 0).sum()", "A: (A > 0).mean()",
    "A: np.sum(A > 0, axis=0)", "A: A.sum(axis=2)", "Z: Z.max(axis=0)", "A: A.max(axis=1, keepdims=True)", "T: T.sum(-1).sum(-1)",
    # linear algebra without decompositions
    "A: np.linalg.norm(A)", "A: np.linalg.norm(A, axis=0)", "A: np.linalg.norm(A, axis=1, keepdims=True)", "A: np.linalg.norm(A, 'fro')", "v: np.linalg.norm(v, 1)",
    "T: np.linalg.norm(T)", "v: np.linalg.norm(v)", "v: np.linalg.norm(v, np.inf)", "A: np.linalg.norm(A, 1, axis=0)", "T: np.linalg.norm(T, 'fro')", "A: np.linalg.norm(A, axis=(0, 1))",
    "A, B, D: np.linalg.multi_dot([A, B, D])", "S: np.linalg.matrix_power(S, 2)", "S: np.trace(S)", "A: np.trace(A)", "A: np.diag(A)", "v: np.diag(v)", "A: np.diagonal(A)",
    "A: np.triu(A)", "A: np.tril(A)", "A: np.triu(A, 1)", "A: np.tril(A, -1)", "A, B: np.dot(A, B)", "A, w: np.dot(A, w)", "v, u: np.dot(v, u)", "v, u: np.inner(v, u)",
    "A, C: np.inner(A, C)", "v, w: np.outer(v, w)", "A, B: np.outer(A, B)", "A, B: np.kron(A, B)", "v, w: np.kron(v, w)", "A, C: np.vdot(A, C)", "A, B: np.matmul(A, B)",
    "T, A: np.tensordot(T, A, axes=([0], [0]))", "T, U: np.tensordot(T, U, axes=3)", "A, B: np.tensordot(A, B, axes=1)", "T, U: np.tensordot(T, U, axes=([0, 1], [0, 1]))",
    "T, A, B: np.tensordot(A, np.tensordot(T, B, axes=([2], [1])), axes=([1], [1]))", "A, v: np.tensordot(v, A, (0, 0))",
    "A, B: np.einsum('ij,jk->ik', A, B)", "A, B: np.einsum('ij,jk', A, B)", "T, A: np.einsum('ijk,ij->k', T, A)", "A, C: np.einsum('ir,jr->ijr', A, C)", "S: np.einsum('ii->i', S)",
    "S: np.einsum('ii', S)", "T: np.einsum('ijk->kji', T)", "A, B, D: np.einsum('ij,jk,kr->ir', A, B, D)", "T, w: np.einsum('ijk,j->ik', T, w)", "A: np.einsum('ij->', A)", "A: np.einsum('ij->j', A)",
    "A, B: np.einsum('ij,ik->jk', A, B)", "v, w: np.einsum('i,i->i', v, w)", "A, w: np.einsum('...j,j->...', A, w)", "T, w: np.einsum('i...,i->...', T, w)",
    # shapes
    "A: A.T", "T: T.T", "T: np.transpose(T, (2, 0, 1))", "T: T.transpose(1, 0, 2)", "T: T.transpose([2, 1, 0])", "T: np.moveaxis(T, 1, 0)", "T: np.moveaxis(T, -1, 0)", "T: np.moveaxis(T, 0, 2)",
    "T: np.swapaxes(T, 0, 2)", "T: T.swapaxes(1, 2)", "T: T.reshape(T.shape[0], -1)", "T: np.reshape(T, (-1, T.shape[2]))", "A: A.reshape(-1)", "A: A.ravel()", "A: A.flatten()",
    "T: T.reshape(T.shape[0]*T.shape[1], T.shape[2])", "T: np.moveaxis(T, 1, 0).reshape(T.shape[1], -1)", "A: A.reshape(A.shape[1], A.shape[0])", "A: A.reshape(1, *A.shape)", "A: A[None]",
    "T: np.moveaxis(T, 2, 0).reshape((T.shape[2], -1))", "A: A.reshape(A.shape + (1,))", "T: T.reshape((T.shape[0], T.shape[2], T.shape[1]))",
    "A: np.expand_dims(A, 0)", "A: np.expand_dims(A, -1)", "v: v[:, np.newaxis].squeeze(1)", "A: A[:, :1].squeeze()", "A: np.atleast_2d(A)", "v: np.atleast_2d(v)", "x: np.atleast_1d(x)",
    "v: np.broadcast_to(v, (3, v.shape[0]))", "A: np.tile(A, (2, 1))", "v: np.tile(v, 3)", "v: np.repeat(v, 2)", "A: np.repeat(A, 2, axis=1)", "A: np.repeat(A, A.shape[1], axis=0)", "v: np.flip(v)",
    "A: np.flip(A, 0)", "A: A[::-1]", "A: A[:, ::-1]", "A: A.shape", "T: T.ndim", "A: A.size", "A: len(A)", "A: np.shape(A)", "A: np.size(A)", "A: np.ndim(A)", "A: A.dtype == float",
    "A: np.flip(A)", "T: np.flip(T, axis=(0, 1))", "T, A: T.reshape(A.shape)", "T: np.transpose(T)", "T: np.transpose(T, (0, 1))", "T: np.moveaxis(T, (0, 1), (1, 2))", "A, k: np.moveaxis(A, 2, 0)",
    # construction
    "A: np.zeros(A.shape)", "A: np.ones(A.shape[0])", "A: np.zeros_like(A)", "Z: np.zeros_like(Z)", "Z: np.ones_like(Z, dtype=float)", "A: np.eye(A.shape[0])", "A: np.eye(A.shape[0], A.shape[1])", "A: np.identity(A.shape[1])",
    "A: np.full(A.shape, 3)", "A: np.full(A.shape, 2.5)", "A: np.arange(A.shape[0])", "A: np.arange(1, A.shape[0] + 1)", "A: np.arange(0, 10, 3)", "v: np.array([v, 2*v])", "v, u: np.stack([v, u])",
    "v, u: np.stack([v, u], axis=1)", "A, C: np.stack((A, C), axis=-1)", "A, C: np.concatenate([A, C])", "A, C: np.concatenate((A, C), axis=1)", "A, C: np.vstack([A, C])", "A, C: np.hstack([A, C])", "v, u: np.hstack((v, u))",
    "v, u: np.vstack([v, u])", "v, u: np.column_stack([v, u])", "A, v: np.column_stack([A, v])", "A, B: np.concatenate([A, B])", "A: np.array(A)", "A: np.asarray([[1, 2], [3, 4]])", "v: np.array([1, 2.5])", "v: np.array([row for row in v])",
    "T: np.array([t.sum() for t in T])", "T: np.stack([t for t in T])", "T: np.concatenate([t for t in T])", "T: np.concatenate([t for t in T], axis=1)", "A: np.empty(A.shape).shape", "A: np.copy(A)", "A: A.copy()", "A: A.astype(int)",
    "Z: Z.astype(float)", "A: (A > 0).astype(float)", "A: (A > 0).astype(int)", "Z: Z.astype(bool)", "A: np.array(A, dtype=int)", "x: float(x)", "A: A[0, 0].item()", "v: v.tolist()", "A: np.concatenate([A, A, A], axis=0)", "A: np.concatenate([A, 0*A], axis=None)",
    # ufuncs
    "A: np.sqrt(A*A)", "A: np.sqrt(A**2 + 1)", "A: np.abs(A)", "A: np.sign(A)", "A: np.square(A)", "A: np.exp(A)", "A: np.log(A*A + 1)", "A, C: np.maximum(A, C)", "A: np.maximum(A, 0)", "A, C: np.minimum(A, C)", "A: np.negative(A)",
    "A: np.clip(A, 0, 1)", "A: np.clip(A, 0, None)", "A, C: np.where(A > 0, A, C)", "A: np.where(A > 0, 1, 0)", "A: np.where(A > 0, 1.0, -1)", "A, C: np.add(A, C)", "A, C: np.subtract(A, C)", "A, C: np.multiply(A, C)", "A: np.divide(A, 2)", "A: np.power(A, 2)", "A: np.power(A, 3)",
    "A: np.isnan(A)", "A: np.isfinite(A)", "A: np.isfinite(A).all()", "A, C: np.logical_and(A > 0, C > 0)", "A, C: np.logical_or(A > 0, C > 0)", "A: np.logical_not(A > 0)", "A, C: np.equal(A, C)", "A, C: np.greater(A, C)", "A, C: np.less_equal(A, C)", "A: A.clip(0)",
    "A, C: np.array_equal(A, C)", "A: np.array_equal(A, A)", "A, B: np.array_equal(A, B)", "Z: np.sqrt(Z*Z)", "Z: np.maximum(Z, 0)", "Z: np.sign(Z)", "Z: abs(Z)", "A: A.clip(-1, 1)", "A: np.fabs(A)", "Z: np.abs(Z)", "Z, A: np.where(Z > 0, Z, A)", "Z: Z ** 2", "Z: np.power(Z, 2)", "Z: Z * True",
    # indexing
    "A: A[0]", "A: A[-1]", "A, j: A[:, j]", "A, i: A[i]", "A, i, j: A[i, j]", "A, i: A[i:]", "A, i: A[:i]", "A, i: A[:i + 1].sum(0)", "A: A[1:]", "A: A[:, 1:]", "A: A[:-1]", "A: A[..., 0]", "T: T[..., -1]", "T: T[:, 0]", "T, k: T[:, :, k]", "T, i, k: T[i, :, k]",
    "A: A[::2]", "A: A[:, ::2]", "v: v[1:3]", "v: v[[0]]", "A: A[[0, -1]]", "A: A[:, [0, 0]]", "v: v[10:]", "v: v[-2:]", "v: v[:-2]", "A: A[A.shape[0] - 1]", "A: A[5]", "A: A[-5]", "A: A[:, 4]", "v: v[np.arange(v.shape[0])]", "v: v[::-1][0]", "A: A[0][0]", "T: T[0][:, 0]", "A: A[(0, 0)]",
    "A, i: np.delete(A, i, axis=0)", "S: S[np.arange(S.shape[0]), np.arange(S.shape[0])]", "A: A[slice(None), 0]", "A: A[:1, :1]", "v: v[None, :, None]", "A, i: A[i - 1]", "A, i: A[i + 1]", "A, i: A[i:i + 2]", "v: v[v.shape[0] // 2:]", "A, i: A[-i - 1]",
    # assignment, aliasing
    "A:\n    B = A\n    B[0] = 1\n    return A",
    "A:\n    B = A.copy()\n    B[:, 0] = 2\n    return A, B",
    "A:\n    A[:] = 0\n    return A",
    "A, v:\n    A[:, 0] = v\n    return A",
    "A, w:\n    A[0] += w\n    return A",
    "A, i, j:\n    A[i, j] = 5\n    return A",
    "A, i, w:\n    A[i] = A[i] * w\n    return A",
    "A:\n    B = A.T\n    B[0, 0] = 7\n    return A",
    "A:\n    B = A[1:]\n    B *= 2\n    return A",
    "A:\n    B = A\n    B = B * 2\n    return A",
    "A:\n    B = A\n    B *= 2\n    return A",
    "A:\n    A[A < 0] = 0\n    return A",
    "A:\n    A[A < 0] *= -1\n    return A",
    "Z:\n    Z[0, 0] = 1.7\n    return Z",
    "Z:\n    Z *= 2\n    return Z",
    "Z:\n    Z *= 1.5\n    return Z",
    "Z, A:\n    Z[:] = A\n    return Z",
    "A:\n    B = A.reshape(-1)\n    B[0] = 3\n    return A",
    "A:\n    B = A.T.reshape(-1)\n    B[0] = 3\n    return A",
    "A:\n    B = A.ravel()\n    B += 1\n    return A",
    "A:\n    B = A.flatten()\n    B += 1\n    return A",
    "A:\n    B = np.asarray(A)\n    B[0] = 0\n    return A",
    "A:\n    B = np.array(A)\n    B[0] = 0\n    return A",
    "T:\n    B = np.moveaxis(T, 1, 0)\n    B[0] = 0\n    return T",
    "A:\n    A[:, ::2] = -1\n    return A",
    "A, C:\n    A[...] = C\n    C[0] = 0\n    return A, C",
    "A:\n    np.fill_diagonal(A, 0)\n    return A",
    "A:\n    A.fill(2)\n    return A",
    "v:\n    v[v.argmax()] = 0\n    return v",
    "A, C:\n    A += C\n    A -= 1\n    A /= 2\n    return A",
    "A, B:\n    A += B\n    return A",
    "A, w:\n    w += A\n    return w",
    "A:\n    x, y = A[:, 0], A[0]\n    x[0] = 9\n    return y",
    "A:\n    out = np.zeros(A.shape)\n    np.add(A, 1, out=out)\n    return out",
    "A, C:\n    np.multiply(A, C, out=A)\n    return A",
    # loops, comprehensions, control flow
    "A:\n    s = 0\n    for r in A:\n        s = s + r\n    return s",
    "A:\n    s = 0\n    for i in range(A.shape[0]):\n        s += A[i, 0]\n    return s",
    "A:\n    s = np.zeros(A.shape[1])\n    for i, r in enumerate(A):\n        s += i * r\n    return s",
    "A:\n    out = np.empty_like(A)\n    for i in range(A.shape[0]):\n        for j in range(A.shape[1]):\n            out[i, j] = A[i, j] + i - j\n    return out",
    "A:\n    out = np.zeros(A.shape)\n    for j in range(A.shape[1]):\n        out[:, j] = A[:, j] / (1 + A[:, j] @ A[:, j])\n    return out",
    "A:\n    out = []\n    for r in A:\n        out.append(r.sum())\n    return np.array(out)",
    "A, C:\n    s = 0\n    for a, c in zip(A, C):\n        s += a @ c\n    return s",
    "A: sum(r.sum() for r in A)", "A: [r.sum() for r in A]", "A: sum([r @ r for r in A])", "A: [a * 2 for a in A][0]", "A: max(abs(A[0, 0]), 1)", "v: sum(v)", "A: len([r for r in A])", "A: [r for r in A][-1]", "A, C: [a + c for a, c in zip(A, C)]",
    "v:\n    n = 0\n    for a in v:\n        if a > 0:\n            n += 1\n    return n",
    "v:\n    for i, a in enumerate(v):\n        if a > 0:\n            return i\n    return -1",
    "v:\n    best = v[0]\n    for a in v:\n        if a > best:\n            best = a\n    return best",
    "v:\n    p = 1\n    for a in v:\n        p = p * a\n    return p",
    "A:\n    p = np.ones(A.shape[1])\n    for r in A:\n        p *= r\n    return p",
    "v:\n    i = 0\n    while i < 3:\n        v = v + i\n        i += 1\n    return v",
    "v:\n    for k in range(3):\n        if k == 1:\n            continue\n        v = v + k\n    return v",
    "v:\n    for k in range(3):\n        if k == 2:\n            break\n        v = v + k\n    else:\n        v = 0 * v\n    return v",
    "v:\n    try:\n        v[100]\n    except IndexError:\n        return v + 1\n    return v",
    "x: 'pos' if x > 0 else 'neg'", "x: 1 if x else 0", "x: x > 0 and x < 1", "x: not x > 0", "i, j: i == j", "i, j: (i, j) == (j, i)", "i: i // 2", "i: i % 2", "i: -i // 2", "i: -i % 3", "i: i / 2", "i: 2 ** i", "i: int(i / 2)", "x: int(x)", "x: round(2.5)", "i: divmod(i, 2)",
    "i: min(i, 1)", "x: max(x, 0, 1)", "x: abs(x)", "i: range(i)[0]", "i: list(range(i + 1))", "i: list(reversed(range(3)))", "A: list(zip(A.shape, (1, 2)))", "A: tuple(A.shape)[::-1]", "A: sorted([3, 1, 2])", "v: sorted([2, 1], reverse=True)",
    "i: [k for k in range(4) if k != i]", "T: [T.shape[k] for k in range(3) if k != 1]", "A: reduce(lambda a, b: a * b, [1, 2, 3])", "A, C: reduce(np.add, [A, C, A])", "A: list(itertools.product([0, 1], repeat=2))", "A: [*range(2), 5]", "A: list(map(lambda r: r + 1, [1, 2]))", "A: all([True, False])", "A: any(a > 3 for a in [1, 2])",
    "A:\n    d = {'a': A}\n    d['b'] = 2\n    return d['a'] * d['b']",
    "A:\n    d = dict(a=1)\n    d.update(b=2)\n    return [d.get('c', 3), len(d), 'a' in d, sorted(d)]",
    "A:\n    l = [1, 2]\n    m = l\n    m.append(3)\n    return l",
    "A:\n    l = [1, 2]\n    m = list(l)\n    m.append(3)\n    return l",
    "A:\n    l = [A]\n    m = copy(l)\n    m[0][0] = 1\n    return A",
    "A:\n    l = [A]\n    m = deepcopy(l)\n    m[0][0] = 1\n    return A",
    "A:\n    def f(a, b=2, *c, **d):\n        return a + b + len(c) + len(d)\n    return [f(1), f(1, 3), f(1, 2, 3), f(1, z=3)]",
    "A:\n    l = [3, 1, 2]\n    l.insert(0, 5)\n    l.pop()\n    l.remove(1)\n    l.extend([7])\n    return [l, l.index(7)]",
    "A:\n    l = [1, 2, 3, 4]\n    del l[1]\n    l[1:] = [9]\n    return l",
    "A: f'{3:02d}-{\"a\"}'", "A: '%d %s' % (3, 'x')", "A: 'a,b'.split(',')", "A: '-'.join(['a', 'b'])", "A: 'Abc'.lower()", "A: '{}_{}'.format(1, 'b')", "A: 'abc'[1:]", "A: 'x' in 'xyz'", "A: str(3)", "A: int('12')",
    "i:\n    a, *b = [i, 1, 2]\n    return b + [a]",
    "A:\n    g = (k * k for k in range(3))\n    next(g)\n    return list(g)",
    "x: x // 1", "x: x % 1", "x: 1 / x", "x: x ** 0.5 if x > 0 else 0", "x: 3 if 0 < x < 1 else 4", "i: bool(i)", "x: isinstance(x, float)", "A: isinstance(A, np.ndarray)", "i: i & 1", "x: x * (x > 0)",
    # numpy functions a refactoring may use
    "A: np.full_like(A, 2)", "Z: np.full_like(Z, 2.7)", "A: np.positive(A)", "A: np.reciprocal(A*A + 1)", "A, C: np.fmax(A, C)", "A, C: np.fmin(A, C)", "T: np.permute_dims(T, (1, 2, 0))", "T: np.matrix_transpose(T)", "A: A.mT", "A, C: np.concat([A, C], axis=1)",
    "A, C:\n    np.copyto(A, C)\n    return A", "A, C: np.vecdot(A, C)", "A, i: np.take(A, i, axis=0)", "A: np.take(A, [0, 0], axis=1)", "A, C: np.append(A, C, axis=0)", "A, C: np.append(A, C)", "v, A: np.broadcast_arrays(A, A[0])[1]", "A, C: np.dstack([A, C])", "A, C: np.logical_xor(A > 0, C > 0)",
    "A: np.floor(A)", "A: np.ceil(A)", "A: np.trunc(A)", "v: np.roll(v, 1)", "A: np.roll(A, 1, axis=0)", "A: np.cumprod(A, axis=0)", "A: np.linalg.vector_norm(A)", "A: np.linalg.matrix_norm(A)", "v, w: np.linalg.outer(v, w)", "S: np.linalg.trace(S)", "S: np.linalg.diagonal(S)", "A, B: np.linalg.matmul(A, B)",
    "A, B: np.linalg.tensordot(A, B, axes=1)", "A, C: np.linalg.vecdot(A, C)", "A: np.vsplit(np.vstack([A, A]), 2)[1]", "A: np.split(np.concatenate([A, 2*A]), 2)[1]", "A: np.array_split(np.vstack([A, 2*A]), 2)[0]", "A: np.nansum(A, axis=0)", "A: np.nanmean(A)", "A: np.ptp(A, axis=0)", "A: np.std(A)", "A: A.std(axis=0)",
    "v: np.hypot(v, 1)", "A: np.cbrt(A)*0", "v: np.linalg.vector_norm(v, axis=0)", "v: np.nonzero(v)[0].size", "v: np.flatnonzero(v).size", "A: np.float64(3) * A", "A: A.view().sum()", "A: np.add.reduce(A, axis=0)", "A: np.multiply.reduce(A, axis=0)", "v, u: np.multiply.outer(v, u)", "v, u: np.add.outer(v, u)", "A: np.apply_along_axis(np.sum, 0, A)",
    "A: np.isclose(A, A)", "A, C: np.allclose(A, C)", "A: A.take([0], axis=0)", "v: np.ediff1d(v)", "v: np.diff(v)", "A: np.diff(A, axis=0)", "A: np.average(A, axis=0)", "A, v: np.average(A, axis=0, weights=v*v + 1)", "A: np.nan_to_num(A)", "A: np.rollaxis(np.stack([A, A]), 2)", "A: np.r_[A, A]", "v, u: np.c_[v, u]", "A: np.ix_([0], [0])[0].shape",
    "v: np.argsort(v)[0]", "v: np.sort(v)", "A: np.unravel_index(0, A.shape)", "T: np.prod(T.shape)", "T: np.prod(T.shape[1:])", "A: np.float64(A[0, 0])", "A: np.ones((2, 2)) @ np.ones((2, A.shape[0]))", "v: np.linspace(0, 1, 3)", "v: np.triu(np.ones((3, 3)))", "A: np.newaxis is None", "A: np.sum([A[0, 0], 1])", "A: np.sum([r for r in A], axis=0)", "A: np.mean([r.sum() for r in A])", "A: np.max([1, 2])",
    # keyword arguments
    "A, C: np.add(A, C, where=A > 0, out=np.zeros(A.shape))", "A, B:\n    C = np.zeros((A.shape[0], B.shape[1]))\n    np.matmul(A, B, out=C)\n    return C", "A:\n    s = np.zeros(A.shape[1])\n    A.sum(axis=0, out=s)\n    return s",
    "Z: np.sum(Z, dtype=float)", "v: np.arange(v.shape[0], dtype=float)", "v, w: np.outer(a=v, b=w)", "A: np.sum(a=A, axis=0)", "A: np.array(A, ndmin=3)", "A: np.sum(A, axis=0, initial=1)", "A: A.sum(axis=0, where=A > 0)", "v: np.arange(1, 8, 2)", "v: np.arange(8, 1, 2)",
    "A: np.reshape(A, (-1,), order='F')", "A: A.ravel('F')", "A: A.reshape((-1, 1), order='F')", "A: A.flatten(order='F')", "v: np.tile(A=v, reps=2)", "A, B: np.tensordot(A, B, 1)", "A: np.swapaxes(A, axis1=0, axis2=1)", "A: A.astype(float, copy=False)", "A, B: np.einsum('ij,jk->ik', A, B, optimize=True)",
    "A: np.mean(A, axis=0, dtype=float)", "A: np.any(A > 0, axis=1, keepdims=True)", "T: T.mean(axis=(0, 2))", "A, i: np.delete(A, 0, 1)", "A: np.trace(A, offset=1)", "A: np.zeros(A.shape, dtype=int)", "A: np.ones(3, int)", "v: np.repeat(v, [1])", "v: np.array([v])", "v: np.array([[1, 2], [3, 4]]) @ np.ones(2)",
    "v: np.array([1, 2]) / 2", "v: np.array([1, 2]) // 2", "v: np.array([True, False]).sum()", "A: np.zeros(())", "v: v @ np.eye(v.shape[0]) @ v", "A: (A.T @ A) * np.eye(A.shape[1])", "A: A - A.mean(axis=0)", "A: A / (1 + np.abs(A).sum(0))", "T: T - T.mean(axis=1, keepdims=True)", "A: np.argmax(A, axis=1)",
    "T, A, B, D: np.einsum('ijk,ij,kr->r', T, A, D)", "A, B: (A[:, :, None] * B[None]).sum(1)", "A, D: (A[:, None, :] * A[None, :, :]).reshape(-1, A.shape[1])", "A, C: (A[:, None] * C[None]).reshape(A.shape[0]*C.shape[0], A.shape[1])", "A, C: np.concatenate([np.kron(A[:, :1], C[:, :1])], axis=1)",
]

# classes, closures, exceptions and other Python semantics
SNIPPETS += [
    "i:\n    class P:\n        n = 1\n        def __init__(self, x):\n            self.x = x\n        def get(self):\n            return self.x + self.n\n    class Q(P):\n        n = 5\n        def get(self):\n            return 2 * super().get()\n    return [P(i).get(), Q(i).get(), isinstance(Q(1), P), issubclass(Q, P)]",
    "i:\n    class P:\n        @property\n        def y(self):\n            return self._y * 2\n        @y.setter\n        def y(self, v):\n            self._y = v + 1\n    p = P()\n    p.y = i\n    return p.y",
    "i:\n    class P:\n        k = []\n        def add(self, x):\n            self.k.append(x)\n    a, b = P(), P()\n    a.add(1)\n    return b.k",
    "i:\n    class P:\n        k = 1\n    a = P()\n    a.k += 1\n    return [a.k, P.k]",
    "i:\n    class P:\n        @staticmethod\n        def s(x):\n            return x + 1\n        @classmethod\n        def c(cls, x):\n            return cls.s(x) * 2\n    return [P.s(i), P.c(i), P().c(1)]",
    "i:\n    class P:\n        def __getitem__(self, k):\n            return k + 1\n        def __len__(self):\n            return 3\n        def __call__(self, a, b=2):\n            return a * b\n        def __eq__(self, o):\n            return True\n    p = P()\n    return [p[i], len(p), p(3), p(3, b=i), p == 4]",
    "i:\n    class P:\n        def __init__(self):\n            self.a = 1\n    p = P()\n    q = p\n    r = copy(p)\n    p.a = 2\n    return [q.a, r.a, hasattr(p, 'b'), getattr(p, 'b', 7), vars(p)['a']]",
    "i:\n    class P:\n        def __init__(self):\n            self.l = [1]\n    p = P()\n    q, r = copy(p), deepcopy(p)\n    p.l.append(2)\n    return [len(q.l), len(r.l)]",
    "i:\n    class A:\n        def f(self):\n            return 'A'\n    class B(A):\n        def f(self):\n            return 'B' + super().f()\n    class C(A):\n        def f(self):\n            return 'C' + super().f()\n    class D(B, C):\n        def f(self):\n            return 'D' + super().f()\n    return D().f()",
    "i:\n    def outer(n):\n        def inner(m):\n            nonlocal n\n            n += m\n            return n\n        return inner\n    f = outer(1)\n    return [f(2), f(i)]",
    "i:\n    fs = [lambda: k for k in range(3)]\n    return [f() for f in fs]",
    "i:\n    def f(x, l=[]):\n        l.append(x)\n        return len(l)\n    return [f(1), f(2), f(1, [])]",
    "i:\n    def f(*a, **k):\n        return [len(a), sorted(k), a[0]]\n    d = {'z': 1}\n    return f(*[i, 2], y=3, **d)",
    "i:\n    def f(a, *, b=1):\n        return a + b\n    return f(i, 2)",
    "i:\n    def f(a):\n        return a\n    return f(b=1)",
    "i:\n    try:\n        raise ValueError('x')\n    except (KeyError, ValueError) as e:\n        return str(e)\n    finally:\n        i = 3",
    "i:\n    out = []\n    try:\n        out.append(1)\n        raise KeyError('k')\n    except ValueError:\n        out.append(2)\n    finally:\n        out.append(3)\n    return out",
    "i:\n    out = []\n    try:\n        out.append(1)\n    except ValueError:\n        out.append(2)\n    else:\n        out.append(4)\n    finally:\n        out.append(3)\n    return out",
    "i:\n    d = {'a': 1, 'b': 2}\n    return [list(d), list(d.values()), [k + str(v) for k, v in d.items()], d.pop('a'), len(d), d.setdefault('c', 4), d['c']]",
    "i:\n    d = {}\n    return d['x']",
    "i:\n    d = {k: k * k for k in range(4) if k % 2}\n    return [d[1], d[3], len(d)]",
    "i:\n    d = {**{'a': 1}, 'b': 2}\n    e = dict(d)\n    e['a'] = 5\n    return [d['a'], e['a']]",
    "i:\n    a = b = []\n    a.append(1)\n    return b",
    "i:\n    a, (b, c) = 1, (2, i)\n    a, b = b, a\n    return [a, b, c]",
    "i:\n    l = [1, 2, 3]\n    return [l[-1], l[1:], l[:2], l[::-1], l * 2, l + [4], 2 in l, l.count(1), l[0:0]]",
    "i:\n    l = [1, 2, 3]\n    l += (4,)\n    m = l\n    m = m + [5]\n    return [l, m]",
    "i:\n    l = [3, 1, 2]\n    l.sort()\n    return [l, sorted(l, key=lambda x: -x), max(l), min([2, 1], default=0), sum(l, 10)]",
    "i:\n    assert i >= 0\n    assert i < 0, 'message'\n    return 1",
    "i:\n    return [1 if i == 0 else 2, i or 5, i and 5, not i, None is None, i is not None]",
    "i:\n    k = 0\n    while True:\n        k += 1\n        if k > 3:\n            break\n    return k",
    "i:\n    out = []\n    for a in range(3):\n        for b in range(3):\n            if b > a:\n                break\n            if a == 1:\n                continue\n            out.append(a * 10 + b)\n    return out",
    "i:\n    it = iter([1, 2])\n    return next(it)",
    "i:\n    def gen(n):\n        for k in range(n):\n            yield k * 2\n    return list(gen(3))",
    "i:\n    with np.errstate(all='ignore'):\n        x = i + 1\n    return x",
    "i:\n    return list(enumerate(['a', 'b'], start=1))", "i: list(zip([1, 2, 3], 'ab'))", "i: [x for l in [[1], [2, 3]] for x in l]", "i: {1, 2} == {2, 1}", "i: (1, 2) < (1, 3)", "i: [1, 2] == [1, 2]", "i: 'a' 'b'", "i: 1 < i < 3", "i: 7 // -2", "i: -7 % 3", "i: 2 ** -1", "i: 0.1 + 0.2 == 0.3 or True",
    "i: f'{i}' == str(i)", "i: f'{3.14159:.2f}|{5:>3}|{7:03d}'", "i: 'it{:05d}'.format(12)", "i: 'checkpoint_00010'[11:]", "i: int('00010')", "i: 'a_b_c'.rsplit('_', 1)", "i: 'abc'.startswith('ab')", "i: 'abc'.replace('b', 'x')", "i: 'abc'.endswith(('bc', 'z'))", "i: ' a '.strip()", "i: 'Abc'.upper()", "i: 'a,b'.partition(',')", "i: len('abc')", "i: 'b' > 'a'",
    "i: any([])", "i: all([])", "i: sum([])", "i: max([])", "i: list(filter(lambda x: x > 1, [1, 2, 3]))", "i: list(map(lambda x, y: x + y, [1, 2], [3, 4]))", "i: reduce(lambda x, y: x * 10 + y, [1, 2, 3], 9)", "i: list(itertools.chain([1], [2, 3]))", "i: list(itertools.combinations([1, 2, 3], 2))", "i: list(itertools.permutations([1, 2]))", "i: list(itertools.accumulate([1, 2, 3]))",
    "x: isinstance(x, (int, float))", "i: isinstance(i, int)", "x: type(3) is int", "i: callable(len)", "i: int(3.7) + int(-3.7)", "i: float('1.5')", "i: bool([]) or bool({})", "i: abs(-3)", "i: round(3)", "i: tuple([1, 2]) + (3,)", "i: list('ab')", "i: str(None)", "i: min(3, 1, 2)", "i: len({1, 1, 2})",
    "i:\n    x = 5\n    def f():\n        return x\n    x = 6\n    return f()",
    "i:\n    def f():\n        return y\n    return f()",
    "A:\n    def f(B):\n        B[0] = 1\n    f(A)\n    return A",
    "A:\n    def f(B):\n        B = B + 1\n        return B\n    C = f(A)\n    return A, C",
    "A:\n    l = [A, A]\n    l[0] = l[0] * 2\n    return l",
    "A:\n    l = [A, A]\n    l[0] *= 2\n    return l",
    "A:\n    l = [A]\n    for B in l:\n        B += 1\n    return A",
    "A:\n    l = [a for a in A]\n    l[0][:] = 0\n    return A",
    "A:\n    t = (A,)\n    B, = t\n    B[0, 0] = 4\n    return A",
    "A:\n    d = {'x': A}\n    d['x'] += 1\n    return A",
    "A:\n    class P:\n        def __init__(self, M):\n            self.M = M\n    p = P(A)\n    p.M[0] = 0\n    p.M = p.M + 1\n    return A",
    "A, C:\n    A, C = C, A\n    A[0] = 1\n    return A, C",
    "A:\n    B = A[0]\n    A = A + 1\n    B[0] = 9\n    return A",
    "A, v:\n    for i in range(A.shape[0]):\n        A[i] -= v[i]\n    return A",
    "A:\n    for r in A:\n        r *= 2\n    return A",
    "A:\n    for i, r in enumerate(A):\n        A[i] = r / (i + 1)\n    return A",
    "A:\n    s = 0\n    for i in range(A.shape[0]):\n        for j in range(A.shape[1]):\n            s += A[i, j]**2\n    return s",
    "A:\n    s = 0\n    for i in range(1, A.shape[0]):\n        s += A[i] - A[i - 1]\n    return s",
    "A:\n    B = np.zeros((A.shape[1], A.shape[0]))\n    for i in range(A.shape[0]):\n        B[:, i] = A[i]\n    return B",
    "A:\n    B = np.zeros_like(A)\n    for i in reversed(range(A.shape[0])):\n        B[i] = A[-1 - i]\n    return B",
    "T:\n    out = [t.T @ t for t in T]\n    return sum(out)",
    "T:\n    out = 0\n    for k, t in enumerate(T):\n        out = out + k * t.sum(axis=0)\n    return out",
    "A:\n    norms = [np.linalg.norm(r) for r in A]\n    return np.array(norms) ** 2",
    "A:\n    return [r.shape[0] for r in A][0]",
    "v, u:\n    return [max(a, b) for a, b in zip(v, u)][0]",
    "v:\n    return sum(1 for a in v if a > 0)",
    "v:\n    return any(a > 0 for a in v)",
    "v:\n    return all(a > -1 for a in v)",
    "v:\n    return max(abs(a) for a in v)",
    "v:\n    return min(v)",
    "v:\n    i = int(np.argmax(np.abs(v)))\n    return v[i]",
    "A:\n    for j in range(A.shape[1]):\n        A[:, j] /= 1 + A[:, j] @ A[:, j]\n    return A",
    "A:\n    for i in range(A.shape[0]):\n        A[i] = A[i] + A[i].sum()\n    return A",
    "A:\n    for i in range(1, A.shape[0]):\n        A[i] = A[i] + A[i - 1]\n    return A",
    "A:\n    for i in range(A.shape[0] - 1):\n        A[i] = A[i] + A[i + 1]\n    return A",
    "A:\n    for i in range(A.shape[0]):\n        A[i] = A[0] + A[i]\n    return A",
    "A:\n    for i in range(A.shape[0]):\n        A[i] = A[-1] + A[i]\n    return A",
    "A, v:\n    for i in range(A.shape[0]):\n        A[i] *= v[i]\n        A[i] += A[i]**2\n    return A",
    "A:\n    for i in range(A.shape[0]):\n        A[A.shape[0] - 1 - i] *= i\n    return A",
    "v:\n    for i in range(v.shape[0]):\n        v[i] = v.sum()\n    return v",
    "v:\n    for i in range(v.shape[0]):\n        v[i] = v[i:].sum()\n    return v",
    "A, w:\n    A[:, w > 0] = 0\n    return A",
    "A, w:\n    A[:, w > 0] *= -1\n    return A",
    "A, v:\n    A[v > 0] *= -1\n    return A",
    "A, v:\n    A[v > 0, :] += 2\n    return A",
    "A, v:\n    A[v < 0] = 3.5\n    return A",
    "T, w:\n    T[:, w > 0] /= 2\n    return T",
    "T, w:\n    T[:, w > 0, :] -= 1\n    return T",
    "A, w:\n    A[..., w > 0] *= w[0]\n    return A",
    "A, w:\n    A[w > 0] *= 2\n    return A",
    "Z:\n    Z[:, Z[0] > 0] *= -1\n    return Z",
    "Z:\n    Z[:, Z[0] > 0] *= 0.5\n    return Z",
    "Z:\n    Z[:, Z[0] > 0] = 0.5\n    return Z",
    "T, A:\n    T[A > 0] *= -1\n    return T",
    "A, B:\n    out = np.empty((A.shape[0]*A.shape[1], 2))\n    start = 0\n    for row in A:\n        stop = start + A.shape[1]\n        out[start:stop] = row[:, None]\n        start = stop\n    return out",
    "A:\n    k = 0\n    s = 0\n    for row in A:\n        s = s + k*row\n        k += 2\n    return s, k",
    "A:\n    k = 0\n    s = 0\n    for row in A:\n        k += 1\n        if row[0] > 0:\n            k += 1\n        s = s + row\n    return s",
    "A:\n    k = 5\n    for row in A:\n        k = 5 - k\n    return k",
    "A:\n    k = 1\n    for i in range(A.shape[0]):\n        k = 2*k\n    return k",
    "A:\n    k = 0\n    for i in range(A.shape[0]):\n        k = i + 1\n    return k",
    "A:\n    k = 0\n    for i in range(A.shape[0]):\n        k = i*i\n    return k",
    "A:\n    k = 7\n    s = 0\n    for i in range(A.shape[0]):\n        s += A[k - 7]\n        k += 1\n    return s + k",
    "A:\n    k = A.shape[0] - 1\n    out = np.zeros_like(A)\n    for row in A:\n        out[k] = row\n        k -= 1\n    return out",
    "A:\n    k = 0\n    for i in range(A.shape[0]):\n        if i > 0:\n            k += 3\n        else:\n            k += 1\n    return k",
]
