"""C03: Kronecker, Khatri-Rao and MTTKRP kernels."""
from pyver.spec import *

spec = Spec("C03", "Kronecker, Khatri-Rao and MTTKRP")
BASE = "tenkit.base:"
NAMES = "IJKLMN"


@spec.goal("kron_binary_vectors")
def _(I):
    n, m = dims("n m")
    u, v = param_arr("u", (n,)), param_arr("v", (m,))
    fr = Frame(I, [("u", u), ("v", v)])
    k = call(I, BASE + "kron_binary_vectors", u, v)
    if oblige_shape(I, "u x v", k, (n * m,)):
        i, j = idx(I, (n, m))
        I.oblige_eq("entry [i m + j] = u_i v_j", k.at((i * m + j,)), app("u", (i,)) * app("v", (j,)))
    fr.check()


@spec.goal("kron_binary")
def _(I):
    n, m, p, q = dims("n m p q")
    A, B = param_arr("A", (n, m)), param_arr("B", (p, q))
    fr = Frame(I, [("A", A), ("B", B)])
    k = call(I, BASE + "kron_binary", A, B)
    if oblige_shape(I, "A x B", k, (n * p, m * q)):
        i, j, a, b = idx(I, (n, m, p, q))
        I.oblige_eq("entry [(i,a),(j,b)] = A_ij B_ab", k.at((i * p + a, j * q + b)), app("A", (i, j)) * app("B", (a, b)))
    fr.check()


def mk_kron(N):
    def goal(I):
        rs = [dim("n%d" % k) for k in range(N)]
        cs = [dim("m%d" % k) for k in range(N)]
        Ms = [param_arr(LETTERS[k], (rs[k], cs[k])) for k in range(N)]
        fr = Frame(I, [(LETTERS[k], M) for k, M in enumerate(Ms)])
        K = call(I, BASE + "kron", *Ms)
        if oblige_shape(I, "kron", K, (prod(rs), prod(cs))):
            i, j = idx(I, rs), idx(I, cs)
            I.oblige_eq("entries", K.at((lin(i, rs), lin(j, cs))), prod(app(LETTERS[k], (i[k], j[k])) for k in range(N)))
        fr.check()
    return goal


for N in (1, 2, 3, 4, 5, 6):
    spec.add(f"kron of {N}", mk_kron(N))


@spec.goal("khatri_rao_binary")
def _(I):
    n, m, k = dims("n m k")
    A, B = param_arr("A", (n, k)), param_arr("B", (m, k))
    fr = Frame(I, [("A", A), ("B", B)])
    o = call(I, BASE + "khatri_rao_binary", A, B)
    if oblige_shape(I, "A (.) B", o, (n * m, k)):
        i, j, r = idx(I, (n, m, k))
        I.oblige_eq("entry [(i,j),r] = A_ir B_jr", o.at((i * m + j, r)), app("A", (i, r)) * app("B", (j, r)))
    fr.check()


def mk_kr(N, skip):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(N)]
        R = dim("R")
        fs = factors(I, ds, R)
        fr = Frame(I, [(LETTERS[m], f) for m, f in enumerate(fs)])
        kw = {} if skip == "default" else {"skip": skip}
        o = I.call(get(I, BASE + "khatri_rao"), list(fs), kw)
        keep = [m for m in range(N) if skip in (None, "default") or m != skip]
        if oblige_shape(I, "khatri_rao", o, (prod(ds[m] for m in keep), R)):
            ix = idx(I, ds)
            r, = idx(I, (R,))
            I.oblige_eq("entries (first kept factor slowest)",
                        o.at((lin([ix[m] for m in keep], [ds[m] for m in keep]), r)),
                        prod(app(LETTERS[m], (ix[m], r)) for m in keep))
        fr.check("factor")
    return goal


for N in (1, 2, 3, 4, 5, 6):
    if N < 6:
        spec.add(f"khatri_rao of {N}", mk_kr(N, "default" if N % 2 else None))
    for s in range(N):
        if N > 1:
            spec.add(f"khatri_rao of {N} skip {s}", mk_kr(N, s))


def mk_mttkrp(N, mode, dtype="f"):
    def goal(I):
        ds = [dim(NAMES[m]) for m in range(N)]
        R = dim("R")
        X = param_arr("X", tuple(ds), dtype)
        fs = factors(I, ds, R)
        fr = Frame(I, [("X", X)] + [(LETTERS[m], f) for m, f in enumerate(fs)])
        lst = PList(list(fs))
        o = call(I, BASE + "matrix_khatri_rao_product", X, lst, mode)
        md = mode % N
        other = [m for m in range(N) if m != md]

        def f(i, r):
            def g(*js):
                ix = [None] * N
                ix[md] = i
                for m, j in zip(other, js):
                    ix[m] = j
                return app("X", ix, "real" if dtype == "f" else "int") * prod(app(LETTERS[m], (ix[m], r)) for m in other)
            return nsum([ds[m] for m in other], g)
        oblige_array(I, "mttkrp", o, (ds[md], R), f)
        I.oblige("the factor list keeps its length", len(I.iter_concrete(lst)) == N)
        fr.check()
    return goal


for N in (2, 3, 4, 5, 6):
    for mode in range(N):
        spec.add(f"mttkrp order {N} mode {mode}", mk_mttkrp(N, mode))
spec.add("mttkrp order 3 mode -1", mk_mttkrp(3, -1))
for N in (3, 4):
    for mode in range(N):
        spec.add(f"mttkrp order {N} mode {mode}, integer tensor", mk_mttkrp(N, mode, "i"))
