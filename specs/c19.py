"""C19: reading, metrics, storing and fitting never modify the user's data."""
from specs.fitloop import *
from pyver.vals import PList, PDict, PObj, Arr, SymTuple, PSet
from specs import c01, c02, c03, c04, c05, c06, c08, c09, c10, c11, c12, c13, c15, c16, c18, c21, c22, c23

spec = Spec("C19", "User data is never modified")
spec.assumptions.append("solvers and error computations that the fits call are replaced by their contracts, which include that they do not modify their arguments "
                        "(discharged for the real solvers and the real error computations in this property as well)")
U, M, BASE, LOG = "tenkit.utils:", "tenkit.metrics:", "tenkit.base:", "tenkit.decomposition.logging.logger:"


class Guard:
    """A deep snapshot of values: arrays by contents, lists and objects by their parts."""

    def __init__(self, I, **named):
        self.I, self.seen = I, {}
        self.roots = [(n, v, self.take(v)) for n, v in named.items()]

    def take(self, v):
        if isinstance(v, Arr):
            return ("arr", v, v.shape, v.snapshot())
        if isinstance(v, (tuple, list)):
            return ("seq", None, [self.take(x) for x in v])
        if isinstance(v, (PList, SymTuple)):
            if isinstance(v, PList) and v.items is not None:
                return ("seq", v, [self.take(x) for x in v.items])
            k = idx(self.I, (v.n,), "gk")[0]
            return ("sym", v, v.n, k, self.take(v.getf(k)))
        if isinstance(v, PDict):
            return ("leaf", v)
        if isinstance(v, PObj):
            if id(v) not in self.seen:
                node = ("obj", v, {})
                self.seen[id(v)] = node
                node[2].update({n: self.take(x) for n, x in v.attrs.items()})
            return self.seen[id(v)]
        return ("leaf", v)

    def check(self, what="unchanged"):
        self.done = set()
        for n, v, node in self.roots:
            self.same(f"frame: {n} {what}", v, node)

    def same(self, name, v, node):
        I, tag = self.I, node[0]
        if tag == "arr":
            for who, a in (("", v), (" (the array itself)", node[1])):
                if a is node[1] and who and v is node[1]:
                    continue
                if not isinstance(a, Arr) or len(a.shape) != len(node[2]):
                    I.oblige(name + who, False)
                    continue
                if oblige_shape(I, name + who, a, node[2]):
                    ix = idx(I, a.shape)
                    I.oblige_eq(name + who, a.at(ix), node[3](ix))
        elif tag == "seq":
            for who, a in (("", v), (" (the list itself)", node[1])):
                if who and (a is None or v is node[1]):
                    continue
                items = I.iter_concrete(a)
                if I.oblige(f"{name}{who}: length", len(items) == len(node[2])):
                    for k, (x, y) in enumerate(zip(items, node[2])):
                        self.same(f"{name}[{k}]", x, y)
        elif tag == "sym":
            I.oblige_eq(f"{name}: length", seq_len(I, v), node[2])
            self.same(f"{name}[k]", seq_get(I, v, node[3]), node[4])
        elif tag == "obj":
            if id(v) in self.done:
                return
            self.done.add(id(v))
            if not I.oblige(name + ": same class", isinstance(v, PObj) and v.cls is node[1].cls):
                return
            for n, y in node[2].items():
                if I.oblige(f"{name}: attribute {n}", n in v.attrs):
                    self.same(f"{name}.{n}", v.attrs[n], y)
        else:
            y = node[1]
            if vals.isnum(y):
                if I.oblige(name, vals.isnum(v)):
                    I.oblige_eq(name, P(v), P(y))
            else:
                I.oblige(name, v is y or isinstance(v, (str, int, float, bool)) and v == y)


def raised(I, e):
    """An exception is a matter of other properties (unless it is not one: the path is impossible)."""
    if e.etype == "Infeasible" or not I.ctx.oracle.feasible()[0]:
        raise interp.PathEnd()
    raise Unsupported(f"the call raises {e.etype}")


def add(name, f, **kw):
    """f(I) -> (arguments by name, thunk)"""
    def goal(I):
        named, thunk = f(I)
        g = Guard(I, **named)
        try:
            thunk()
        except PyRaise as e:
            raised(I, e)
        g.check()
    spec.add(name, goal, contracts=kw.get("contracts"))


def only_frames(goal):
    """The obligations of a goal of another property that say that its inputs are unchanged."""
    def run(I):
        keep = {n: getattr(I, n) for n in ("oblige", "oblige_eq")}

        def one(n):
            return lambda name, *a, **kw: keep[n](name, *a, **kw) if name.startswith("frame") else True
        for n in keep:
            setattr(I, n, one(n))
        try:
            goal(I)
        except PyRaise as e:
            raised(I, e)
        finally:
            for n in keep:
                delattr(I, n)
    return run


def borrow(tag, module, pick=lambda name: True):
    for g in module.spec.goals:
        if pick(g.name) and not g.thorough and not g.name.startswith("6 modes"):
            spec.add(f"{tag}: {g.name}", only_frames(g.fn), contracts=g.contracts, limit=g.limit)


# ---- base

def mats(I, *shapes):
    return {n: param_arr(n, dims(s)) for n, s in shapes}


def base2(name, sa, sb, **kw):
    def f(I):
        d = mats(I, ("A", sa), ("B", sb))
        return d, lambda: call(I, BASE + name, d["A"], d["B"])
    add(name, f, **kw)


base2("rightsolve", "n m", "p m")
base2("non_negative_rightsolve", "n m", "p m")
base2("orthogonal_rightsolve", "n m", "p m")
base2("orthogonal_solve", "m n", "m p")
base2("khatri_rao_binary", "I R", "J R")
base2("kron_binary", "I R", "J S")
base2("kron_binary_vectors", "I", "J")


def _one_row(I):
    d = mats(I, ("A", "n m"), ("B", "m"))
    return d, lambda: call(I, BASE + "non_negative_rightsolve", d["A"], d["B"])


add("non_negative_rightsolve, one row", _one_row)


def ridge(solver):
    def f(I):
        d = mats(I, ("A", "n m"), ("B", "p m"))
        lam = var("lam", "real")
        I.assume(ge0(lam))

        def go():
            I.call(call(I, BASE + "add_rightsolve_ridge", get(I, BASE + solver), fnum(lam)), [d["A"], d["B"]], {})
        return d, go
    return f


for s in ("rightsolve", "non_negative_rightsolve", "orthogonal_rightsolve"):
    add(f"{s} with a ridge penalty", ridge(s))


def fam(I, n, weights=False):
    R = dim("R")
    ds = [dim("IJKLMN"[k]) for k in range(n)]
    return ds, R, factors(I, ds, R)


def products(n, skip):
    def f(I):
        ds, R, fs = fam(I, n)
        L = PList(list(fs))

        def go():
            method_args = [BASE + "khatri_rao"] + fs
            call(I, *method_args, **({} if skip is None else dict(skip=skip)))
            if skip is None:
                call(I, BASE + "kron", *fs)
        return {**dict(zip("ABCD", fs))}, go
    return f


def mttkrp(n):
    def f(I):
        ds, R, fs = fam(I, n)
        L, X = PList(list(fs)), param_arr("X", ds)

        def go():
            for m in range(n):
                call(I, BASE + "matrix_khatri_rao_product", X, L, m)
                U_ = call(I, BASE + "unfold", X, m)
                call(I, BASE + "fold", U_, m, tuple(fnum(d, "i") for d in ds))
            call(I, BASE + "flatten_factors", L)
        return dict(factors=L, X=X), go
    return f


for n in (2, 3, 4, 5):
    for skip in [None] + list(range(n)):
        add(f"khatri_rao and kron of {n} factors, skip={skip}", products(n, skip))
    add(f"matrix_khatri_rao_product, unfold, fold, flatten_factors, {n} modes", mttkrp(n))


def _folding(I):
    d = mats(I, ("M", "I N"), ("v", "T"))
    J, K, R, dI = dims("J K R I")
    I.assume(int_eq(dim("N"), J * K))
    I.assume(int_eq(dim("T"), dI * R + J * R))

    def go():
        call(I, BASE + "unflatten_factors", d["v"], fnum(R, "i"), (fnum(dI, "i"), fnum(J, "i")))
    return d, go


add("unflatten_factors", _folding)

# ---- utilities and metrics


def utils_on(n):
    def f(I):
        ds, R, fs = fam(I, n)
        L, w = PList(list(fs)), param_arr("w", (R,))
        X = param_arr("X", ds)
        I.ghost_hooks["pointwise"] = (R, idx(I, (R,), "e")[0])
        perm = param_arr("pi", (R,), "i")

        def go():
            for one in fs:
                call(I, U + "normalize_factor", one)
                call(I, M + "leverage", one)
                call(I, U + "get_signs", one, None)
            call(I, U + "normalize_factors", L)
            call(I, U + "flip_factors", L)
            call(I, U + "prepare_for_comparison", L)
            call(I, U + "get_pca_loadings", param_arr("Y", (ds[0], ds[0])), fnum(R, "i"))
        return dict(factors=L, weights=w, X=X, permutation=perm), go
    return f


for n in (1, 2, 3, 4):
    add(f"utilities on {n} factor(s)", utils_on(n), contracts=c16.CONTRACTS, thorough=n > 3)


def _get_signs(I):
    d = mats(I, ("A", "n R"), ("X", "n m"))
    return d, lambda: call(I, U + "get_signs", d["A"], d["X"])


add("get_signs with data", _get_signs)


def _permuted(I):
    ds = dims("I J")
    fs = [param_arr(n, (d, num(3, "i"))) for n, d in zip("AB", ds)]
    L, w, p = PList(list(fs)), param_arr("w", (num(3, "i"),)), PList([2, 0, 1])

    def go():
        for q in (p, (1, 2, 0)):
            call(I, U + "permute_factors", q, L)
            call(I, U + "permute_factors_and_weights", q, L, w)
    return dict(factors=L, weights=w, permutation=p), go


add("permuting", _permuted)


def _scores(I):
    d = mats(I, ("X", "I J K"), ("Y", "I J K"), ("W", "I J K"), ("A", "I R"), ("B", "I S"))

    def go():
        call(I, M + "percent_explained", d["X"], d["Y"])
        call(I, M + "tensor_completion_score", d["X"], d["Y"], d["W"])
        call(I, M + "_tucker_congruence", d["A"], d["B"])
        call(I, M + "leverage", d["A"])
    return d, go


add("percent explained, tensor completion score, congruence, leverage", _scores)


def fms(n, rank):
    def f(I):
        ds = [dim("IJK"[k]) for k in range(n)]
        t, e = [[param_arr(c[k], (d, num(rank, "i"))) for k, d in enumerate(ds)] for c in ("ABC", "PQS")]
        T, E = PList(t), PList(e)

        def go():
            for pen in (True, False):
                call(I, M + "_factor_match_score", T, E, weight_penalty=pen)
        return dict(true=T, estimated=E), go
    return f


for n in (2, 3):
    add(f"component-wise match scores, {n} modes", fms(n, 2))


def cc(weights):
    def f(I):
        ds, R, fs, w, K = c01.kt(I, 3, weights)
        X = param_arr("X", ds)
        for d in ds:
            I.assume(ind("ge", d - R))
        I.assume(ind("ge", prod(ds) - R * R * R))

        def go():
            for norm in (False, True):
                call(I, M + "core_consistency", X, *fs, normalized=norm)
                method(I, K, "core_consistency", X, normalized=norm)
        return dict(X=X, model=K, A=fs[0], B=fs[1], C=fs[2]), go
    return f


add("core_consistency", cc(True))
add("core_consistency, unit weights", cc(False))


# ---- reading decompositions

READS = {
    "attributes and entries": lambda I, K, X, r, n: [attr(I, K, a) for a in ("rank", "shape", "factor_matrices", "weights")] + [I.getitem(K, m) for m in range(n)],
    "construct_tensor": lambda I, K, X, r, n: method(I, K, "construct_tensor"),
    "single component": lambda I, K, X, r, n: method(I, K, "get_single_component_decomposition", fnum(r, "i")),
    "degeneracy": lambda I, K, X, r, n: method(I, K, "degeneracy"),
    "signs": lambda I, K, X, r, n: method(I, K, "get_signs", X),
    "sign scores": lambda I, K, X, r, n: method(I, K, "get_sign_scores", X),
    "conversion": lambda I, K, X, r, n: method(I, method(I, get(I, D + "EvolvingTensor"), "from_kruskaltensor", K), "construct_tensor"),
}


def read_kruskal(n, weights, what):
    def f(I):
        ds, R, fs, w, K = c01.kt(I, n, weights)
        X = param_arr("X", ds)
        r = idx(I, (R,), "e")[0]
        I.ghost_hooks["pointwise"] = (R, r)
        I.assume(ind("ge", R - 1))
        return dict(model=K, X=X, **dict(zip("ABCD", fs))), lambda: READS[what](I, K, X, r, n)
    return f


for n in (2, 3, 4, 5):
    for wt in (False, True):
        for what in READS:
            if (what != "conversion" or n == 3) and (what != "signs" or n < 4):
                add(f"reading a Kruskal tensor of {n} modes{', weights' if wt else ''}: {what}", read_kruskal(n, wt, what))


def read_evolving(mk, cls):
    def f(I):
        T, dI, K, R, jd, b, fr = mk(I)
        k, r = c08.kk(I, K), idx(I, (R,), "e")[0]
        I.assume(ind("ge", R - 1))
        user = {n.replace(" ", "_"): a for n, a, *_ in fr.named}

        def go():
            for a in ("rank", "A", "B", "C", "B_unfolded", "factor_matrices", "shape", "all_same_size"):
                attr(I, T, a)
            if cls == "Parafac2Tensor":
                for a in ("blueprint_B", "projection_matrices"):
                    attr(I, T, a)
            method(I, T, "construct_slices")
            method(I, T, "construct_slice", fnum(k, "i"))
            method(I, T, "construct_tensor")
            method(I, T, "degeneracy")
            S = method(I, T, "get_single_component_decomposition", fnum(r, "i")) if cls == "Parafac2Tensor" else None
            if S is not None:
                method(I, S, "construct_slices")
        return dict(model=T, **user), go
    return f


for nm, mk, cls in (("EvolvingTensor, irregular", c08.E0, "EvolvingTensor"), ("EvolvingTensor, regular", c08.ER, "EvolvingTensor"),
                    ("Parafac2Tensor, irregular", lambda I: c08.parafac2(I, warning=False), "Parafac2Tensor"),
                    ("Parafac2Tensor, regular", lambda I: c08.parafac2(I, regular=True), "Parafac2Tensor")):
    add(f"reading: {nm}", read_evolving(mk, cls))


def store(make):
    def f(I):
        T, extra = make(I)

        def go():
            method(I, T, "store", "some.h5")
            h5 = c11.h5file(I, "groups.h5", "a")
            g = method(I, h5, "create_group", "one")
            method(I, T, "store_in_hdf5_group", g)
        return dict(model=T, **extra), go
    return f


def _sk(I):
    ds, R, fs, w, K = c01.kt(I, 3, True)
    return K, dict(zip("ABC", fs))


def _se(mk):
    def m(I):
        T, dI, K, R, jd, b, fr = mk(I)
        return T, {n.replace(" ", "_"): a for n, a, *_ in fr.named}
    return m


add("storing a Kruskal tensor", store(_sk))
add("storing an evolving tensor", store(_se(c08.E0)))
add("storing a PARAFAC2 tensor", store(_se(lambda I: c08.parafac2(I, warning=False))))


# ---- reading a model

def read_cp(order, weights, ridge, constraints, fitted):
    def f(I):
        w = CPWorld(order)
        how = ["nonneg", "orth", "free", "nonneg"][:order] if constraints else ["free"] * order
        kw = dict(non_negativity_constraints=PList([h == "nonneg" for h in how]), orthonormality_constraints=PList([h == "orth" for h in how])) if constraints else {}
        m, lam = c06.cp_model(I, w, ridge, weights, **kw)
        if fitted:
            for d in w.ds:
                I.assume(ind("ge", d - dim("R")))
            method(I, m, "fit", w.X, initial_decomposition=w.K, max_its=1)
        else:
            method(I, m, "set_target", w.X)
            I.setattr(m, "decomposition", w.K)
            I.setattr(m, "current_iteration", 0)

        def go():
            for a in ("SSE", "MSE", "RMSE", "explained_variance", "loss", "reconstructed_X", "factor_matrices", "weights"):
                attr(I, m, a)
            read_loggers(I, m)
        return dict(decomposition=attr(I, m, "decomposition"), target=w.X), go
    return f


def read_loggers(I, m):
    for k in c13.KINDS:
        lg = call(I, LOG + k)
        method(I, lg, "log", m)
        attr(I, lg, "latest_log_metrics")


CPSTUBS, _s = c06.solver_stubs()
for order in (2, 3, 4, 5):
    for ridge in (False, True):
        add(f"reading a CP model of {order} modes{', ridge' if ridge else ''}", read_cp(order, True, ridge, False, False))
    add(f"reading a CP model of {order} modes after a fit", read_cp(order, False, False, False, True), contracts=CPSTUBS)


def read_pf(regular, ridge):
    def f(I):
        w = c09.World(regular)
        lam, rk = c06.ridge_kw(I, ridge, 3)
        m = w.model(I, init="precomputed", print_frequency=-1, **rk)
        n2 = ssum("k", w.dK, lambda k: nsum((w.dI, w.jd(k)), lambda i, j: w.x(k, i, j) ** 2))
        I.assume(ind("gt", n2))
        method(I, m, "set_target", w.Xarg)
        I.setattr(m, "decomposition", w.T)
        I.setattr(m, "current_iteration", 0)

        def go():
            for a in ("SSE", "MSE", "RMSE", "explained_variance", "loss", "projected_X"):
                attr(I, m, a)
            if regular:
                attr(I, m, "reconstructed_X")
            read_loggers(I, m)
        return dict(decomposition=w.T, target=w.frame[0][1]), go
    return f


for regular in (True, False):
    for ridge in (False, True):
        add(f"reading a PARAFAC2 model, {'regular' if regular else 'irregular'} slices{', ridge' if ridge else ''}", read_pf(regular, ridge))



def read_cmtf(modes, ridge):
    def f(I):
        w = c18.CMTFWorld(3, modes)
        m, lam, R = c18.build(I, w, ("free",) * 3, ridge, 0)
        data = w.data(I)
        for d in w.ds + w.qs:
            I.assume(ind("ge", d - 1))
        c12.assume_norm(I, w)
        method(I, m, "fit", w.X, initial_decomposition=w.K, **data)
        c18.arbitrary_state(I, w, m, True)

        def go():
            for a in ("SSE", "MSE", "RMSE", "loss", "coupled_factor_matrices_SSE", "reconstructed_coupled_matrices", "coupled_factor_matrices", "reconstructed_X", "weights"):
                attr(I, m, a)
        return dict(decomposition=attr(I, m, "decomposition"), target=w.X, uncoupled=attr(I, m, "uncoupled_factor_matrices"), **data), go
    return f


for modes in ((0,), (2, 2), (1, 0)):
    add(f"reading a coupled model, coupled {list(modes)}", read_cmtf(modes, True))

# ---- fits, and everything other properties say about unchanged inputs

borrow("CP fit", c05, lambda n: "modes" in n)
borrow("PARAFAC2 fit", c09, lambda n: "regular" in n)
borrow("CMTF fit", c18, lambda n: n[0].isdigit())
borrow("start", c21, lambda n: "_ALS" in n and "4 modes" not in n)
borrow("match scores", c15, lambda n: "score" in n and "lemma" not in n and "scaling" not in n and "flipping" not in n and "mode-wise score against" not in n)

