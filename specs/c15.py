"""C15: the factor match score is the best score over all component pairings."""
import ast
from pyver.spec import *
from pyver.alg import mk_bind
from pyver import interp

spec = Spec("C15", "Factor match score")
spec.assumptions += [
    "floating-point literals below 1e-12 (the 1e-15 that keeps the normalisation from dividing by zero) are taken to be zero",
    "the components that are compared are non-zero",
    "itertools.permutations(range(n), r) enumerates the r-tuples of distinct elements of range(n)"]
MT = "tenkit.metrics:"
NM = "IJKLMN"
TRUE, EST = "ABCDEF", "PQSTUV"


def setup(I, order, extra=False, one_dim=False):
    I.tiny_zero = True
    ds = [dim(NM[m]) for m in range(order)]
    R = dim("R")
    E = R + dim("X") if extra else R
    nonzero_columns(I, TRUE + EST)
    t = [param_arr(TRUE[m], (d, R)) for m, d in enumerate(ds)]
    e = [param_arr(EST[m], (d, E)) for m, d in enumerate(ds)]
    fr = Frame(I, [(TRUE[m], x) for m, x in enumerate(t)] + [(EST[m], x) for m, x in enumerate(e)])
    return ds, R, E, t, e, fr


def norm(nm, d, r):
    return fn("sqrt", ssum("i", d, lambda i: sq(app(nm, (i, r)))))


def cos(m, d, r, q):
    """absolute cosine similarity of true component r and estimated component q in mode m"""
    return fn("abs", ssum("i", d, lambda i: app(TRUE[m], (i, r)) * app(EST[m], (i, q))) * inv(norm(TRUE[m], d, r)) * inv(norm(EST[m], d, q)))


def weight_factor(ds, r, q):
    a = prod([norm(TRUE[m], d, r) for m, d in enumerate(ds)])
    b = prod([norm(EST[m], d, q) for m, d in enumerate(ds)])
    return ONE - fn("abs", a - b) * inv(fn("max", a, b))


def score(ds, r, q, penalty, modes=None):
    p = weight_factor(ds, r, q) if penalty else ONE
    for m, d in enumerate(ds):
        if modes is None or m in modes:
            p = p * cos(m, d, r, q)
    return p


from pyver.alg import inv


def reduce_(R, red, f):
    if red == "min":
        v, n = index_var("m", R)
        return mk_bind("min", [(n, R)], [f(v)])
    return ssum("r", R, f) * inv(R)


def mk_scores(order, penalty):
    def goal(I):
        ds, R, E, t, e, fr = setup(I, order)
        out = call(I, MT + "_factor_match_score", PList(list(t)), PList(list(e)), weight_penalty=penalty)
        I.oblige_eq("one score per component", seq_len(I, out), R)
        r, = idx(I, (R,))
        I.oblige_eq("score of component r", scalar(seq_get(I, out, r)), score(ds, r, r, penalty))
        fr.check()
    return goal


for o in (1, 2, 3, 4, 5, 6):
    for p in (True, False):
        spec.add(f"component scores, {o} modes{', weight penalty' if p else ''}", mk_scores(o, p))


def pairing(I, R, E, base="pi"):
    """An arbitrary way to pair the R components with distinct ones of E."""
    nm = I.ctx.fresh(base)
    I.ctx.app_int_bounds[nm] = (lambda a: ZERO, lambda a: E)
    return lambda r: app(nm, (to_poly(r),), "int")


def as_tuple(R, pi):
    c = R.const()
    if c is not None:
        return tuple(num(pi(to_poly(k)), "i") for k in range(int(c)))
    return SymTuple(R, lambda j: num(pi(to_poly(j)), "i"))


def same_pairing(I, v, R, pi):
    try:
        if not I.simplify(seq_len(I, v) - R).is_zero():
            return False
        r, = idx(I, (R,), "q")
        return I.simplify(P(seq_get(I, v, r)) - pi(r)).is_zero()
    except (PyRaise, Unsupported, AttributeError, TypeError):
        return False


def best_of_all(I, R, E, value, tag=""):
    """Cut of the loop over all pairings.  Invariant: before the first pairing the best value is below
    every score and no pairing is chosen; afterwards the best value is the largest score of the pairings
    seen and the chosen pairing is one that has it.  value(pi) is the specified score of a pairing."""
    found = {}

    def hook(I, st, it, env):
        val = found["value"]
        tg = found["tag"]
        I.oblige_eq(f"{tg}: pairs components of the second model", it.n, E)
        I.oblige_eq(f"{tg}: one per component of the first model", it.r, R)
        stores = {n.id for x in st.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        top = {t.id for x in st.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
        bound = [n for n in sorted(stores) if n in env.vars]
        carried = [n for n in bound if n not in top]
        nums = [n for n in carried if isnum(env.vars[n])]
        rest = [n for n in carried if n not in nums]
        if len(nums) != 1 or len(rest) != 1 or isinstance(st.target, ast.Tuple):
            raise Unsupported("loop over all pairings that does not carry one score and one pairing")
        m, p = nums[0], rest[0]
        for n in bound:
            if n in top:
                env.set(n, interp.Poison("temporary of the loop over the pairings"))

        def run(pi):
            I.assume(ge0(val(pi)))      # lemma: every score is between 0 and 1
            I.assign(st.target, as_tuple(R, pi), env)
            try:
                I.exec_block(st.body, env)
            except interp.ContinueEx:
                pass
            except interp.BreakEx:
                raise Unsupported("loop over all pairings that can stop early")
            if not isnum(env.vars.get(m)):
                raise Unsupported("the carried score is not a number")
            return P(env.vars[m]), env.vars.get(p)
        ch = I.explorer.choose(3)
        pi = pairing(I, R, E)
        if ch == 0:
            v, q = run(pi)
            I.oblige_eq(f"{tg}: the first pairing sets the best score", v, val(pi))
            I.oblige(f"{tg}: the first pairing is chosen", same_pairing(I, q, R, pi))
            raise interp.PathEnd()
        old = pairing(I, R, E, "best")
        if ch == 1:
            I.assume(ge0(val(old)))
            M = var(I.ctx.fresh("M"), "real")
            I.assume(ind("eqr", M - val(old)))
            env.set(m, num(M, "f"))
            env.set(p, as_tuple(R, old))
            v, q = run(pi)
            I.oblige(f"{tg}: the best score is at least that of the new pairing", ge0(v - val(pi)))
            I.oblige(f"{tg}: the best score does not decrease", ge0(v - M))
            if same_pairing(I, q, R, pi):
                I.oblige(f"{tg}: the best score is that of the chosen pairing", ind("eqr", v - val(pi)))
            elif same_pairing(I, q, R, old):
                I.oblige(f"{tg}: the best score is that of the chosen pairing", ind("eqr", v - M))
            else:
                I.oblige(f"{tg}: the chosen pairing is the new or the old one", False)
            raise interp.PathEnd()
        M = var(I.ctx.fresh("fms"), "real")
        I.assume(ind("eqr", M - val(old)))
        env.set(m, num(M, "f"))
        env.set(p, as_tuple(R, old))
        for n in stores:
            if n not in (m, p) and n in env.vars:
                env.set(n, interp.Poison("temporary of the loop over the pairings"))
        found.setdefault("results", []).append((M, old))
        I.exec_block(st.orelse, env)
    I.ghost_hooks["permutations"] = hook
    found["value"], found["tag"] = value, tag
    return found


def param_arr_of(name, k, shape):
    return new_arr(shape, lambda i: app(name, (to_poly(k),) + tuple(i)), "f")


def mk_best(order, penalty, red, extra, evolving=False):
    def goal(I):
        ds, R, E, t, e, fr = setup(I, order, extra)
        if evolving:
            # (A, B_1 .. B_K, C): scored by A and C; the evolving factor does not enter
            K, J = dims("K J")
            blue = [PList(None, K, lambda k, nm=nm: param_arr_of(nm, k, (J, R_))) for nm, R_ in (("Bt", R), ("Be", E))]
            t, e = [t[0], blue[0], t[1]], [e[0], blue[1], e[1]]
        val = lambda pi: reduce_(R, red, lambda r: score(ds, r, pi(r), penalty))
        found = best_of_all(I, R, E, val, "loop")
        out = I.iter_concrete(call(I, MT + "factor_match_score" + ("_parafac2" if evolving else ""), PList(list(t)), PList(list(e)), weight_penalty=penalty, fms_reduction=red))
        if not I.oblige("a score and a pairing", len(out) == 2) or not I.oblige("all pairings were compared", len(found.get("results", ())) == 1):
            return
        M, old = found["results"][0]
        I.oblige_eq("the score is the best one", scalar(out[0]), M)
        I.oblige("the pairing attains it", same_pairing(I, out[1], R, old))
        fr.check()
    return goal


for o in (1, 2, 3, 4, 5):
    for p in (True, False):
        for red in ("min", "mean"):
            spec.add(f"factor_match_score, {o} modes, {red}{', weight penalty' if p else ''}", mk_best(o, p, red, False))
for p in (True, False):
    for red in ("min", "mean"):
        spec.add(f"factor_match_score_parafac2, {red}{', weight penalty' if p else ''}", mk_best(2, p, red, False, True))
spec.add("factor_match_score, second model with more components", mk_best(3, True, "min", True))
spec.add("factor_match_score, second model with more components, no penalty, mean", mk_best(3, False, "mean", True))


# ---- lemmas about the specified score

@spec.goal("lemma: absolute cosine similarities are between 0 and 1")
def _(I):
    """Lagrange's identity: |a|^2 |b|^2 - <a, b>^2 is half the sum of the squares of the 2x2 minors."""
    d = dim("I")
    a, b = (lambda i: app("a", (i,))), (lambda i: app("b", (i,)))
    saa, sbb, sab = ssum("i", d, lambda i: sq(a(i))), ssum("i", d, lambda i: sq(b(i))), ssum("i", d, lambda i: a(i) * b(i))
    from fractions import Fraction
    minors = nsum((d, d), lambda i, j: sq(a(i) * b(j) - a(j) * b(i)))
    I.oblige_eq("|a|^2 |b|^2 - <a,b>^2 is a sum of squares", saa * sbb - sq(sab), minors * Fraction(1, 2))
    x, na, nb, c = [var(n, "real") for n in ("x", "na", "nb", "c")]
    for n in (na, nb):
        I.assume(ind("gt", n))
    I.assume(ge0(sq(na) * sq(nb) - sq(x)))
    I.assume(ind("eqr", c * na * nb - x))
    I.oblige("then |<a,b>| / (|a| |b|) <= 1", ge0(ONE - fn("abs", c)))
    I.oblige("and >= 0", ge0(fn("abs", c)))


@spec.goal("lemma: the weight factor is between 0 and 1")
def _(I):
    a, b = var("wa", "real"), var("wb", "real")
    I.assume(ind("gt", a))
    I.assume(ind("gt", b))
    w = ONE - fn("abs", a - b) * inv(fn("max", a, b))
    I.oblige("at least 0", ge0(w))
    I.oblige("at most 1", ge0(ONE - w))


@spec.goal("lemma: products, minima and means of numbers in [0, 1]")
def _(I):
    x, y, s, n = [var(k, "real") for k in ("x", "y", "s", "n")]
    for v in (x, y):
        I.assume(ge0(v))
        I.assume(ge0(ONE - v))
    I.oblige("product >= 0", ge0(x * y))
    I.oblige("product <= 1", ge0(ONE - x * y))
    I.assume(ge0(s))
    I.assume(ind("gt", n))
    I.assume(ge0(n - s))
    m = var("m", "real")
    I.assume(ind("eqr", m * n - s))
    I.oblige("mean >= 0", ge0(m))
    I.oblige("mean <= 1", ge0(ONE - m))


def mk_scaled(order, sign, penalty):
    """The scores do not change when the components of either model are scaled (no penalty) or change sign."""
    def goal(I):
        ds, R, E, t, e, fr = setup(I, order)
        f = lambda nm: (lambda r: fn("sign", app(nm, (r,)))) if sign else (lambda r: app(nm, (r,)))
        def nz(p):
            a = single_app(p)
            if a is None and len(p.t) == 1:
                (mono, _), = p.t.items()
                if len(mono) == 1 and mono[0][0].kind == "fn" and mono[0][0].data[0] == "abs":
                    a = single_app(mono[0][0].data[1][0])
            return a is not None and a.data[0][:2] in ("sa", "sb")
        I.ctx.nonzero_rules.append(nz)
        I.ctx.ind_rules.append(lambda ck, p: False if ck == "eqr" and nz(p) else None)
        I.ctx.invalidate()
        scaled = lambda arrs, ch: [new_arr((d, R), lambda ix, m=m, rd=a.snapshot(): rd(ix) * f(f"s{ch}{m}")(ix[1])) for m, (d, a) in enumerate(zip(ds, arrs))]
        out = call(I, MT + "_factor_match_score", PList(scaled(t, "a")), PList(scaled(e, "b")), weight_penalty=penalty)
        r, = idx(I, (R,))
        I.oblige_eq("score of component r", scalar(seq_get(I, out, r)), score(ds, r, r, penalty))
    return goal


for o in (1, 3):
    spec.add(f"scaling the components does not change the scores, {o} modes", mk_scaled(o, False, False))
    spec.add(f"flipping signs does not change the scores, {o} modes", mk_scaled(o, True, False))
    spec.add(f"flipping signs does not change the scores, {o} modes, weight penalty", mk_scaled(o, True, True))


def mk_separate(order, red, extra=False):
    def goal(I):
        ds, R, E, t, e, fr = setup(I, order, extra)
        found = best_of_all(I, R, E, None, "loop")
        mode = lambda: len(found.get("results", ()))
        found["value"] = lambda pi: reduce_(R, red, lambda r: score(ds, r, pi(r), False, modes=(mode(),)))
        out = I.iter_concrete(call(I, MT + "separate_mode_factor_match_score", PList(list(t)), PList(list(e)), fms_reduction=red))
        if not I.oblige("scores and pairings", len(out) == 2) or not I.oblige("all pairings were compared in every mode", mode() == order):
            return
        ss, ps = I.iter_concrete(out[0]), I.iter_concrete(out[1])
        if not I.oblige("one score and one pairing per mode", len(ss) == order and len(ps) == order):
            return
        for m in range(order):
            M, old = found["results"][m]
            I.oblige_eq(f"the score of mode {m} is the best one", scalar(ss[m]), M)
            I.oblige(f"the pairing of mode {m} attains it", same_pairing(I, ps[m], R, old))
        fr.check()
    return goal


for o in (1, 2, 3):
    for red in ("min", "mean"):
        spec.add(f"separate_mode_factor_match_score, {o} modes, {red}", mk_separate(o, red), limit=2000)
spec.add("separate_mode_factor_match_score, second model with more components", mk_separate(2, "min", True), limit=2000)


# ---- the methods of the decompositions pass on their factors

class Recorded:
    """Contract of a metric whose own obligations are discharged above: records its arguments and returns
    a score and a pairing about which nothing is known."""

    def __init__(self, I, calls):
        self.calls = calls

    def apply(self, I, f, args, kw):
        a = I.bind_args(f, args, dict(kw))
        self.calls.append((f.name, a))
        return (num(var("score", "real"), "f"), "the pairing")


def passes_on(I, name, out, calls, metric, first, second, penalty, red):
    """out is what the metric returned for the factors of both decompositions (given by readers)."""
    if not I.oblige(f"{name}: one call of the metric", len(calls) == 1 and calls[0][0] == metric):
        return
    a = calls.pop()[1]
    for who, key, exp in (("first", "true_factors", first), ("second", "estimated_factors", second)):
        L = I.iter_concrete(a[key])
        if not I.oblige(f"{name}: three factors of the {who} model", len(L) == len(exp)):
            return
        for m, (g, (sh, f)) in enumerate(zip(L, exp)):
            if callable(f):
                oblige_array(I, f"{name}: factor {m} of the {who} model", g, sh, f)
            else:
                k, jk, off, b, R = f        # stacked factors: row off + j is row j of factor k
                if oblige_shape(I, f"{name}: stacked factor of the {who} model", g, sh):
                    j, r = idx(I, (jk, R))
                    I.oblige_eq(f"{name}: stacked factor of the {who} model", g.at((off + j, r)), b(k, j, r))
    if penalty is not None:
        I.oblige(f"{name}: weight_penalty passed on", a["weight_penalty"] is penalty)
    I.oblige(f"{name}: fms_reduction passed on", a["fms_reduction"] == red)
    o = I.iter_concrete(out)
    I.oblige(f"{name}: returns what the metric returned", len(o) == 2 and o[1] == "the pairing" and isnum(o[0]) and (P(o[0]) - var("score", "real")).is_zero())


def contracts_of(calls):
    r = Recorded(None, calls)
    return {"tenkit.metrics.factor_match_score": r, "tenkit.metrics.separate_mode_factor_match_score": r}


OPTIONS = [({}, True, "min"), ({"weight_penalty": False}, False, "min"), ({"weight_penalty": False, "fms_reduction": "mean"}, False, "mean")]


def mk_kruskal(order):
    def goal(I):
        calls = []
        I.contracts = contracts_of(calls)
        ds, R, E, t, e, fr = setup(I, order)
        D = "tenkit.decomposition.decompositions:"
        K1, K2 = call(I, D + "KruskalTensor", PList(list(t))), call(I, D + "KruskalTensor", PList(list(e)))
        first = [((d, R), lambda i, r, m=m: app(TRUE[m], (i, r))) for m, d in enumerate(ds)]
        second = [((d, R), lambda i, r, m=m: app(EST[m], (i, r))) for m, d in enumerate(ds)]
        for kw, pen, red in OPTIONS:
            passes_on(I, "factor_match_score", method(I, K1, "factor_match_score", K2, **kw), calls, "factor_match_score", first, second, pen, red)
        for red in ("min", "mean"):
            passes_on(I, "mode-wise score", method(I, K1, "seperate_mode_factor_match_score", K2, fms_reduction=red), calls,
                      "separate_mode_factor_match_score", first, second, None, red)
        fr.check()
    return goal


for o in (2, 3, 4, 5):
    spec.add(f"KruskalTensor scores, {o} modes", mk_kruskal(o))


def mk_evolving(cls, other):
    def goal(I):
        calls = []
        I.contracts = contracts_of(calls)
        D = "tenkit.decomposition.decompositions:"
        dI, K, R = dims("I K R")

        def model(names, jn, c):
            A, C = param_arr(names[0], (dI, R)), param_arr(names[2], (K, R))
            B3, Bs = ragged(I, names[1], K, jn, R)
            J = lambda k: app(jn, (k,), "int")
            if c == "EvolvingTensor":
                T = call(I, D + c, A, Bs, C)
                b = lambda k, j, r: app(names[1], (k, j, r))
            else:
                bl = names[3]
                T = call(I, D + c, A, param_arr(bl, (R, R)), C, Bs)
                b = lambda k, j, r: ssum("s", R, lambda s: app(names[1], (k, j, s)) * app(bl, (s, r)))
            k, = idx(I, (K,), "k")
            exp = [((dI, R), lambda i, r: app(names[0], (i, r))),
                   ((ssum("k", K, J), R), (k, J(k), ssum("q", k, J), b, R)),
                   ((K, R), lambda k, r: app(names[2], (k, r)))]
            return T, exp, Frame(I, [(names[0], A), (names[1], B3), (names[2], C)])
        T1, first, f1 = model(["A", "B", "C", "BB"], "J", cls)
        T2, second, f2 = model(["P", "Q", "S", "BQ"], "L", other)
        for kw, pen, red in OPTIONS:
            passes_on(I, "factor_match_score", method(I, T1, "factor_match_score", T2, **kw), calls, "factor_match_score", first, second, pen, red)
        for red in ("min", "mean"):
            passes_on(I, "mode-wise score", method(I, T1, "separate_mode_factor_match_score", T2, fms_reduction=red), calls,
                      "separate_mode_factor_match_score", first, second, None, red)
        f1.check()
        f2.check()
    return goal


for a, b in (("EvolvingTensor", "EvolvingTensor"), ("Parafac2Tensor", "Parafac2Tensor"), ("Parafac2Tensor", "EvolvingTensor")):
    spec.add(f"{a} scored against {b}", mk_evolving(a, b))


@spec.goal("mode-wise score against a Kruskal tensor")
def _(I):
    calls = []
    I.contracts = contracts_of(calls)
    D = "tenkit.decomposition.decompositions:"
    dI, K, R, Jd = dims("I K R J0")
    A, C, B = param_arr("A", (dI, R)), param_arr("C", (K, R)), param_arr("B", (K, Jd, R))
    T = call(I, D + "EvolvingTensor", A, B, C)
    fs = [param_arr(n, (d, R)) for n, d in zip("PQS", (dI, Jd, K))]
    w = param_arr("w", (R,))
    Kt = call(I, D + "KruskalTensor", PList(fs), w)
    k, = idx(I, (K,), "k")
    first = [((dI, R), lambda i, r: app("A", (i, r))), ((K * Jd, R), (k, Jd, k * Jd, lambda k, j, r: app("B", (k, j, r)), R)), ((K, R), lambda k, r: app("C", (k, r)))]
    second = [((dI, R), lambda i, r: app("P", (i, r)) * app("w", (r,))), ((K * Jd, R), (k, Jd, k * Jd, lambda k, j, r: app("Q", (j, r)), R)), ((K, R), lambda k, r: app("S", (k, r)))]
    passes_on(I, "mode-wise score", method(I, T, "separate_mode_factor_match_score", Kt), calls, "separate_mode_factor_match_score", first, second, None, "min")
