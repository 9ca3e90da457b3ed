"""Invariant cut of the fitting loop: the body is verified once from an arbitrary state that satisfies the loop
invariant (and once from the actual entry state); what follows the loop is verified from any exit state.

The goals supply, for g completed iterations since the loop was entered,
  state(I, g)  puts the objects into an arbitrary state satisfying the invariant,
  head(I, g)   is called before an iteration is attempted (takes snapshots),
  after(I, g)  checks the invariant for g + 1 completed iterations and what the iteration must have done,
  done(I, g, how)  is told how the loop was left.
"""
import ast
from pyver.spec import *
from pyver import vals, alg, interp, builtins_
from pyver.alg import int_lt, int_ge
from pyver.vals import Unsupported
from pyver.interp import BreakEx, ContinueEx, PathEnd

C = "tenkit.decomposition."
D = C + "decompositions:"


def fnum(p, k="f"):
    return vals.num(to_poly(p), k)


class Cut:
    def __init__(self, I, markers, state, head, after, bound):
        self.I, self.markers = I, markers
        self.state, self.head, self.after, self.bound = state, head, after, bound
        self.exit = None            # (g, how) once the loop has been left
        I.loop_hooks["*"] = self

    def __call__(self, I, st, it, env):
        if it is not None:
            s = I.as_seq(it)
            if isinstance(s, list) or not any(v in s.n.fv for v in self.markers):
                return NotImplemented
            n = s.n
        else:
            names = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(st.test) if isinstance(x, ast.Attribute)}
            if env.func.name not in ("_fit", "fit", "continue_fit") and "max_its" not in names:
                return NotImplemented
            n = None
        if self.exit is not None:
            raise Unsupported("a second fitting loop")
        assigned = {x.id for b in st.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        target = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if it is not None else set()
        carried = sorted(v for v in assigned - target if v in env.vars)
        entry = {v: env.vars[v] for v in carried}
        for v in carried:
            if not (isnum(entry[v]) and kind(entry[v]) == "i"):
                raise Unsupported(f"local variable {v} carried by the fitting loop")
        if I.branch(int_eq(var("cut case", "int"), ZERO)):
            g = ZERO
        else:
            g = var("g", "int")
            I.assume(int_ge(g, ONE))
            I.assume(int_ge(self.bound, g))
            if n is not None:
                I.assume(int_ge(n, g))
            self.state(I, g)
            for v in carried:
                env.set(v, fnum(P(entry[v]) + g, "i"))
        if n is not None:
            more = I.branch(int_lt(g, n))
        else:
            more = I.truth(I.ev(st.test, env))
        self.head(I, g)
        if not more:
            self.exit = (g, "end")
            I.exec_block(st.orelse, env)
            return
        if it is not None:
            I.assign(st.target, s.getf(g), env)
        try:
            self.exit = (g, "inside")
            I.exec_block(st.body, env)
        except ContinueEx:
            pass
        except BreakEx:
            self.exit = (g, "break")
            return
        for v in carried:
            w = env.vars.get(v)
            if not (isnum(w) and (P(w) - P(entry[v]) - g - 1).is_zero()):
                raise Unsupported(f"local variable {v} carried by the fitting loop")
        I.oblige("never more iterations than the budget", int_ge(self.bound, g + 1))
        self.after(I, g)
        raise PathEnd()


class Stub:
    def __init__(self, f):
        self.f, self.hits = f, 0

    def apply(self, I, f, a, kw):
        return self.f(I, a, kw)


DATA = {"dtype": "f", "start": "f"}


def data_arr(name, shape):
    """A data array (of the type in force)."""
    return vals.Arr(vals.Buf([to_poly(d) for d in shape], lambda ix: app(name, tuple(ix)), DATA["dtype"], name))


def start_arr(name, shape):
    """An array of an initial decomposition (of the type in force)."""
    return vals.Arr(vals.Buf([to_poly(d) for d in shape], lambda ix: app(name, tuple(ix)), DATA["start"], name))


def integer_data(goal, what="dtype"):
    """The same goal for data of an integer type."""
    def run(I):
        DATA[what] = "i"
        try:
            return goal(I)
        finally:
            DATA[what] = "f"
    return run


def integer_start(goal):
    """The same goal for an initial decomposition of an integer type (its factors are copied)."""
    return integer_data(goal, "start")


def overwrite(I, arr, name):
    """Arbitrary new contents of an array (in place)."""
    src = fresh_arr(name, arr.shape)[0]
    I.setitem(arr, Ellipsis, src)


def cp_contents(I, m):
    K = attr(I, m, "decomposition")
    return I.iter_concrete(attr(I, K, "factor_matrices")) + [attr(I, K, "weights")]


def pf_contents(I, m):
    d = attr(I, m, "decomposition")
    return [attr(I, d, "A"), attr(I, d, "blueprint_B"), attr(I, d, "C"), seq_get(I, attr(I, d, "projection_matrices"), ZERO)]


def rep(I, arrs):
    """Stands for the whole contents: opaque functions of it are functions of these entries."""
    return tuple(a.at(tuple(ZERO for _ in a.shape)) for a in arrs)


class CPWorld:
    """A CP_ALS model whose updates and error are known by their contracts only: an update may put anything into
    the factor matrices (C05), the error is a positive function of the decomposition and the target (C06)."""
    cls = "cp:CP_ALS"
    ATTRS = set("""max_its convergence_tol checkpoint_frequency checkpoint_path print_frequency loggers rank init ridge_penalties rel_loss_tol
        non_negativity_constraints orthonormality_constraints current_iteration X X_norm _last_updated_mode decomposition _rel_function_change
        prev_SSE _matrix_khatri_rao_product_cache""".split())
    monitored = "SSE"

    def __init__(self, order=3):
        self.order = order
        self.updates = 0

    def contracts(self):
        def update(I, a, kw):
            self.updates += 1
            for k, f in enumerate(cp_contents(I, a[0])[:-1]):
                overwrite(I, f, "U%d" % k)

        def sse(I, a, kw):
            v = app("SSE", rep(I, cp_contents(I, a[0])) + rep(I, [attr(I, a[0], "X")]))
            I.assume(ind("gt", v))
            return fnum(v)
        return {C + "cp.CP_ALS._update_als_factors": Stub(update), C + "cp.BaseCP.SSE": Stub(sse)}

    needed = (C + "cp.CP_ALS._update_als_factors", C + "cp.BaseCP.SSE")

    def reset(self):
        self.updates = 0

    def model(self, I, weights=False, **kw):
        self.reset()
        R = dim("R")
        self.ds = [dim("IJKLMN"[k]) for k in range(self.order)]
        self.fs = [start_arr(LETTERS[k], (d, R)) for k, d in enumerate(self.ds)]
        K = call(I, D + "KruskalTensor", PList(list(self.fs)), *([param_arr("w", (R,))] if weights else []))
        X = data_arr("X", self.ds)
        self.X, self.K = X, K
        m = call(I, C + self.cls, fnum(R, "i"), init="precomputed", **kw)
        return m

    def again(self, I):
        """Another initial decomposition."""
        R = dim("R")
        self.fs = [param_arr("again" + LETTERS[k], (d, R)) for k, d in enumerate(self.ds)]
        self.K = call(I, D + "KruskalTensor", PList(list(self.fs)))

    def start(self, I, m, name="fit", **kw):
        """Calls a fitting method with the data."""
        return method(I, m, name, self.X, **kw)

    def decomposed(self, I, m):
        """The contents of the decomposition."""
        return self.contents(I, m)

    def any_state(self, I, m):
        for k, f in enumerate(self.contents(I, m)[:self.order]):
            overwrite(I, f, "E%d" % k)

    keeps = True        # what follows the loop leaves the decomposition alone

    def norm_positive(self, I, m):
        I.assume(ind("gt", P(attr(I, m, "X_norm"))))

    def contents(self, I, m):
        return cp_contents(I, m)

    def havoc(self, I, m, g, c0):
        have = set(m.attrs)
        if not have <= self.ATTRS:
            raise Unsupported(f"unknown representation: {sorted(have - self.ATTRS)}")
        self.check_type(I, m)
        for k, f in enumerate(self.contents(I, m)[:self.order]):
            overwrite(I, f, "V%d" % k)
        S = P(attr(I, m, self.monitored))
        prev = var("Sprev")
        I.assume(ind("gt", prev))
        I.setattr(m, "current_iteration", fnum(c0 + g, "i"))
        I.setattr(m, "_rel_function_change", fnum((prev - S) * alg.inv(prev)))
        I.setattr(m, self.prev_name, fnum(S))

    prev_name = "prev_SSE"

    def check_type(self, I, m):
        pass

    def stop(self, I, m):
        """The documented stopping rule in the current state (0/1)."""
        rel = attr(I, m, "_rel_function_change")
        tol = P(attr(I, m, "convergence_tol"))
        s = ZERO if interp_is_inf(rel) else ind("gt", tol - alg.fn("abs", P(rel)))
        return b_or(s, self.good(I, m))

    def good(self, I, m):
        n = P(attr(I, m, "X_norm"))
        return ind("gt", P(attr(I, m, "rel_loss_tol")) - P(attr(I, m, "SSE")) * alg.inv(n * n))


def interp_is_inf(v):
    from pyver.ops import is_inf
    return is_inf(v)


class CMTFWorld(CPWorld):
    """A coupled model: tensor and matrices; an update may put anything into the shared and the uncoupled factors, the
    error is a positive function of the reconstructed tensor and the reconstructed matrices (C18)."""
    cls = "cmtf:CMTF_ALS"
    ATTRS = CPWorld.ATTRS | set("coupled_matrices coupling_modes mode_to_cm_idx uncoupled_factor_matrices coupled_weights".split())
    needed = (C + "cmtf.CMTF_ALS._update_als_factors", C + "cmtf.CMTF_ALS.SSE")
    keeps = False       # the final normalisation
    modes = (0, 1, 1)

    def contracts(self):
        def update(I, a, kw):
            self.updates += 1
            for k, f in enumerate(cp_contents(I, a[0])[:-1]):
                overwrite(I, f, "U%d" % k)
            for c, v in enumerate(uncoupled(I, a[0])):
                overwrite(I, v, "UF%d" % c)

        def sse(I, a, kw):
            *fs, W = cp_contents(I, a[0])
            vs = uncoupled(I, a[0])
            R = W.shape[0]
            recs = [ssum("r", R, lambda r: W.at((r,)) * prod([f.at((ZERO, r)) for f in fs]))]
            recs += [ssum("r", R, lambda r: fs[k].at((ZERO, r)) * v.at((ZERO, r))) for k, v in zip(self.modes, vs)]
            v = app("SSE", tuple(recs) + rep(I, [attr(I, a[0], "X")] + I.iter_concrete(attr(I, a[0], "coupled_matrices"))))
            I.assume(ind("gt", v))
            return fnum(v)
        return {self.needed[0]: Stub(update), self.needed[1]: Stub(sse)}

    def start(self, I, m, name="fit", **kw):
        self.Ys = [param_arr("Y%d" % c, (self.ds[k], dim("Q%d" % c))) for c, k in enumerate(self.modes)]
        nonzero(I, "Ew")
        return method(I, m, name, self.X, coupled_matrices=PList(list(self.Ys)), coupling_modes=PList([fnum(to_poly(k), "i") for k in self.modes]), **kw)

    def decomposed(self, I, m):
        return cp_contents(I, m)

    def any_state(self, I, m):
        super().any_state(I, m)
        W = cp_contents(I, m)[-1]
        I.setitem(W, Ellipsis, param_arr("Ew", W.shape))
        for c, v in enumerate(uncoupled(I, m)):
            overwrite(I, v, "F%d" % c)

    def contents(self, I, m):
        *fs, W = cp_contents(I, m)
        return fs + [W] + uncoupled(I, m)

    def havoc(self, I, m, g, c0):
        for c, v in enumerate(uncoupled(I, m)):
            overwrite(I, v, "VF%d" % c)
        super().havoc(I, m, g, c0)


def uncoupled(I, m):
    return I.iter_concrete(attr(I, m, "uncoupled_factor_matrices"))


def nonzero(I, name):
    """The entries of the array parameter `name` are not zero."""
    def rule(ck, p):
        if ck in ("eqr", "nz") and len(p.t) == 1:
            (mm, c), = p.t.items()
            if len(mm) == 1 and mm[0][0].kind == "app" and mm[0][0].data[0] == name:
                return False
    I.ctx.ind_rules.append(rule)
    I.ctx.nonzero_rules.append(lambda p: rule("eqr", to_poly(p)) is False)
    I.ctx.invalidate()


class PFWorld(CPWorld):
    cls = "parafac2:Parafac2_ALS"
    ATTRS = set("""max_its convergence_tol checkpoint_frequency checkpoint_path print_frequency loggers rank init ridge_penalties cp_updates_per_it
        non_negativity_constraints orthonormality_constraints current_iteration X X_shape X_norm num_X_elements target_tensor decomposition
        _rel_function_change prev_loss cp_decomposer cp_decomposition""".split())
    monitored = "loss"
    prev_name = "prev_loss"
    needed = (C + "parafac2.Parafac2_ALS._update_parafac2_factors", C + "parafac2.BaseParafac2.SSE")

    def __init__(self):
        self.updates = 0
        self.order = 4

    def contracts(self):
        def update(I, a, kw):
            self.updates += 1
            for k, f in enumerate(pf_contents(I, a[0])[:3]):
                overwrite(I, f, "U%d" % k)
            overwrite(I, self.Ps, "UP")

        def sse(I, a, kw):
            v = app("SSE", rep(I, pf_contents(I, a[0])) + rep(I, [self.X]))
            I.assume(ind("gt", v))
            return fnum(v)
        noop = Stub(lambda I, a, kw: None)
        return {C + "parafac2.Parafac2_ALS._update_parafac2_factors": Stub(update), C + "parafac2.BaseParafac2.SSE": Stub(sse),
                C + "parafac2.Parafac2_ALS._prepare_cp_decomposer": noop}

    def model(self, I, weights=False, **kw):
        self.reset()
        self.tensor(I, "")
        R, dI, dJ, dK = dims("R I J K")
        self.X = data_arr("X", (dI, dJ, dK))
        return call(I, C + self.cls, fnum(R, "i"), init="precomputed", **kw)

    def tensor(self, I, tag):
        R, dI, dJ, dK = dims("R I J K")
        A, B, Cc = param_arr(tag + "A", (dI, R)), param_arr(tag + "B", (R, R)), param_arr(tag + "C", (dK, R))
        Ps = self.Ps = param_arr(tag + "P", (dK, dJ, R))
        self.fs = [A, B, Cc, Ps]
        self.K = call(I, D + "Parafac2Tensor", A, B, Cc, PList(None, dK, lambda k: I.getitem(Ps, fnum(k, "i"))))

    def again(self, I):
        self.tensor(I, "again")

    def contents(self, I, m):
        return pf_contents(I, m)[:3] + [self.Ps]

    def havoc(self, I, m, g, c0):
        super().havoc(I, m, g, c0)

    def good(self, I, m):
        return ZERO


def snapshot(arrs):
    return [(a, a.snapshot()) for a in arrs]


def oblige_same(I, name, snap):
    for k, (a, rd) in enumerate(snap):
        ix = idx(I, a.shape)
        I.oblige_eq(f"{name} ({k})", a.at(ix), rd(ix))


def require_contracts(I, w):
    for n in w.needed:
        if n not in I.used_contracts:
            raise Unsupported(f"{n} is not called any more: the goal does not apply to this code")
