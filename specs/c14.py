"""C14: the iteration budget and the stopping rules."""
from specs.fitloop import *

spec = Spec("C14", "Iteration budget and stopping rules")


def mk(world, entry, budget, pf, wt=False):
    def goal(I):
        w = world
        B0, B1 = var("max_its", "int"), var("max_its2", "int")
        kw = dict(max_its=fnum(B0, "i"), convergence_tol=fnum(var("tol")))
        if w.monitored == "SSE":
            kw["rel_loss_tol"] = fnum(var("rel_tol"))
        if pf == "any":
            p = var("pf", "int")
            kw["print_frequency"] = fnum(p, "i")
        else:
            kw["print_frequency"] = pf
        m = w.model(I, weights=wt, **kw)
        B = B1 if budget else B0
        give = {"max_its": fnum(B1, "i")} if budget else {}
        st = {}

        def head(I, g):
            st["g"] = g
            st["stop"] = w.stop(I, m)
            st["S"] = P(attr(I, m, w.monitored))
            st["snap"] = snapshot(w.contents(I, m))
            st["updates"] = w.updates
            st["c"] = P(attr(I, m, "current_iteration"))
            rel = attr(I, m, "_rel_function_change")
            if entry != "continue" and g.is_zero() and not interp_is_inf(rel):
                I.oblige_eq("before the first iteration there is no change yet", st["stop"], w.good(I, m))

        def after(I, g):
            require_contracts(I, w)
            I.oblige("an iteration is made only if no stopping rule holds", ONE - st["stop"])
            I.oblige("exactly one update per iteration", w.updates == st["updates"] + 1)
            I.oblige_eq("iterations are counted", P(attr(I, m, "current_iteration")), st["c"] + 1)
            S = P(attr(I, m, w.monitored))
            rel = attr(I, m, "_rel_function_change")
            I.oblige_eq("relative change of the monitored error", P(rel), (st["S"] - S) * alg.inv(st["S"]))
            I.oblige_eq("remembered error", P(attr(I, m, w.prev_name)), S)

        if entry == "checkpoint":
            I.assume(ind("ge", var("it", "int")))
            path = "start.file"
            m0 = call(I, C + w.cls, fnum(dim("R"), "i"), checkpoint_path=path)
            I.setattr(m0, "decomposition", w.K)
            method(I, m0, "store_checkpoint", fnum(var("it", "int"), "i"))
            I.setattr(m, "init", "from_checkpoint")
            c0, init = var("it", "int") + 1, None
        elif entry == "continue":
            w.start(I, m, initial_decomposition=w.K, max_its=0)
            if not set(m.attrs) <= w.ATTRS:
                raise Unsupported("unknown representation")
            c0 = int_var(I, "c0")
            w.any_state(I, m)
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", fnum(var("rel0")))
            I.setattr(m, w.prev_name, attr(I, m, w.monitored))
            I.setattr(m, "max_its", fnum(B0, "i"))
            init = snapshot(w.contents(I, m))
        else:
            c0 = ZERO
            if entry == "refit":        # an earlier fit left any state behind; the same target again
                w.start(I, m, initial_decomposition=w.K, max_its=0)
                if not set(m.attrs) <= w.ATTRS:
                    raise Unsupported("unknown representation")
                w.any_state(I, m)
                I.setattr(m, "current_iteration", fnum(int_var(I, "c_old"), "i"))
                I.setattr(m, "_rel_function_change", fnum(var("rel_old")))
                I.setattr(m, w.prev_name, fnum(var("prev_old")))
                I.setattr(m, "max_its", fnum(B0, "i"))
                w.again(I)
                w.updates = 0
            init = snapshot(w.fs) if not wt else None
        cut = Cut(I, ("max_its", "max_its2"), lambda I, g: w.havoc(I, m, g, c0), head, after, B - c0)
        if entry == "continue":
            w.norm_positive(I, m)
            method(I, m, "continue_fit", **give)
        else:
            assume_norm(I, w)
            how = entry
            if entry == "checkpoint":
                give["initial_decomposition"] = path
            give.setdefault("initial_decomposition", w.K)
            if how == "fit_transform":
                r = w.start(I, m, "fit_transform", **give)
                if isinstance(r, tuple) and not w.keeps:
                    r = r[0]
                I.oblige("the decomposition is returned", r is attr(I, m, "decomposition"))
            else:
                w.start(I, m, **give)
        if cut.exit is None:
            I.oblige("without a loop: the budget is used up", int_ge(ZERO, B - c0))
            G, upd = ZERO, 0
            I.oblige("no update", w.updates == 0)
        else:
            G, how = cut.exit
            I.oblige("stops only when a rule holds or the budget is used up", b_or(st["stop"], int_ge(G, B - c0)))
            I.oblige("no update in the attempt that stops", w.updates == st["updates"])
            if w.keeps:
                oblige_same(I, "stopping leaves the decomposition alone", st["snap"])
        I.oblige_eq("number of iterations made", P(attr(I, m, "current_iteration")), c0 + G)
        if w.keeps and init is not None and I.prove(int_eq(G, ZERO)):
            oblige_same(I, "no iteration leaves the decomposition as initialised", init)
        I.oblige_eq("the budget in force", P(attr(I, m, "max_its")), B)
    return goal


def assume_norm(I, w):
    sq_ = nsum(w.X.shape, lambda *ix: w.X.at(ix) ** 2)
    I.assume(ind("gt", sq_))


def add(nm, world, **kw):
    for entry in ("fit", "fit_transform", "continue", "refit") + (("checkpoint",) if nm == "CP" else ()):
        for budget in (False, True):
            for pf in (-1, "any") if entry in ("fit", "continue", "checkpoint") else (None,):
                spec.add(f"{nm}: {entry}, budget {'given' if budget else 'of the model'}, print_frequency {pf}", mk(world, entry, budget, pf, **kw), contracts=world.contracts())


add("CP", CPWorld(3))
add("CP, two modes, with weights", CPWorld(2), wt=True)
add("PARAFAC2", PFWorld())
add("CMTF", CMTFWorld(3))
add("CMTF, two modes, with weights", CMTFWorld(2), wt=True)
