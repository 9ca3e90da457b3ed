"""Run a verification goal over all paths."""
import sys
import time
from . import alg, z3back, interp, vals
from .alg import Undecided
from .vals import PyRaise, Unsupported

sys.setrecursionlimit(20000)


class Result:
    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.infeasible = 0
        self.unsupported = []
        self.definedness = []
        self.definedness_ok = 0
        self.executed = set()
        self.externals = set()
        self.used_contracts = set()
        self.time = 0.0
        self.solver_time = 0.0
        self.vacuous = 0
        self.assumed = []

    @property
    def failed(self):
        return [o for o in self.obligations if not o["ok"]]

    @property
    def ok(self):
        return not self.failed and not self.unsupported and self.obligations


def run_goal(name, goal, repo, contracts=None, limit=400, deadline=None, configure=None):  # noqa
    """goal(I) executes real code through the interpreter and records obligations."""
    res = Result(name)
    ex = interp.Explorer(limit)
    t0 = time.time()
    st0 = z3back.STATS["time"]
    while True:
        ctx = alg.set_ctx(alg.Ctx())
        orc = z3back.Oracle(ctx)
        ctx.oracle = orc
        I = interp.Interp(repo, ex, ctx, orc, contracts)
        if configure:
            configure(I)
        vacuous = False
        try:
            goal(I)
            feas, _ = orc.feasible()
            if feas:
                res.paths += 1
            else:
                vacuous = True
                res.vacuous += 1
        except interp.PathEnd:
            res.infeasible += 1
        except PyRaise as e:
            if e.etype == "Infeasible":
                res.infeasible += 1
            else:
                feas, _ = orc.feasible()
                if feas:
                    res.obligations.append({"name": f"{name}: no unexpected exception", "ok": False, "how": "path",
                                            "cond": f"{e.etype} {e.eargs} at {I.where()} under {[alg.pretty(p) for p in ctx.pc][:6]}", "model": None})
                else:
                    res.infeasible += 1
        except Undecided as e:
            res.unsupported.append(f"{type(e).__name__}: {e} at {I.where()}")
        except RecursionError:
            res.unsupported.append(f"recursion limit at {I.where()}")
        if not vacuous:
            res.obligations += I.obligations
        res.definedness += I.definedness
        res.definedness_ok += I.definedness_ok
        res.executed |= I.executed
        res.externals |= I.externals_used
        res.used_contracts |= I.used_contracts
        res.assumed += I.assumed
        if deadline and time.time() > deadline:
            res.unsupported.append("time limit")
            break
        try:
            if not ex.advance():
                break
        except Undecided as e:
            res.unsupported.append(str(e))
            break
    res.time = time.time() - t0
    res.solver_time = z3back.STATS["time"] - st0
    return res
