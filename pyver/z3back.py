"""z3 back end: bounds, path feasibility and arithmetic goals over opaque terms.

Every query is a fresh solver with a deterministic resource limit, holding the
path condition, the ranges of the variables that occur, defining facts of the
interpreted functions (sqrt, abs, sign, div, mod, inverse) and the instances of
the universally quantified facts whose trigger occurs in the query.  Sums and
binders are opaque constants (their normal form is their identity).
"""
import time
import z3
from . import alg
from .alg import Undecided

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}
RLIMIT_INT = 600000
RLIMIT_GOAL = 6000000


class Conv:
    def __init__(self, ctx):
        self.ctx = ctx
        self.consts = {}
        self.funs = {}
        self.side = []
        self.seen = set()
        self.queue = []
        self.apps_seen = {}

    def const(self, key, sort):
        k = (key, sort)
        c = self.consts.get(k)
        if c is None:
            nm = f"t{len(self.consts)}"
            c = z3.Int(nm) if sort == "int" else z3.Bool(nm) if sort == "bool" else z3.Real(nm)
            self.consts[k] = c
        return c

    def poly(self, p, want=None):
        """z3 term; Int if p is integer-sorted, else Real."""
        isint = p.sort_is_int()
        terms = []
        for m, c in p.t.items():
            fs = []
            for a, e in m:
                x = self.atom(a)
                if not isint and x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                fs += [x] * e
            if isint:
                cc = z3.IntVal(int(c))
            else:
                cc = z3.RealVal(str(c))
            if not fs:
                terms.append(cc)
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else cc * t)
        if not terms:
            r = z3.IntVal(0) if isint else z3.RealVal(0)
        else:
            r = terms[0] if len(terms) == 1 else z3.Sum(terms)
        if want == "real" and r.sort() == z3.IntSort():
            r = z3.ToReal(r)
        return r

    def atom(self, a):
        k = a.kind
        if k == "v":
            x = self.const(a.key, "int" if a.sort == "int" else "real")
            if a.key not in self.seen:
                self.seen.add(a.key)
                n = a.data[0]
                if a.sort == "int":
                    if n in self.ctx.bounds:
                        self.side.append(x >= 0)
                        self.side.append(x < self.poly(self.ctx.bounds[n]))
                    if n in self.ctx.lower:
                        self.side.append(x >= self.ctx.lower[n])
            return x
        if k == "app":
            return self.app(a)
        if k == "ind":
            x = z3.If(self.cond(a.data[0], a.data[1]), z3.IntVal(1), z3.IntVal(0))
            return x
        if k == "fd" or k == "md":
            p, d = a.data
            if a.key not in self.seen:
                self.seen.add(a.key)
                q = self.const(f"fd[{p.key},{d.key}]", "int")
                r = self.const(f"md[{p.key},{d.key}]", "int")
                P, D = self.poly(p), self.poly(d)
                self.side.append(z3.Implies(D > 0, z3.And(P == D * q + r, r >= 0, r < D)))
            return self.const(a.key, "int")
        if k == "inv":
            x = self.const(a.key, "real")
            if a.key not in self.seen:
                self.seen.add(a.key)
                P = self.poly(a.data[0], "real")
                self.side.append(z3.Implies(P != 0, x * P == 1))
                self.side.append(z3.Implies(P > 0, x > 0))
                self.side.append(z3.Implies(P < 0, x < 0))
            return x
        if k == "fn":
            n = a.data[0]
            x = self.const(a.key, a.sort)
            if a.key not in self.seen:
                self.seen.add(a.key)
                args = [self.poly(q, None if a.sort == "int" else "real") for q in a.data[1]]
                if n == "sqrt":
                    self.side.append(x >= 0)
                    self.side.append(z3.Implies(args[0] >= 0, x * x == args[0]))
                    self.side.append(z3.Implies(args[0] == 0, x == 0))
                    self.side.append(z3.Implies(args[0] > 0, x > 0))
                elif n == "abs":
                    self.side.append(x == z3.If(args[0] >= 0, args[0], -args[0]))
                elif n == "sign":
                    self.side.append(x == z3.If(args[0] > 0, z3.RealVal(1), z3.If(args[0] < 0, z3.RealVal(-1), z3.RealVal(0))))
                elif n == "max":
                    self.side.append(z3.And(*[x >= q for q in args], z3.Or(*[x == q for q in args])))
                elif n == "min":
                    self.side.append(z3.And(*[x <= q for q in args], z3.Or(*[x == q for q in args])))
            return x
        if k == "sum":
            x = self.const(a.key, a.sort)
            if a.key not in self.seen:
                self.seen.add(a.key)
                vs, m = a.data
                if alg._sos_mono(m) or all(alg._int_atom_nonneg(b) for b, _ in m):
                    self.side.append(x >= 0)
                self.ctx_sum_facts(a, x)
            return x
        if k == "bind":
            x = self.const(a.key, a.sort)
            if a.key not in self.seen:
                self.seen.add(a.key)
                f = self.ctx.bind_facts.get(a.data[0]) if hasattr(self.ctx, "bind_facts") else None
                if f is not None:
                    for q in f(a):
                        self.queue.append(q)
            return x
        raise AssertionError(k)

    def ctx_sum_facts(self, a, x):
        for f in getattr(self.ctx, "sum_facts", ()):
            for q in f(a):
                self.queue.append(q)

    def app(self, a):
        n, args = a.data
        sort = a.sort
        if not args:
            x = self.const(a.key, sort)
        else:
            k = (n, len(args), sort)
            F = self.funs.get(k)
            zs = [self.poly(q) for q in args]
            doms = [z.sort() for z in zs]
            if F is None:
                rs = z3.IntSort() if sort == "int" else z3.BoolSort() if sort == "bool" else z3.RealSort()
                F = z3.Function(f"f{len(self.funs)}_{len(args)}", *doms, rs)
                self.funs[k] = F
            zs = [z3.ToReal(z) if (F.domain(i) == z3.RealSort() and z.sort() == z3.IntSort()) else z
                  for i, z in enumerate(zs)]
            try:
                x = F(*zs)
            except z3.Z3Exception:
                x = self.const(a.key, sort)
        if a.key not in self.seen:
            self.seen.add(a.key)
            self.apps_seen[a.key] = a
            b = self.ctx.app_int_bounds.get(n)
            if b is not None and sort == "int":
                lo = b[0](args) if b[0] is not None else None
                hi = b[1](args) if b[1] is not None else None
                if lo is not None:
                    self.side.append(x >= self.poly(lo))
                if hi is not None:
                    self.side.append(x < self.poly(hi))
            f = self.ctx.app_facts.get(n)
            if f is not None and not any(v.startswith("%") for v in a.fv):
                for q in f(args):
                    self.queue.append(q)
        return x

    def cond(self, ck, p):
        if ck == "b":
            (m, _), = p.t.items()
            return self.app(m[0][0])
        x = self.poly(p)
        zero = z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)
        if ck == "ge":
            return x >= zero
        if ck == "gt":
            return x > zero
        return x == zero

    def boolean(self, p):
        """z3 formula for a 0/1-valued polynomial (built from Iverson brackets)."""
        c = p.const()
        if c is not None:
            return z3.BoolVal(c != 0)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and all(a.kind == "ind" for a, _ in m):
                return z3.And(*[self.cond(a.data[0], a.data[1]) for a, _ in m])
        if len(p.t) == 2 and p.t.get(()) == 1:
            (m, c), = [(m, c) for m, c in p.t.items() if m]
            if c == -1 and all(a.kind == "ind" for a, _ in m):
                return z3.Not(z3.And(*[self.cond(a.data[0], a.data[1]) for a, _ in m]))
        x = self.poly(p)
        one = z3.IntVal(1) if x.sort() == z3.IntSort() else z3.RealVal(1)
        return x == one


def _fact_formula(cv, q):
    """A fact is a 0/1 Poly meant to be 1, or a tuple ('eq0'|'ge0'|'gt0', Poly[, guard])."""
    if isinstance(q, tuple):
        kind, p = q[0], q[1]
        x = cv.poly(p)
        zero = z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0)
        f = x == zero if kind == "eq0" else x >= zero if kind == "ge0" else x > zero
        if len(q) > 2 and q[2] is not None:
            f = z3.Implies(cv.boolean(q[2]), f)
        return f
    return cv.boolean(q)


def run(ctx, build, rlimit, extra=(), rounds=3):
    """Check satisfiability of side facts + pc + build(cv).  Returns ('unsat'|'sat'|'unknown', model)."""
    t0 = time.time()
    cv = Conv(ctx)
    fs = build(cv)
    pcs = list(ctx.pc)
    used = [False] * len(pcs)
    forms = list(fs)
    if ctx.pc_all:
        for k, p in enumerate(pcs):
            forms.append(cv.boolean(p))
            used[k] = True
    else:
        # cone of influence over free variables and application names
        names = set()
        for p in getattr(cv, "goal_polys", ()):
            names |= _names(p)
        changed = True
        while changed:
            changed = False
            for k, p in enumerate(pcs):
                if not used[k]:
                    nm = _names(p)
                    if nm & names:
                        names |= nm
                        used[k] = True
                        forms.append(cv.boolean(p))
                        changed = True
    for q in extra:
        forms.append(_fact_formula(cv, q))
    done = set()
    for _ in range(rounds):
        if not cv.queue:
            break
        qs, cv.queue = cv.queue, []
        for q in qs:
            k = q.key if not isinstance(q, tuple) else (q[0], q[1].key, q[2].key if len(q) > 2 and q[2] is not None else "")
            if k in done:
                continue
            done.add(k)
            forms.append(_fact_formula(cv, q))
    s = z3.Solver()
    s.set("rlimit", rlimit)
    s.set("random_seed", 1)
    for f in cv.side:
        s.add(f)
    for f in forms:
        s.add(f)
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    res = "unsat" if r == z3.unsat else "sat" if r == z3.sat else "unknown"
    STATS[res] += 1
    model = None
    if res == "sat":
        model = (s.model(), cv)
    return res, model, s


_NAMES = {}


def _names(p):
    k = p.key
    r = _NAMES.get(k)
    if r is None:
        s = set(n for n in p.fv if not n.startswith("%"))

        def visit(a):
            if a.kind == "app":
                s.add("@" + a.data[0])
        alg._walk_atoms(p, visit)
        r = frozenset(s)
        _NAMES[k] = r
    return r


_REALCMP = {}


def _has_real_cmp(p):
    r = _REALCMP.get(p.key)
    if r is None:
        r = any(a.kind == "ind" and a.data[0] in ("gt", "eqr") for m in p.t for a, _ in m)
        _REALCMP[p.key] = r
    return r


class Oracle:
    def __init__(self, ctx):
        self.ctx = ctx
        self.smt2 = None

    def assume(self, p):
        pass

    def reset(self):
        pass

    def has_real_facts(self, p):
        nm = None
        for q in self.ctx.pc:
            if _has_real_cmp(q):
                if nm is None:
                    nm = _names(p)
                if nm & _names(q):
                    return True
        return False

    def prove_int_ge(self, p):
        # variables with canonical binder names carry no range: give up early
        if any(n.startswith("%") for n in p.fv):
            return False

        def build(cv):
            cv.goal_polys = [p]
            x = cv.poly(p)
            return [x < (z3.IntVal(0) if x.sort() == z3.IntSort() else z3.RealVal(0))]
        r, _, _ = run(self.ctx, build, RLIMIT_INT)
        return r == "unsat"

    def decide_real(self, ck, p):
        if any(n.startswith("%") for n in p.fv):
            return None
        for val in (True, False):
            def build(cv, val=val):
                cv.goal_polys = [p]
                f = cv.cond(ck, p)
                return [z3.Not(f) if val else f]
            r, _, _ = run(self.ctx, build, RLIMIT_INT)
            if r == "unsat":
                return val
        return None

    def prove_bool(self, p, rlimit=RLIMIT_GOAL, extra=()):
        """Is the 0/1 term p equal to 1 in every model of the context?"""
        c = p.const()
        if c is not None and c != 0:
            return True, None

        def build(cv):
            cv.goal_polys = [p]
            return [z3.Not(cv.boolean(p))]
        r, m, s = run(self.ctx, build, rlimit, extra)
        self.last = s
        return r == "unsat", m

    def feasible(self, rlimit=RLIMIT_INT):
        def build(cv):
            cv.goal_polys = []
            return []
        old = self.ctx.pc_all
        self.ctx.pc_all = True
        try:
            r, m, _ = run(self.ctx, build, rlimit)
        finally:
            self.ctx.pc_all = old
        return r != "unsat", m
