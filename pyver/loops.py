"""Loops: concrete unrolling, and closed-form summaries of loops of symbolic length.

A loop `for x in seq` over a sequence of symbolic length n is executed once for
a generic iteration i (0 <= i < n).  Every heap cell the body writes is first
replaced by an unknown c(i); the body turns it into N(i, c(i)).  The recurrence
c(i+1) = N(i, c(i)) is then solved exactly (temporary, sum, product, region
writes, list building); anything that cannot be solved is rejected as outside
the dialect.  No unrolling bound is involved.
"""
import ast
from fractions import Fraction
from . import alg
from .alg import (Poly, to_poly, ONE, ZERO, Undecided, ind, int_eq, int_ge, int_lt, fn, inv, var, subst, index_var,
                  prove_ge, app, sum_poly, mk_bind)
from .vals import *
from .vals import _MISSING, _ids
from . import vals


# ------------------------------------------------------------------ statements

def for_loop(I, st, it, env):
    from .interp import BreakEx, ContinueEx, SymSeq, PathEnd
    from .itermod import PermSeq, Count
    h = I.loop_hook(st, env)
    if h is not None:
        r = h(I, st, it, env)
        if r is not NotImplemented:
            return r
    if isinstance(it, PermSeq):
        h = I.ghost_hooks.get("permutations")
        if h is not None:
            return h(I, st, it, env)
        raise Unsupported("loop over the permutations of a symbolic range")
    if isinstance(it, Count):
        raise Unsupported("loop over itertools.count")
    s = I.as_seq(it)
    if isinstance(s, list):
        for x in s:
            I.assign(st.target, x, env)
            try:
                I.exec_block(st.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return
        I.exec_block(st.orelse, env)
        return

    def body(i):
        I.assign(st.target, s.getf(i), env)
        try:
            I.exec_block(st.body, env)
        except ContinueEx:
            pass
    g = I.ghost_hooks.get("pointwise")
    if g is not None and not I.loops and (s.n - g[0]).is_zero():
        if pointwise(I, s.n, body, env):
            I.exec_block(st.orelse, env)
            return
    from .h5model import H5Loop, family_loop
    jm, pm, ext, nob = I.journal.mark(), I.ctx.mark(), _save(I), len(I.obligations)
    try:
        ex = summarise(I, s.n, body)
    except H5Loop:
        if I.loops:
            raise
        I.journal.rollback(jm)
        I.ctx.rollback(pm)
        _restore(I, ext)
        del I.obligations[nob:]
        family_loop(I, s.n, body)
        ex = None
    if ex == "break":
        return
    I.exec_block(st.orelse, env)


# ------------------------------------------------------------------ loops whose iterations are independent

def cell_way(env, obj, slot):
    """How a written cell is reached from the local variables."""
    if obj is env:
        return ("local", slot)
    for n, v in env.vars.items():
        if isinstance(v, Arr) and v.buf is obj:
            return ("array", n, slot)
        if isinstance(v, PList) and v.items is not None:
            for k, x in enumerate(v.items):
                if isinstance(x, Arr) and x.buf is obj:
                    return ("item", n, k, slot)
    return None


def resolve_cell(env, w):
    if w[0] == "local":
        return env, w[1]
    v = env.vars.get(w[1])
    if w[0] == "array":
        return (v.buf, w[2]) if isinstance(v, Arr) else None
    if not isinstance(v, PList) or v.items is None or w[2] >= len(v.items) or not isinstance(v.items[w[2]], Arr):
        return None
    return v.items[w[2]].buf, w[3]


def pointwise(I, n, body, env):
    """Loop cut at a ghost index e (0 <= e < n): iteration i may only change position i of the arrays it
    writes.  Proves for an arbitrary iteration i != e, started from arbitrary contents, that position e is
    unchanged; then executes iteration e itself, its arrays holding the initial contents at position e and
    anything elsewhere.  Afterwards only position e is known.  False if the loop writes anything else."""
    from .interp import Poison, PathEnd, BreakEx, ReturnEx, Env
    e = I.ghost_hooks["pointwise"][1]
    found = {}

    def collect(p):
        if p.exit is not None:
            found["exit"] = True
        for k, v in written_cells(I, p.mark, p.idmark).items():
            found[k] = v
    nm = I.ctx.fresh("i")
    I.ctx.bounds[nm] = n
    # which cells the body writes (remembered between paths by how they are reached; checked again below)
    memo = I.explorer.__dict__.setdefault("pointwise_memo", {})
    key = (env.func.fullname if env.func else None, I.line)
    if key in memo:
        r = [resolve_cell(env, w) for w in memo[key]]
        if any(x is None for x in r):
            return False
        found = dict(enumerate(r))
    else:
        jm, pm, ext = I.journal.mark(), I.ctx.mark(), _save(I)
        nob = len(I.obligations)
        try:
            run_paths(I, nm, body, lambda: None, (), frozenset(), collect)
        except (Unsupported, Undecided):
            return False
        finally:
            I.journal.rollback(jm)
            I.ctx.rollback(pm)
            _restore(I, ext)
            del I.obligations[nob:]
        if found.pop("exit", False):
            return False
        ways = [cell_way(env, *x) for x in found.values()]
        if all(w is not None for w in ways):
            memo[key] = ways
    bufs, temps = [], []
    for obj, slot in found.values():
        if isinstance(obj, Buf):
            ax = [k for k, d in enumerate(obj.shape) if (d - n).is_zero()]
            if not ax:
                return False
            bufs.append((obj, ax[-1], obj._elem, obj.name or "carried"))
        elif isinstance(obj, Env):
            temps.append((obj, slot))
        else:
            return False
    known = {b.id for b, _, _, _ in bufs}

    def havoc(keep):
        for b, ax, init, name in bufs:
            un = I.ctx.fresh(name.split("!")[0] + "_any")
            so = "real" if b.dtype == "f" else "int"
            if keep:
                b.set_elem(lambda ix, un=un, so=so, init=init, ax=ax: alg.ite(int_eq(ix[ax], e), init(ix), app(un, tuple(ix), so)))
            else:
                b.set_elem(lambda ix, un=un, so=so: app(un, tuple(ix), so))
        for o, slot in temps:
            if slot in o.vars:
                o.set(slot, Poison("temporary of a loop"))

    def go(i):
        jm = I.journal.mark()
        idm = next(_ids)
        try:
            body(i)
        except (BreakEx, ReturnEx):
            raise Unsupported("a loop over independent positions is left early")
        for obj, slot in written_cells(I, jm, idm).values():
            if isinstance(obj, Buf) and obj.id not in known or not isinstance(obj, (Buf, Env)):
                raise Unsupported("a loop over independent positions writes something else")
    if I.explorer.choose(2) == 0:
        havoc(False)
        before = [b.elem for b, _, _, _ in bufs]
        I.ctx.assume(ONE - int_eq(var(nm), e))
        go(var(nm))
        for (b, ax, _, name), rd in zip(bufs, before):
            ix = [index_var("q", d)[0] for d in b.shape]
            ix[ax] = e
            I.oblige_eq(f"iteration i leaves position e != i of {name} unchanged", b.get(tuple(ix)), rd(tuple(ix)))
        raise PathEnd()
    havoc(True)
    go(e)
    for b, ax, _, name in bufs:
        un = I.ctx.fresh(name.split("!")[0] + "_other")
        so = "real" if b.dtype == "f" else "int"
        rd = b.elem
        b.set_elem(lambda ix, un=un, so=so, rd=rd, ax=ax: alg.ite(int_eq(ix[ax], e), rd(ix), app(un, tuple(ix), so)))
    for o, slot in temps:
        if slot in o.vars:
            o.set(slot, Poison("temporary of a loop"))
    return True


def while_loop(I, st, env):
    from .interp import BreakEx, ContinueEx
    h = I.loop_hook(st, env)
    if h is not None:
        r = h(I, st, None, env)
        if r is not NotImplemented:
            return r
    # counting loop of symbolic length
    t = st.test
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE)):
        k = t.left.id
        k0 = I.lookup(env, k)
        hi = I.ev(t.comparators[0], env)
        if isnum(k0) and kind(k0) == "i" and isnum(hi) and not is_inf(hi) and kind(hi) == "i":
            n = P(hi) - P(k0) + (1 if isinstance(t.ops[0], ast.LtE) else 0)
            if n.const() is None:
                if not prove_ge(n) and not I.branch(ind("ge", n)):
                    n = ZERO
                if not n.is_zero():
                    base = P(k0)

                    def body(i):
                        env.set(k, num(base + i, "i"))
                        h2 = I.ev(t.comparators[0], env)
                        if not (P(h2) - P(hi)).is_zero():
                            raise Unsupported("while loop with a changing bound")
                        try:
                            I.exec_block(st.body, env)
                        except ContinueEx:
                            pass
                        v = env.vars.get(k)
                        if not (isnum(v) and (P(v) - base - i - 1).is_zero()):
                            raise Unsupported("while loop whose counter does not advance by one")
                    ex = summarise(I, n, body, skip={(env.id, k)})
                    if ex == "break":
                        return
                    env.set(k, num(base + n, "i"))
                    I.exec_block(st.orelse, env)
                    return
    for _ in range(200):
        if not I.truth(I.ev(st.test, env)):
            I.exec_block(st.orelse, env)
            return
        try:
            I.exec_block(st.body, env)
        except ContinueEx:
            continue
        except BreakEx:
            return
    raise Unsupported("while loop without a decided bound")


# ------------------------------------------------------------------ comprehensions

def comprehension(I, e, env, kind_):
    from .interp import Env
    ce = Env(env.module, env, env.func)
    ce.globals_ = env.globals_
    if env.parent is None and env.func is None:
        ce.parent = env if env.vars is not env.module.attrs else None

    def gen(k):
        """values of generators k.. under the present bindings: concrete list, or ('sym', n, getf)"""
        if k == len(e.generators):
            if kind_ == "dict":
                return [(I.ev(e.key, ce), I.ev(e.value, ce))]
            return [I.ev(e.elt, ce)]
        g = e.generators[k]
        s = I.as_seq(I.ev(g.iter, ce if k else env))
        if isinstance(s, list):
            out = []
            for x in s:
                I.assign(g.target, x, ce)
                if all(I.truth(I.ev(c, ce)) for c in g.ifs):
                    r = gen(k + 1)
                    if isinstance(r, tuple):
                        raise Unsupported("nested comprehension of symbolic length")
                    out.extend(r)
            return out
        if g.ifs:
            raise Unsupported("filtered comprehension of symbolic length")
        if k + 1 < len(e.generators):
            raise Unsupported("nested comprehension of symbolic length")

        def body(i):
            I.assign(g.target, s.getf(i), ce)
            if kind_ == "dict":
                raise Unsupported("dictionary comprehension of symbolic length")
            return I.ev(e.elt, ce)
        return template_map(I, s.n, body)
    r = gen(0)
    if isinstance(r, tuple):
        n, getf = r
        return PList(None, n, getf)
    if kind_ == "dict":
        return PDict({I.hashable(a): b for a, b in r})
    return PList(r)


def template_map(I, n, body):
    """[body(i) for i in range(n)] as (n, getf)."""
    box = {}

    def run(i):
        v = body(i)
        I.loop_result = v
    res = summarise(I, n, run, want_result=True)
    i, tmpl = res
    memo = {}

    def getf(j):
        k = (alg.CTX.epoch, j.key)
        if k not in memo:
            memo[k] = instantiate(tmpl, {i: j})
        return memo[k]
    return (n, getf)


# ------------------------------------------------------------------ cells

class Cell:
    def __init__(self, obj, slot):
        self.obj, self.slot = obj, slot
        self.key = (obj.id, slot)
        self.init = None
        self.form = None        # 'num' 'arr' 'buf' 'list' 'other' 'missing'
        self.ph = None
        self.rule = None
        self.guess = None
        self.sets = None

    def read(self):
        o, s = self.obj, self.slot
        if isinstance(o, Buf):
            return o
        if isinstance(o, PObj):
            return o.attrs.get(s, _MISSING)
        if isinstance(o, PList):
            return o
        return o.vars.get(s, _MISSING)

    def store(self, v):
        o, s = self.obj, self.slot
        if isinstance(o, PObj):
            if v is _MISSING:
                if s in o.attrs:
                    o.delattr(s)
            else:
                o.setattr(s, v)
        else:
            if v is _MISSING:
                if s in o.vars:
                    old = o.vars[s]

                    def undo():
                        o.vars[s] = old
                    S().journal.rec(o, s, undo)
                    del o.vars[s]
            else:
                o.set(s, v)

    def __repr__(self):
        return f"cell({getattr(self.obj, 'name', None) or type(self.obj).__name__}.{self.slot})"


class Path:
    pass


def written_cells(I, mark, idmark):
    from .interp import Env
    out = {}
    for obj, slot, _ in I.journal.log[mark:]:
        if getattr(obj, "id", 0) > idmark:
            continue
        if isinstance(obj, (Buf, PObj, PList, Env)):
            out.setdefault((obj.id, slot), (obj, slot))
        else:
            raise Unsupported(f"loop body writes a {type(obj).__name__}")
    return out


def set_path(p, names):
    return p.fv & names


def mentions(p, phs):
    """Names of placeholders occurring in p."""
    out = set()

    def visit(a):
        if a.kind == "app" and a.data[0] in phs:
            out.add(a.data[0])
    alg._walk_atoms(p, visit)
    return out


# ------------------------------------------------------------------ the summary

class BadGuess(Exception):
    pass


def guess_counters(I, c, vals, iname, phnames):
    """An integer that every path of the first iteration changes by the same loop-invariant amount is taken to be
    init + i*delta; _summarise verifies that one iteration leads from this value at i to this value at i + 1."""
    if c.form != "num" or c.dtype != "i":
        return
    ds = []
    for v in vals:
        if not isnum(v) or isinstance(v, Arr) or is_inf(v) or kind(v) != "i":
            return
        ds.append(P(v) - P(c.init))
    if not ds or ds[0].is_zero() or any(not (d - ds[0]).is_zero() for d in ds) or iname in ds[0].fv or mentions(ds[0], phnames):
        return
    start, delta = P(c.init), ds[0]
    c.guess = lambda j: start + to_poly(j) * delta
    c.at = lambda j: (lambda idx: c.guess(j))
    c.closed = True


def guess_holds(c, vals, i):
    return all(isnum(v) and not isinstance(v, Arr) and not is_inf(v) and kind(v) == "i" and
               alg.renorm(P(v) - c.guess(i + 1)).is_zero() for v in vals)


def summarise(I, n, body, skip=(), want_result=False):
    from .interp import Hoist
    banned = set()
    for _ in range(40):
        jm, pm = I.journal.mark(), I.ctx.mark()
        ext = (dict(I.ext_memo), len(I.ext_calls), len(I.random), len(I.definedness), I.definedness_ok, len(I.printed), len(I.assumed))
        nl, nx = len(I.loops), len(I.local_explorers)
        try:
            return _summarise(I, n, body, skip, want_result, banned)
        except Hoist as h:
            I.journal.rollback(jm)
            I.ctx.rollback(pm)
            del I.loops[nl:]
            del I.local_explorers[nx:]
            _restore(I, ext)
            I.branch(h.cond)
        except BadGuess as b:
            I.journal.rollback(jm)
            I.ctx.rollback(pm)
            del I.loops[nl:]
            del I.local_explorers[nx:]
            _restore(I, ext)
            banned |= b.args[0]
    raise Undecided("too many hoisted decisions")


def _restore(I, ext):
    I.ext_memo = dict(ext[0])
    del I.ext_calls[ext[1]:]
    del I.random[ext[2]:]
    del I.definedness[ext[3]:]
    I.definedness_ok = ext[4]
    del I.printed[ext[5]:]
    del I.assumed[ext[6]:]


def _save(I):
    return (dict(I.ext_memo), len(I.ext_calls), len(I.random), len(I.definedness), I.definedness_ok, len(I.printed), len(I.assumed))


def run_paths(I, iname, body, setup, idx_names, phnames, collect):
    """Execute the body for generic iteration under every local decision; collect(path record)."""
    from .interp import Explorer, BreakEx, ReturnEx, PathEnd, Hoist
    ex = Explorer(400)
    i = var(iname)
    paths = []
    while True:
        jm, pm = I.journal.mark(), I.ctx.mark()
        idmark = next(_ids)
        I.loops.append(iname)
        I.local_explorers.append((ex, (frozenset([iname]), phnames)))
        p = Path()
        p.exit = None
        p.idmark = idmark
        ok = True
        depth = I.depth
        try:
            setup()
            sm = I.journal.mark()
            p.mark = sm
            try:
                body(i)
            except BreakEx:
                p.exit = ("break", None)
            except ReturnEx as r:
                p.exit = ("return", r)
            except PyRaise as r:
                p.exit = ("raise", r)
            except PathEnd:
                ok = False
            I.local_explorers.pop()
            I.loops.pop()
            I.depth = depth
            if ok:
                p.guard = ONE
                for c in I.ctx.pc[pm:]:
                    p.guard = p.guard * c
                p.conds = list(I.ctx.pc[pm:])
                collect(p)
                paths.append(p)
        finally:
            if I.local_explorers and I.local_explorers[-1][0] is ex:
                I.local_explorers.pop()
                I.loops.pop()
            I.depth = depth
            I.journal.rollback(jm)
            I.ctx.rollback(pm)
        if not ex.advance():
            break
    return paths


def _summarise(I, n, body, skip, want_result, banned=frozenset()):
    ctx = I.ctx
    n = to_poly(n)
    iname = ctx.fresh("i")
    ctx.bounds[iname] = n
    i = var(iname)
    cells = {}
    phnames = set()
    # ---- discovery of the written cells, with placeholders for those already known
    for rnd in range(8):
        found = {}
        ext = _save(I)

        def setup():
            for c in cells.values():
                install(I, c, i)

        def collect(p):
            p.written = written_cells(I, p.mark, p.idmark)
            p.fin = {k: Cell(*v).read() for k, v in p.written.items() if v[1] is not None and not isinstance(v[0], (Buf, PList))}
            for k, v in p.written.items():
                if k not in skip:
                    found.setdefault(k, v)
        rps = [p for p in run_paths(I, iname, body, setup, (), frozenset(phnames), collect) if p.exit is None]
        _restore(I, ext)
        bad = {k for k, c in cells.items() if c.guess and not guess_holds(c, [p.fin.get(k, _MISSING) for p in rps], i)}
        if bad:
            raise BadGuess(bad)
        new = [k for k in found if k not in cells]
        if not new:
            break
        for k in new:
            c = Cell(*found[k])
            c.init = c.read()
            classify(I, c)
            if c.ph:
                phnames.add(c.ph)
            if k not in banned:
                guess_counters(I, c, [p.fin.get(k, _MISSING) for p in rps], iname, phnames)
            cells[k] = c
    else:
        raise Unsupported("loop-carried state does not stabilise")
    order = list(cells.values())
    # ---- the step function of every cell
    for attempt in range(4):
        ext = _save(I)
        paths = step_paths(I, iname, body, order, frozenset(phnames), want_result)
        redo = False
        for c in order:
            if c.form == "num":
                for p in paths:
                    v = p.vals.get(c.key)
                    if isinstance(v, Arr) and v.ndim > 0:
                        # scalar seed of an array accumulator
                        if not I.branch(ind("ge", n - 1)):
                            raise Unsupported("array accumulator over an empty loop")
                        seed = P(c.init)
                        c.init = new_arr(v.shape, lambda idx, seed=seed: seed, c.init.k if isinstance(c.init, Num) else kind(c.init))
                        c.form = "arr"
                        c.dtype = v.dtype
                        redo = True
                        break
        kept = (list(I.definedness[ext[3]:]), I.definedness_ok)
        _restore(I, ext)
        if not redo:
            I.definedness += kept[0]
            I.definedness_ok = kept[1]
            break
    # ---- solve the recurrences
    exits = [p for p in paths if p.exit is not None]
    normal = [p for p in paths if p.exit is None]
    if not normal:
        # every iteration leaves the loop: at most the first iteration runs
        return first_iteration_only(I, n, iname, body, order, want_result)
    tracked = [c for c in order if c.form in ("num", "arr", "buf")]
    for c in tracked:
        c.next = merged(I, c, normal, i)
        c.dtype = c.dtype_out
        if c.guess:
            if c.form != "num" or c.dtype != "i" or not guess_holds(c, [p.vals.get(c.key, _MISSING) for p in normal], i):
                raise BadGuess({c.key})
            c.rule = lambda args, c=c: c.guess(args[0])
            ctx.app_rules[c.ph] = c.rule
    unresolved = [c for c in tracked if not c.guess]
    lists = [c for c in order if c.form == "list"]
    progress = True
    while unresolved and progress:
        progress = False
        for c in list(unresolved):
            if solve(I, c, iname, n, {d.ph for d in unresolved}, exits):
                unresolved.remove(c)
                ctx.app_rules[c.ph] = c.rule
                ctx.invalidate()
                progress = True
    for c in unresolved:
        if not (c.form == "num" and c.slot is not None and not isinstance(c.obj, Buf)) and not exits:
            raise Unsupported(f"loop-carried {c!r} has no closed form")
        if c.form != "num":
            raise Unsupported(f"loop-carried {c!r} has no closed form")
    if unresolved:
        raise Unsupported("loop-carried " + ", ".join(map(repr, unresolved)) + " has no closed form")
    # ---- final pass with closed forms: templates without placeholders
    for c in tracked:
        c.closed = True
    pre = _save(I)
    paths = step_paths(I, iname, body, order, frozenset(), want_result)
    exits = [p for p in paths if p.exit is not None]
    normal = [p for p in paths if p.exit is None]
    if exits:
        r = handle_exits(I, n, iname, body, order, exits, want_result)
        if r is not None:
            return r
    # ---- state after the loop
    last = n - 1
    nonempty = prove_ge(n - 1)
    for c in tracked:
        fin = c.at(n)
        if c.form == "num":
            c.store(num(fin(()), c.dtype))
        elif c.form == "arr":
            c.store(new_arr(c.init.shape, fin, c.dtype))
        else:
            c.obj.set_elem(fin)
    for c in lists:
        finish_list(I, c, normal, iname, n)
    from .interp import Poison
    for c in order:
        if c.form == "other":
            vs = [p.vals.get(c.key, _MISSING) for p in normal]
            v = vs[0]
            if all(same_value(v, w) for w in vs[1:]) and v is not _MISSING:
                if same_value(v, c.init):
                    continue
                if v is c.init:
                    continue
                if nonempty:
                    c.store(instantiate(v, {iname: last}))
                    continue
                if c.init is _MISSING:
                    c.store(Poison("assigned in a loop that may be empty"))
                    continue
            c.store(Poison("assigned on some iterations of a loop"))
    if want_result:
        tm = merge_results(I, normal)
        return (iname, tm)
    return None


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, (int, str, bool, Fraction, float)) and isinstance(b, (int, str, bool, Fraction, float)):
        return type(a) == type(b) and a == b
    if isinstance(a, Num) and isinstance(b, Num):
        return (a.p - b.p).is_zero()
    return False


def merge_results(I, paths):
    vs = [p.result for p in paths]
    if len(vs) == 1:
        return vs[0]
    if all(isnum(v) for v in vs):
        k = kind(vs[0])
        r = ZERO
        for p, v in zip(paths, vs):
            k = join_kind(k, kind(v))
            r = r + p.guard * P(v)
        return num(r, k)
    if all(isinstance(v, Arr) for v in vs) and all(len(v.shape) == len(vs[0].shape) and all(x == y for x, y in zip(v.shape, vs[0].shape)) for v in vs):
        rds = [p.reader for p in paths]
        k = vs[0].dtype
        a = Arr(Buf(vs[0].shape, lambda idx: _gsum([(p.guard, rd(idx)) for p, rd in zip(paths, rds)]), k))
        a.buf.loopix = vs[0].buf.loopix
        return a
    if all(same_value(v, vs[0]) for v in vs):
        return vs[0]
    raise Unsupported("values of different kinds on the branches of a symbolic comprehension")


def _gsum(ts):
    r = ZERO
    for g, x in ts:
        r = r + g * x
    return r


def classify(I, c):
    ctx = I.ctx
    v = c.init
    c.closed = False
    if isinstance(c.obj, Buf):
        c.form = "buf"
        c.initf = c.obj.elem
        c.dtype = c.obj.dtype
        c.dtype_out = c.dtype
        c.ph = ctx.fresh("ph")
    elif isinstance(c.obj, PList):
        c.form = "list"
        c.init = (None if c.obj.items is None else list(c.obj.items), c.obj.n, c.obj.getf)
    elif isnum(v) and not is_inf(v) and kind(v) != "b":
        c.form = "num"
        c.dtype = kind(v)
        c.ph = ctx.fresh("ph")
    elif isinstance(v, Arr) and v.ndim > 0 and not any(RAG in d.fv for d in v.shape):
        c.form = "arr"
        c.dtype = v.dtype
        c.ph = ctx.fresh("ph")
    else:
        c.form = "other"


def phapp(c, args):
    return app(c.ph, args, "real" if c.dtype == "f" else "int")


def install(I, c, i):
    """Put the state at the start of iteration i into the cell."""
    if c.form == "num":
        if c.closed:
            c.store(num(c.at(i)(()), c.dtype))
        else:
            c.store(num(phapp(c, (i,)), c.dtype))
    elif c.form == "arr":
        f = c.at(i) if c.closed else (lambda idx: phapp(c, (i,) + tuple(idx)))
        a = Arr(Buf(c.init.shape, f, c.dtype))
        a.buf.loopix = tuple(I.loops)
        c.inst = a.buf
        c.store(a)
    elif c.form == "buf":
        f = c.at(i) if c.closed else (lambda idx: phapp(c, (i,) + tuple(idx)))
        c.obj.set_elem(f)
    elif c.form == "list":
        install_list(I, c, i)
    else:
        if c.init is _MISSING:
            c.store(_MISSING)


class _ListPH:
    """Reader of a list under construction in a loop."""

    def __init__(self, c, i):
        self.c, self.i = c, i
        self.ops = []

    def __call__(self, j):
        for k, p, v in reversed(self.ops):
            if k == "set" and (p - j).is_zero():
                return v
        c = self.c
        if self.c.init[0] is None and not any(k == "append" for k, _, _ in self.ops):
            # slot list: slots not yet written in this iteration hold the initial value when only slot i is ever written
            if (j - self.i).is_zero():
                return c.init[2](j)
        raise Unsupported("read of a list that is being built in a symbolic loop")


def install_list(I, c, i):
    l = c.obj
    l.save()
    ph = _ListPH(c, i)

    def getf(j):
        return ph(j)

    def on_append(lst, v):
        ph.ops.append(("append", None, v))
        return (lst.n + 1, mk())

    def on_set(lst, p, v):
        ph.ops.append(("set", p, v))
        return mk()

    def mk():
        def g(j):
            return ph(j)
        g.on_append = on_append
        g.on_set = on_set
        return g
    c.phl = ph
    n0 = to_poly(len(c.init[0])) if c.init[0] is not None else c.init[1]
    nm = I.ctx.fresh("len")
    I.ctx.lower[nm] = 0
    l.items = None
    if getattr(c, "slotlist", False):
        l.n = n0
    else:
        l.n = n0 if c.init[0] is None else var(nm)
        if c.init[0] is not None and len(c.init[0]) == 0:
            l.n = i
        if c.init[0] is None:
            l.n = n0
    l.getf = mk()


def step_paths(I, iname, body, cells, phnames, want_result):
    i = var(iname)

    def setup():
        for c in cells:
            install(I, c, i)
        I.loop_result = None

    def collect(p):
        p.vals = {}
        p.rd = {}
        for c in cells:
            if c.form == "list":
                p.vals[c.key] = list(c.phl.ops)
                l = c.obj
                p.rd[c.key] = (l.items, l.n)
                continue
            v = c.read()
            p.vals[c.key] = v
            if isinstance(v, Buf):
                p.rd[c.key] = v.elem
            elif isinstance(v, Arr):
                p.rd[c.key] = v.snapshot()
        if want_result:
            p.result = I.loop_result
            if isinstance(p.result, Arr):
                p.reader = p.result.snapshot()
    return run_paths(I, iname, body, setup, (), phnames, collect)


def merged(I, c, paths, i):
    """N(idx) -> Poly: the value after one generic iteration."""
    if c.form == "num":
        vs = []
        k = c.dtype
        for p in paths:
            v = p.vals[c.key]
            if isinstance(v, Arr) and v.ndim == 0:
                v = num(v.at(()), v.dtype)
            if not isnum(v) or is_inf(v):
                raise Unsupported(f"loop-carried {c!r} changes type")
            k = join_kind(k, kind(v))
            vs.append((p.guard, P(v)))
        c.dtype_out = k
        r = vs[0][1] if all((v - vs[0][1]).is_zero() for _, v in vs[1:]) else _gsum(vs)
        return lambda idx: r
    if c.form == "arr":
        k = c.dtype
        for p in paths:
            v = p.vals[c.key]
            if not isinstance(v, Arr) or len(v.shape) != len(c.init.shape) or any(x != y for x, y in zip(v.shape, c.init.shape)):
                raise Unsupported(f"loop-carried array {c!r} changes shape")
            k = join_kind(k, v.dtype)
        c.dtype_out = k
    rds = [(p.guard, p.rd[c.key]) for p in paths]
    if len(rds) == 1:
        return rds[0][1]
    return lambda idx: _gsum([(g, rd(idx)) for g, rd in rds])


def solve(I, c, iname, n, pending, exits):
    """Find the closed form of cell c.  Sets c.rule (placeholder -> value) and c.at(i)."""
    ctx = I.ctx
    i = var(iname)
    shape = () if c.form == "num" else (c.init.shape if c.form == "arr" else c.obj.shape)
    if any(RAG in d.fv for d in shape):
        return solve_ragged(I, c, iname, n, pending, shape)
    idx, names = [], []
    for d in shape:
        t, nm = index_var("x", d)
        idx.append(t)
        names.append(nm)
    idx = tuple(idx)
    return _solve_at(I, c, iname, n, pending, idx, names)


def solve_ragged(I, c, iname, n, pending, shape):
    idx, names = [], []
    for d in shape:
        d2 = subst(d, {RAG: idx[0]}) if idx and RAG in d.fv else d
        t, nm = index_var("x", d2)
        idx.append(t)
        names.append(nm)
    return _solve_at(I, c, iname, n, pending, tuple(idx), names)


def init_fn(c):
    if c.form == "num":
        p = P(c.init)
        return lambda idx: p
    if c.form == "arr":
        return c.init.snapshot()
    return c.initf


def _solve_at(I, c, iname, n, pending, idx, names):
    ctx = I.ctx
    i = var(iname)
    N = alg.renorm(c.next(idx))
    others = mentions(N, pending - {c.ph})
    if others:
        return False
    init = c.init0 = init_fn(c)
    own = phapp(c, (i,) + idx)
    (mown, _), = own.t.items()
    oa = mown[0][0]

    def is_own(a):
        return a is oa or a.kind == "app" and a.data[0] == c.ph and len(a.data[1]) == len(oa.data[1]) and \
            all((x - y).is_zero() for x, y in zip(a.data[1], oa.data[1]))
    N, owned = unwritten_reads(I, c, iname, idx, names, N, init, is_own)
    # split N by occurrences of the own placeholder
    free, lin = {}, {}
    for m, cf in N.t.items():
        es = [e for a, e in m if is_own(a)]
        rest = tuple((a, e) for a, e in m if not is_own(a))
        if any(mentions(alg.atom_poly(a), {c.ph}) for a, _ in rest):
            return nonlinear(I, c)
        if not es:
            free[m] = cf
        elif es[0] == 1:
            alg._add_into(lin, rest, cf)
        else:
            return nonlinear(I, c)
    L, F = Poly(lin), Poly(free)
    ren = lambda p, j, ix: subst(p, {iname: j, **{nm: x for nm, x in zip(names, ix)}})
    lc = L.const()
    if owned is not None:
        s = None if lc is not None else region_solution(I, ONE - L, iname, idx, names, n)
        if s is None or not (s[0] - owned).is_zero():
            return nonlinear(I, c)
    if lc == 1 and F.is_zero():
        c.at = lambda j: (lambda ix: init(ix))
    elif lc == 0:
        # temporary: the value written by the previous iteration
        def at(j):
            first = int_eq(j, 0)

            def f(ix):
                if first.const() == 1:
                    return init(ix)
                v = ren(F, j - 1, ix)
                if first.const() == 0:
                    return v
                return first * init(ix) + (ONE - first) * v
            return f
        c.at = at
    elif lc == 1:
        def at(j):
            def f(ix):
                t, tn = index_var("t", j)
                return init(ix) + sum_poly([(tn, j)], ren(F, t, ix))
            return f
        c.at = at
    elif F.is_zero() and iname not in L.fv and False:
        return False
    else:
        # region writes: N = (1 - w) old + F with w a 0/1 condition
        w = ONE - L
        s = region_solution(I, w, iname, idx, names, n)
        if s is not None:
            sol, lin_w = s

            def at(j):
                def f(ix):
                    q = ren(sol, ZERO, ix)
                    cond = ind("ge", q) * int_lt(q, j)
                    if not cond.t:
                        return init(ix)
                    # the single write to this element happens at iteration q
                    ww = ren(w, q, ix)
                    cond = cond * ww
                    if not cond.t:
                        return init(ix)
                    val = ren(F, q, ix)
                    o = init(ix)
                    if cond.const() == 1:
                        return val
                    return o + cond * (val - o)
                return f
            c.at = at
            # a conditional factor (w * L') would be linear in the old value: exact since it equals init
            if s[1] is not None:
                extra = s[1]

                def at2(j, at=at):
                    def f(ix):
                        q = ren(sol, ZERO, ix)
                        cond = ind("ge", q) * int_lt(q, j)
                        o = init(ix)
                        v = ren(L, q, ix) * o + ren(F, q, ix)
                        return o + cond * (v - o)
                    return f
                c.at = at2
        elif F.is_zero():
            # product
            def at(j):
                def f(ix):
                    t, tn = index_var("t", j)
                    return init(ix) * mk_bind("prod", [(tn, j)], [ren(L, t, ix)])
                return f
            c.at = at
        else:
            # conditional last-write: N = (1-w(i)) old + F with w depending on i only through a decided condition
            return False
    if c.form != "num" or c.dtype == "f":
        pass
    c.dtype = c.dtype_out

    def rule(args):
        return c.at(args[0])(tuple(args[1:]))
    c.rule = rule
    return True


def unwritten_reads(I, c, iname, idx, names, N, init, is_own):
    """Elements are written by the one iteration sol(element): what iteration i reads of elements with sol >= i is
    their initial value.  Returns (N with these reads replaced, sol) or (N, None); the caller verifies sol."""
    ctx, i = I.ctx, var(iname)
    va = alg._var_atom(iname)
    sols = []
    foreign = False

    def walk(a):
        nonlocal foreign
        if a.kind == "app" and a.data[0] == c.ph and not is_own(a):
            foreign = True
    alg._walk_atoms(N, walk)
    if not foreign:
        return N, None
    for m in N.t:
        for a, _ in m:
            if a.kind == "ind" and a.data[0] == "eqi":
                p = a.data[1]
                cf = p.t.get(((va, 1),))
                if cf in (1, -1):
                    rest = p - alg.pscale(i, cf)
                    if iname not in rest.fv:
                        sol = -rest if cf == 1 else rest
                        if not any((sol - q).is_zero() for q in sols):
                            sols.append(sol)
    for sol in sols:
        def rule(args):
            if not (args[0] - i).is_zero():
                return None
            d = subst(sol, dict(zip(names, args[1:]))) - i
            return init(tuple(args[1:])) if d.is_zero() or prove_ge(d) else None
        old = ctx.app_rules.get(c.ph)
        ctx.app_rules[c.ph] = rule
        try:
            N2 = alg.renorm(N)
        finally:
            if old is None:
                del ctx.app_rules[c.ph]
            else:
                ctx.app_rules[c.ph] = old
            ctx.invalidate()
        foreign = False
        alg._walk_atoms(N2, walk)
        if not foreign:
            return N2, sol
    return N, None


def nonlinear(I, c):
    raise Unsupported(f"loop-carried {c!r} depends on its previous value in an unsupported way")


def region_solution(I, w, iname, idx, names, n):
    """w(i, idx) is (a 0/1 product of) conditions selecting the elements written at iteration i.
    Returns (sol, extra): the only iteration that can write idx is sol(idx)."""
    # collect indicator factors common to all monomials of w
    i = var(iname)
    cand = []
    eqs = []
    seen = set()

    def consider(a):
        if a in seen:
            return
        seen.add(a)
        if a.kind == "ind" and a.data[0] == "eqi" and iname in a.data[1].fv:
            eqs.append(a.data[1])
        if a.kind == "ind" and a.data[0] == "ge" and iname in a.data[1].fv:
            cand.append(a.data[1])
    for m, _ in w.t.items():
        for a, _ in m:
            consider(a)
    va = alg._var_atom(iname)
    for p in eqs:
        cf = p.t.get(((va, 1),))
        if cf in (1, -1):
            rest = p - alg.pscale(i, cf)
            if iname in rest.fv:
                continue
            sol = -rest if cf == 1 else rest
            # all of w must vanish off the solution
            if all(any(a.kind == "ind" and a.data[0] == "eqi" and a.data[1] == p for a, _ in m) for m in w.t):
                return sol, (ONE if not is01(w) else None)
    # blocks: i*B <= x + s < (i+1)*B
    for p in cand:
        for m, cf in p.t.items():
            ds = dict(m)
            if ds.get(va) == 1 and any(iname in a.fv for a in ds) and cf in (1, -1):
                B = Poly({tuple((a, e) for a, e in m if a is not va): 1})
                if iname in B.fv or not prove_ge(B - 1):
                    continue
                rest = p - Poly({m: cf})
                if iname in rest.fv:
                    continue
                # p = cf*i*B + rest; lower-bound form: x - i*B >= 0 (cf = -1)
                q = rest if cf == -1 else -rest - 1
                for shift in (ZERO,):
                    sol = alg.fdiv(q + shift, B)
                    if unique_iteration(I, w, iname, sol, n):
                        return sol, (ONE if not is01(w) else None)
    return None


def is01(w):
    """Is w a product of brackets (so that w*w == w)?"""
    return len(w.t) == 1 and all(a.kind == "ind" for m in w.t for a, _ in m) and all(c == 1 for c in w.t.values()) or _sq01(w)


def _sq01(w):
    return (w * w - w).is_zero()


def unique_iteration(I, w, iname, sol, n):
    """w(i, idx) = 0 whenever i != sol(idx)."""
    ctx = I.ctx
    u = ctx.fresh("u")
    ctx.lower[u] = 0
    for s in (1, -1):
        p = subst(w, {iname: sol + s * (var(u) + 1)})
        p = alg.renorm(p)
        if not p.is_zero():
            if not (is01(p) and I.prove(ONE - p)):
                return False
    return True


# ------------------------------------------------------------------ lists

def finish_list(I, c, paths, iname, n):
    l = c.obj
    items0, n0, g0 = c.init
    opss = [p.vals[c.key] for p in paths]
    # drop overwritten slot writes
    forms = []
    for ops in opss:
        forms.append([(k, p, v) for k, p, v in ops])
    kinds = {tuple(k for k, _, _ in f) for f in forms}
    if any(p.rd[c.key][0] is not None for p in paths):
        raise Unsupported("list rebuilt inside a symbolic loop")
    if len(kinds) != 1:
        raise Unsupported("list appended to on some iterations only")
    ks = next(iter(kinds))
    i = var(iname)
    if all(k == "append" for k in ks) and len(ks) >= 1:
        m = len(ks)
        vals = []
        for q in range(m):
            fake = []
            for p, f in zip(paths, forms):
                pp = Path()
                pp.guard = p.guard
                pp.result = f[q][2]
                if isinstance(pp.result, Arr):
                    pp.reader = pp.result.snapshot()
                fake.append(pp)
            vals.append(merge_results(I, fake))
        memo = {}

        def at(j):
            key = (alg.CTX.epoch, j.key)
            if key not in memo:
                if m == 1:
                    memo[key] = instantiate(vals[0], {iname: j})
                else:
                    r = alg.pmod(j, to_poly(m)).const()
                    if r is None:
                        raise Unsupported("interleaved list building")
                    memo[key] = instantiate(vals[int(r)], {iname: alg.fdiv(j, to_poly(m))})
            return memo[key]
        l.save()
        if items0 is not None and not items0:
            l.items, l.n, l.getf = None, n * m, at
            return
        base = PList(items0) if items0 is not None else PList(None, n0, g0)
        if items0 is not None:
            from .builtins_ import _pick
            segs = [(ONE, (lambda j, x=x: x)) for x in items0] + [(n * m, at)]
        else:
            segs = [(n0, g0), (n * m, at)]
        r = I.concat_segs(segs)
        l.items, l.n, l.getf = None, r.n, r.getf
        return
    if ks and all(k == "set" for k in ks):
        # slot writes at index i (the last write wins)
        fake = []
        for p, f in zip(paths, forms):
            pos = f[-1][1]
            if any(not (x[1] - pos).is_zero() for x in f):
                raise Unsupported("several list slots written per iteration")
            if not (pos - i).is_zero():
                d = pos - i
                if iname in d.fv:
                    raise Unsupported("list slot write at a non-trivial index")
            pp = Path()
            pp.guard = p.guard
            pp.result = f[-1][2]
            pp.pos = pos
            if isinstance(pp.result, Arr):
                pp.reader = pp.result.snapshot()
            fake.append(pp)
        pos = fake[0].pos
        if any(not (q.pos - pos).is_zero() for q in fake):
            raise Unsupported("list slot writes at different positions")
        v = merge_results(I, fake)
        off = pos - i
        memo = {}

        def at(j):
            key = (alg.CTX.epoch, j.key)
            if key not in memo:
                t = j - off
                inside = ind("ge", t) * int_lt(t, n)
                if inside.const() == 1 or I.prove(inside):
                    memo[key] = instantiate(v, {iname: t})
                elif I.prove(ONE - inside):
                    memo[key] = g0(j) if g0 is not None else items0[int(j.const())]
                else:
                    raise Unsupported("list slot read at an undecided position")
            return memo[key]
        l.save()
        nn = n0 if items0 is None else to_poly(len(items0))
        l.items, l.n, l.getf = None, nn, at
        return
    if not ks:
        l.save()
        l.items, l.n, l.getf = items0, n0, g0
        return
    raise Unsupported("mixed list operations in a symbolic loop")


# ------------------------------------------------------------------ exits

def first_iteration_only(I, n, iname, body, cells, want_result):
    from .interp import BreakEx
    if not (prove_ge(n - 1) or I.branch(ind("ge", n - 1))):
        if want_result:
            return (iname, None)
        return None
    try:
        body(ZERO)
    except BreakEx:
        return "break"
    raise Unsupported("loop leaves on every generic iteration but not on the first")


def handle_exits(I, n, iname, body, cells, exits, want_result):
    """Fork on whether some iteration leaves the loop."""
    from .interp import BreakEx, ReturnEx, PathEnd
    ctx = I.ctx
    if I.local_explorers:
        raise Unsupported("a nested symbolic loop that can be left early")
    i = var(iname)
    G = ZERO
    for p in exits:
        G = G + p.guard
    tot = sum_poly([(iname, n)], G)
    none = ind("eqi", tot)
    if none.const() == 1:
        return None
    if none.const() is None:
        ch = I.explorer.choose(2)
    else:
        ch = 1
    if ch == 0:
        ctx.assume(none)
        add_universal(ctx, ONE - G, iname, n)
        return None
    # the first leaving iteration
    ex = ctx.fresh("exit")
    ctx.bounds[ex] = n
    e = var(ex)
    ctx.assume(ind("ge", e))
    ctx.assume(int_lt(e, n))
    g = subst(G, {iname: e})
    if not g.t:
        raise PathEnd()
    ctx.assume(g)
    add_universal(ctx, ONE - G, iname, e)
    for c in cells:
        c_install_at(I, c, e)
    try:
        body(e)
    except BreakEx:
        return "break"
    raise PathEnd()      # an infeasible continuation of the leaving iteration


def c_install_at(I, c, e):
    if c.form == "num":
        c.store(num(c.at(e)(()), c.dtype))
    elif c.form == "arr":
        c.store(new_arr(c.init.shape, c.at(e), c.dtype))
    elif c.form == "buf":
        c.obj.set_elem(c.at(e))
    elif c.form == "list":
        l = c.obj
        if c.init[0] is not None and not c.init[0]:
            # contents at the exit are not tracked
            l.save()
            l.items, l.n = None, e

            def g(j):
                raise Unsupported("read of a list after leaving the loop that builds it")
            l.getf = g
        else:
            raise Unsupported("list built in a loop that can be left early")


def add_universal(ctx, fact, iname, n):
    """For all t in [0, n): fact(t).  Registered on every application that has the loop variable as an argument."""
    i = var(iname)
    trig = []

    def visit(a):
        if a.kind == "app":
            for k, x in enumerate(a.data[1]):
                o = (x - i).const()
                if o is not None:
                    trig.append((a.data[0], k, o))
    alg._walk_atoms(fact, visit)
    for name, k, o in set(trig):
        old = ctx.app_facts.get(name)

        def facts(args, old=old, k=k, o=o):
            r = list(old(args)) if old else []
            t = args[k] - o
            # not simplified: in an infeasible context the fact may be what shows it
            raw, ctx.raw = ctx.raw, True
            try:
                f = subst(fact, {iname: t})
                guard = ind("ge", t) * int_lt(t, n)
            finally:
                ctx.raw = raw
            if guard.t and f.const() != 1:
                r.append(ONE - guard * (ONE - f))
            return r
        ctx.app_facts[name] = facts
    ctx.universals.append((iname, n, fact))
    ctx.invalidate()
