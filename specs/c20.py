"""C20: the experiment logger and the experiment runner."""
from pyver.spec import *
from pyver import h5model, vals, alg, ops
from pyver.alg import int_lt
from pyver.interp import Builtin
from pyver.vals import Unsupported

def num(p, k='f'):
    return vals.num(p, k)


spec = Spec("C20", "Experiment logger and runner")
L = "tenkit.log:"
STATE = "args target_functions target_values fname ex_name store_frequency _it_num _prev_write_it _first_write_it"
NAMES = ("loss", "grad", "z")


def targets(I, names, args=None, seen=None):
    """Opaque target functions: f_t(parameters, *args)."""
    def mk(t):
        def f(I, a, kw):
            I.oblige(f"target {t} gets the parameters and the extra arguments", len(a) == 1 + (len(args) if args else 0) and not kw)
            if args:
                I.oblige(f"target {t}: extra arguments in order", all(x is y for x, y in zip(a[1:], args)))
            if seen is not None:
                seen.append((t, a[0]))
            return num(app("F" + t, (a[0].at((ZERO,)),)))
        return Builtin(t, f)
    return {t: mk(t) for t in names}


def file_with(I, path, groups):
    """A file with the groups {name: {dataset: (length, reader, cast)}}."""
    st = h5model.FileState()
    I.files[path] = st
    for gname, sets in groups.items():
        g = h5model.Group(st)
        for d, (n, rd, cast) in sets.items():
            g.members.append(h5model.Member(d, h5model.Dataset(new_arr((n,), rd, "f"), cast, g, True)))
        st.root.members.append(h5model.Member(gname, g))
    return st


def dataset(I, path, group, name):
    st = I.files.get(path)
    if st is None or st.mode is not None:
        raise Unsupported("file not closed")
    g = st.root.find(I, group)
    d = g.find(I, name) if isinstance(g, h5model.Group) else None
    return d.value if isinstance(d, h5model.Dataset) else None


OTHER = {"keep": (var("oN", "int"), lambda ix: app("old", ix), None)}


def check_other(I, what="another experiment's data unchanged"):
    d = dataset(I, "log.h5", "other", "keep")
    if I.oblige(what + ": kept", d is not None):
        oblige_array(I, what, d, (var("oN", "int"),), lambda i: app("old", (i,)))


def closed(I, path="log.h5"):
    I.oblige("the file is closed", I.files[path].mode is None)


def expect(t, F, m):
    """Stored values: F old ones, then the first m logged ones rounded to single precision."""
    return lambda i: alg.ite(int_lt(i, F), app("old" + t, (i,)), app("f32", (app("V" + t, (i - F,)),)))


def logger(I, names, F, n, Pw, freq, args=(), seen=None):
    """A logger in an arbitrary reachable state: F values were there before, n values logged so far, the
    file holds the first Pw - F of them.  Invariant: F <= Pw <= F + n."""
    sets = {t: (Pw, (lambda t: lambda ix: expect(t, F, n)(ix[0]))(t), h5model.f32) for t in names}
    file_with(I, "log.h5", {"other": OTHER, "ex": sets})
    lg = call(I, L + "HDF5Logger", "log.h5", "ex", num(freq, "i"), PList(list(args)), continue_old=True, **targets(I, names, args, seen))
    vals_ = {t: PList(None, n, (lambda t: lambda j: num(app("V" + t, (j,))))(t)) for t in names}
    install(I, lg, STATE, _it_num=num(F + n, "i"), _prev_write_it=num(Pw, "i"), _first_write_it=num(F, "i"), target_values=PDict(vals_))
    return lg


def state(I):
    F, d, n = int_var(I, "F"), int_var(I, "written"), int_var(I, "n")
    I.assume(ind("ge", n - d))
    return F, n, F + d


def invariant(I, lg, names, F, n, Pw, extra=None):
    """The class invariant: memory holds the n values in order, the file the first Pw - F."""
    I.oblige_eq("number of logged values", P(attr(I, lg, "_it_num")), F + n)
    I.oblige_eq("number of written values", P(attr(I, lg, "_prev_write_it")), Pw)
    I.oblige_eq("values of earlier runs", P(attr(I, lg, "_first_write_it")), F)
    tv = attr(I, lg, "target_values")
    I.oblige("exactly the targets", sorted(tv.d) == sorted(names))
    for t in names:
        v = tv.d[t]
        I.oblige_eq(f"{t}: number of values", seq_len(I, v), n)
        if not n.is_zero():
            j, = idx(I, (n,), "j")
            e = app("V" + t, (j,)) if extra is None else alg.ite(int_lt(j, n - 1), app("V" + t, (j,)), app("F" + t, (extra,)))
            I.oblige_eq(f"{t}: value j", P(seq_get(I, v, j)), e)


def stored(I, names, F, n, Pw, extra=None):
    for t in names:
        d = dataset(I, "log.h5", "ex", t)
        if not I.oblige(f"{t} is in the file", d is not None):
            continue

        def f(i):
            e = app("V" + t, (i - F,)) if extra is None else alg.ite(int_lt(i, F + n - 1), app("V" + t, (i - F,)), app("F" + t, (extra,)))
            return alg.ite(int_lt(i, F), app("old" + t, (i,)), app("f32", (e,)))
        oblige_array(I, f"{t} on disk", d, (Pw,), f)


def mk_save(names):
    def goal(I):
        F, n, Pw = state(I)
        lg = logger(I, names, F, n, Pw, int_var(I, "freq", 1))
        method(I, lg, "save_logs")
        closed(I)
        invariant(I, lg, names, F, n, F + n)
        stored(I, names, F, n, F + n)
        check_other(I)
    return goal


def mk_log(names, due, nargs):
    """One call of log from an arbitrary state: the value of every target at the parameters is appended; the
    file gets all values when the count is a multiple of the frequency, and is left alone otherwise."""
    def goal(I):
        F, n, Pw = state(I)
        freq = int_var(I, "freq", 1)
        args = [param_arr(f"arg{k}", (dim(f"a{k}"),)) for k in range(nargs)]
        seen = []
        lg = logger(I, names, F, n, Pw, freq, args, seen)
        d = int_eq(ops.int_divmod(I, F + n + 1, freq)[1], ZERO)
        I.assume(d if due else ONE - d)
        p = param_arr("p", (dim("d"),))
        fr = Frame(I, [("parameters", p)] + [(f"argument {k}", a) for k, a in enumerate(args)])
        method(I, lg, "log", p)
        closed(I)
        x = p.at((ZERO,))
        I.oblige("every target is evaluated once at the parameters", sorted(t for t, _ in seen) == sorted(names) and all(a is p for _, a in seen))
        N = n + 1
        invariant(I, lg, names, F, N, F + N if due else Pw, x)
        stored(I, names, F, N, F + N if due else Pw, x)
        check_other(I)
        fr.check()
    return goal


for k in (1, 2, 3):
    spec.add(f"save_logs from any state, {k} targets", mk_save(NAMES[:k]))
    for due in (False, True):
        for na in (0, 2) if k == 2 else (1,):
            spec.add(f"log from any state, {k} targets, {na} extra arguments, {'due' if due else 'not due'}", mk_log(NAMES[:k], due, na))


def mk_new(names, where):
    """A new logger starts with empty datasets, next to whatever the file holds."""
    def goal(I):
        groups = {}
        if where != "no file":
            groups = {"other": OTHER}
            if where == "existing group":
                groups["ex"] = {"param": (var("pN", "int"), lambda ix: app("par", ix), None)}
            file_with(I, "log.h5", groups)
        lg = call(I, L + "HDF5Logger", "log.h5", "ex", num(int_var(I, "freq", 1), "i"), PList([]), **targets(I, names))
        closed(I)
        for t in names:
            d = dataset(I, "log.h5", "ex", t)
            if I.oblige(f"{t} is in the file", d is not None):
                I.oblige_eq(f"{t} is empty", d.shape[0], 0)
        install(I, lg, STATE)
        invariant(I, lg, names, ZERO, ZERO, ZERO)
        if where != "no file":
            check_other(I)
        if where == "existing group":
            d = dataset(I, "log.h5", "ex", "param")
            if I.oblige("earlier members kept", d is not None):
                oblige_array(I, "earlier members", d, (var("pN", "int"),), lambda i: app("par", (i,)))
    return goal


for w in ("no file", "other experiment", "existing group"):
    for k in (1, 2):
        spec.add(f"new logger, {w}, {k} targets", mk_new(NAMES[:k], w))


def mk_first_log(names):
    """A new logger and the first logged parameters, every store frequency."""
    def goal(I):
        freq = int_var(I, "freq", 1)
        lg = call(I, L + "HDF5Logger", "log.h5", "ex", num(freq, "i"), PList([]), **targets(I, names))
        ps = [param_arr(f"p{k}", (dim("d"),)) for k in range(3)]
        for k, p in enumerate(ps):
            method(I, lg, "log", p)
        method(I, lg, "save_logs")
        for t in names:
            d = dataset(I, "log.h5", "ex", t)
            if I.oblige(f"{t} is in the file", d is not None and d.ndim == 1):
                I.oblige_eq(f"{t}: three values", d.shape[0], 3)
                for k, p in enumerate(ps):
                    I.oblige_eq(f"{t}: value {k}", d.at((to_poly(k),)), app("f32", (app("F" + t, (p.at((ZERO,)),)),)))
    return goal


spec.add("three values and a save", mk_first_log(NAMES[:2]))


def mk_continue(names):
    """Continuing an old log: nothing is lost and new values will be appended."""
    def goal(I):
        F = int_var(I, "F")
        file_with(I, "log.h5", {"other": OTHER, "ex": {t: (F, (lambda t: lambda ix: app("old" + t, ix))(t), h5model.f32) for t in names}})
        lg = call(I, L + "HDF5Logger", "log.h5", "ex", num(int_var(I, "freq", 1), "i"), PList([]), continue_old=True, **targets(I, names))
        closed(I)
        install(I, lg, STATE)
        invariant(I, lg, names, F, ZERO, F)
        stored(I, names, F, ZERO, F)
        check_other(I)
    return goal


for k in (1, 2, 3):
    spec.add(f"continued logger, {k} targets", mk_continue(NAMES[:k]))


@spec.goal("in-memory logger")
def _(I):
    args = [param_arr("arg0", (dim("a0"),))]
    lg = call(I, L + "Logger", PList(args), **targets(I, NAMES, args))
    n = int_var(I, "n")
    install(I, lg, "args target_functions target_values", target_values=PDict({t: PList(None, n, (lambda t: lambda j: num(app("V" + t, (j,))))(t)) for t in NAMES}))
    p = param_arr("p", (dim("d"),))
    method(I, lg, "log", p)
    j, = idx(I, (n + 1,), "j")
    for t in NAMES:
        v = attr(I, lg, "target_values").d[t]
        I.oblige_eq(f"{t}: one more value", seq_len(I, v), n + 1)
        I.oblige_eq(f"{t}: value j", P(seq_get(I, v, j)), alg.ite(int_lt(j, n), app("V" + t, (j,)), app("F" + t, (p.at((ZERO,)),))))


# ------------------------------------------------------------------ experiments

def member(I, group, name, path="log.h5"):
    st = I.files.get(path)
    if st is None or st.mode is not None:
        raise Unsupported("file not closed")
    g = st.root.find(I, group)
    return g.find(I, name) if isinstance(g, h5model.Group) else None


def attr_of(I, group, name, path="log.h5"):
    g = I.files[path].root.find(I, group)
    return g.attrs.get(name) if isinstance(g, h5model.Group) else None


def is_scalar(I, name, v, e):
    if isinstance(v, h5model.Dataset):
        v = v.value
    if isinstance(v, Arr):
        if not I.oblige(f"{name}: scalar", v.ndim == 0):
            return
        v = num(v.at(()), v.dtype)
    if I.oblige(f"{name}: stored", v is not None and (isnum(v) or isinstance(v, (int, float)))):
        I.oblige_eq(name, P(v), e)


def mk_init(where, attributes, metadata):
    def goal(I):
        if where != "no file":
            groups = {"other": OTHER}
            if "metadata" in where:
                groups["metadata"] = {"older": (var("mN", "int"), lambda ix: app("meta", ix), None)}
            if "same" in where:
                groups["ex"] = {"param": (var("pN", "int"), lambda ix: app("par", ix), None)}
            st = file_with(I, "log.h5", groups)
            st.root.find(I, "other").attrs["rank"] = num(var("orank", "int"), "i")
        a = PDict({"rank": num(var("rank", "int"), "i"), "lr": num(var("lr")), "name": "test"}) if attributes else None
        m = PDict({"X": param_arr("X", dims("I J")), "seed": num(var("seed", "int"), "i")}) if metadata else None
        call(I, L + "Experiment", "log.h5", "ex", a, m)
        closed(I)
        I.oblige("the experiment has a group", isinstance(I.files["log.h5"].root.find(I, "ex"), h5model.Group))
        if attributes:
            is_scalar(I, "attribute rank", attr_of(I, "ex", "rank"), var("rank", "int"))
            is_scalar(I, "attribute lr", attr_of(I, "ex", "lr"), var("lr"))
            I.oblige("attribute name", attr_of(I, "ex", "name") == "test")
        if metadata:
            d = dataset(I, "log.h5", "metadata", "X")
            if I.oblige("metadata X", d is not None):
                oblige_array(I, "metadata X", d, dims("I J"), lambda i, j: app("X", (i, j)))
            is_scalar(I, "metadata seed", member(I, "metadata", "seed"), var("seed", "int"))
        if where != "no file":
            check_other(I)
            is_scalar(I, "another experiment's attribute", attr_of(I, "other", "rank"), var("orank", "int"))
        if "metadata" in where:
            d = dataset(I, "log.h5", "metadata", "older")
            if I.oblige("older metadata kept", d is not None):
                oblige_array(I, "older metadata", d, (var("mN", "int"),), lambda i: app("meta", (i,)))
        if "same" in where:
            d = dataset(I, "log.h5", "ex", "param")
            if I.oblige("older members kept", d is not None):
                oblige_array(I, "older members", d, (var("pN", "int"),), lambda i: app("par", (i,)))
    return goal


for w in ("no file", "other experiment", "other experiment and metadata", "same experiment"):
    for a, m in ((True, True), (True, False), (False, True), (False, False)):
        spec.add(f"Experiment: {w}, {'attributes' if a else 'no attributes'}, {'metadata' if m else 'no metadata'}", mk_init(w, a, m))


def mk_run(cont, with_logger):
    def goal(I):
        file_with(I, "log.h5", {"other": OTHER})
        ex = call(I, L + "Experiment", "log.h5", "ex", PDict({"who": "me"}), PDict({"seed": num(var("seed", "int"), "i")}))
        X = param_arr("X", dims("I J"))
        lg = param_arr("thelogger", (ONE,)) if with_logger else None
        A, cls = param_arr("A", dims("I R")), {}
        n, nA = dim("n"), param_arr("vec", (dim("n"),))
        params = PDict({"rank": num(var("rank", "int"), "i"), "tol": num(var("tol")), "mode": "fast", "grid": nA})
        calls = []
        outs = PDict({"A": A, "err": num(var("err")), "text": "done"})

        def f(I, a, kw):
            I.oblige("the experiment function gets the data", len(a) == 1 and a[0] is X)
            I.oblige("the experiment function gets the parameters", all(kw.get(k) is v for k, v in params.d.items()))
            I.oblige("the experiment function gets logger and load_old",
                     kw.get("logger") is lg and I.truth(kw.get("load_old")) is cont and set(kw) == set(params.d) | {"h5_group", "logger", "load_old"})
            g = kw["h5_group"]
            if not cont or not calls:
                I.setitem(g, "extra", num(var("extra")))
            calls.append("f")
            return outs

        def ev(I, a, kw):
            I.oblige("the evaluation gets data, parameters and outputs", len(a) == 3 and not kw and a[0] is X and a[1] is params and a[2] is outs)
            calls.append("e")
            return PDict({"score": num(var("score")), "curve": nA})
        if cont:
            # an earlier run left results of the same shapes
            g = I.files["log.h5"].root.find(I, "ex")
            for k, sh in (("A", dims("I R")), ("curve", (n,)), ("err", ()), ("score", ())):
                g.members.append(h5model.Member(k, h5model.Dataset(new_arr(sh, (lambda k: lambda ix: app("old" + k, ix))(k), "f"), None, g, False)))
            g.members.append(h5model.Member("text", h5model.Dataset("old", None, g, False)))
        kw = dict(logger=lg)
        if cont:
            kw["continue_old"] = True
        fr = Frame(I, [("data", X), ("output A", A), ("parameter grid", nA)])
        method(I, ex, "run_experiment", X, Builtin("experiment_function", f), params, Builtin("final_eval", ev), **kw)
        closed(I)
        I.oblige("the function runs once, then the evaluation", calls == ["f", "e"])
        is_scalar(I, "parameter rank", attr_of(I, "ex", "rank"), var("rank", "int"))
        is_scalar(I, "parameter tol", attr_of(I, "ex", "tol"), var("tol"))
        I.oblige("parameter mode", attr_of(I, "ex", "mode") == "fast")
        g = attr_of(I, "ex", "grid")
        if I.oblige("parameter grid", isinstance(g, Arr)):
            oblige_array(I, "parameter grid", g, (n,), lambda i: app("vec", (i,)))
        d = dataset(I, "log.h5", "ex", "A")
        if I.oblige("output A", d is not None):
            oblige_array(I, "output A", d, dims("I R"), lambda i, r: app("A", (i, r)))
        is_scalar(I, "output err", member(I, "ex", "err"), var("err"))
        t = member(I, "ex", "text")
        I.oblige("output text", t is not None and t.value == "done")
        is_scalar(I, "evaluation score", member(I, "ex", "score"), var("score"))
        d = dataset(I, "log.h5", "ex", "curve")
        if I.oblige("evaluation curve", d is not None):
            oblige_array(I, "evaluation curve", d, (n,), lambda i: app("vec", (i,)))
        is_scalar(I, "what the function wrote itself", member(I, "ex", "extra"), var("extra"))
        I.oblige("earlier attributes", attr_of(I, "ex", "who") == "me")
        is_scalar(I, "earlier metadata", member(I, "metadata", "seed"), var("seed", "int"))
        check_other(I)
        I.oblige("the parameters are not changed", sorted(params.d) == ["grid", "mode", "rank", "tol"])
        fr.check()
    return goal


for c in (False, True):
    for l in (False, True):
        spec.add(f"run_experiment, {'continued' if c else 'new'}, {'with' if l else 'without'} logger", mk_run(c, l))


@spec.goal("two experiments in one file")
def _(I):
    X = param_arr("X", dims("I J"))
    for k in ("one", "two"):
        ex = call(I, L + "Experiment", "log.h5", k, PDict({"who": k}), PDict({"m_" + k: num(var("seed" + k, "int"), "i")}))
        method(I, ex, "run_experiment", X, Builtin("f", lambda I, a, kw, k=k: PDict({"A": param_arr("A" + k, dims("I R"))})), PDict({"rank": num(var("rank" + k, "int"), "i")}),
               Builtin("e", lambda I, a, kw, k=k: PDict({"score": num(var("score" + k))})))
    for k in ("one", "two"):
        I.oblige("attribute", attr_of(I, k, "who") == k)
        is_scalar(I, "metadata", member(I, "metadata", "m_" + k), var("seed" + k, "int"))
        is_scalar(I, "parameter", attr_of(I, k, "rank"), var("rank" + k, "int"))
        is_scalar(I, "score", member(I, k, "score"), var("score" + k))
        d = dataset(I, "log.h5", k, "A")
        if I.oblige("output", d is not None):
            oblige_array(I, "output", d, dims("I R"), lambda i, r, k=k: app("A" + k, (i, r)))
