"""C13: loggers and the log on disk."""
from specs.fitloop import *
from pyver import h5model, ops, vals
from specs import c12
from pyver.vals import SymStr

spec = Spec("C13", "Loggers record every iteration once; the log on disk is the history in order")
LOG = "tenkit.decomposition.logging.logger:"
KINDS = {"LossLogger": "loss", "MSELogger": "MSE", "SSELogger": "SSE", "RMSELogger": "RMSE", "ExplainedVarianceLogger": "explained_variance"}
STATE = "log_metrics log_iterations prev_checkpoint_it"
PATH = c12.PATH


def V(t, j):
    return app("V" + t, (j,))


def N(t, j):
    return app("N" + t, (j,), "int")


def logger(I, kind_, n, w):
    """A logger with n values so far, the first w of them written."""
    lg = call(I, LOG + kind_)
    install(I, lg, STATE, log_metrics=PList(None, n, lambda j: fnum(V(kind_, j))), log_iterations=PList(None, n, lambda j: fnum(N(kind_, j), "i")),
            prev_checkpoint_it=fnum(w, "i"))
    return lg


def on_disk(kind_, F, ix, what):
    """Entry i of the stored log: F values of earlier runs, then the history."""
    i, = ix
    if what == "values":
        return alg.ite(int_lt(i, F), app("oldV" + kind_, (i,)), V(kind_, i - F))
    return alg.ite(int_lt(i, F), app("oldN" + kind_, (i,), "int"), N(kind_, i - F))


def put_log(I, st, kind_, F, w):
    """The group of one kind of logger in the file: F old values and the first w of the history."""
    g = h5model.Group(st)
    for what, dt in (("iterations", "i"), ("values", "f")):
        g.members.append(h5model.Member(what, h5model.Dataset(new_arr((F + w,), lambda ix, what=what: on_disk(kind_, F, ix, what), dt), None, g, True)))
    st.root.members.append(h5model.Member(kind_, g))


def stored(I, name, kind_, n, F, last=None):
    """The stored log is the F old entries and then the first n of the history (`last`: the newest value)."""
    st = I.files.get(PATH)
    if not I.oblige(f"{name}: there is a closed file", st is not None and st.mode is None):
        return
    g = st.root.find(I, kind_)
    if not I.oblige(f"{name}: there is a log", isinstance(g, h5model.Group)):
        return
    for what in ("iterations", "values"):
        d = g.find(I, what)
        if not I.oblige(f"{name}: {what} stored", isinstance(d, h5model.Dataset)):
            continue

        def want(i, what=what):
            if last is None:
                return on_disk(kind_, F, (i,), what)
            new = last[0] if what == "iterations" else last[1]
            return alg.ite(int_lt(i, F + n - 1), on_disk(kind_, F, (i,), what), new)
        if not (F + n).t:
            I.oblige_eq(f"{name}: {what}: empty", seq_len(I, d.value), ZERO)
            continue
        oblige_array(I, f"{name}: {what}", d.value, (F + n,), want)


def memory(I, name, lg, kind_, n, last=None):
    """The history in memory: n entries in order (`last`: the newest)."""
    its, mets = attr(I, lg, "log_iterations"), attr(I, lg, "log_metrics")
    I.oblige_eq(f"{name}: number of iteration numbers", seq_len(I, its), n)
    I.oblige_eq(f"{name}: number of values", seq_len(I, mets), n)
    old = n if last is None else n - 1
    if not I.prove(int_eq(old, ZERO)):
        j, = idx(I, (old,), "j")
        I.oblige_eq(f"{name}: earlier iteration numbers", P(seq_get(I, its, j)), N(kind_, j))
        I.oblige_eq(f"{name}: earlier values", P(seq_get(I, mets, j)), V(kind_, j))
    if last is not None:
        I.oblige_eq(f"{name}: newest iteration number", P(seq_get(I, its, n - 1)), last[0])
        I.oblige_eq(f"{name}: newest value", P(seq_get(I, mets, n - 1)), last[1])


# ---- the methods of one logger

def mk_write(kind_, there):
    def goal(I):
        n = int_var(I, "n")
        st = I.files[PATH] = h5model.FileState()
        other = [k for k in KINDS if k != kind_][0]
        Fo = int_var(I, "Fo")
        put_log(I, st, other, Fo, ZERO)
        F = w = ZERO
        if there:
            F, w = int_var(I, "F"), int_var(I, "w")
            I.assume(ind("ge", n - w))
            put_log(I, st, kind_, F, w)
        lg = logger(I, kind_, n, w)
        f = h5model.open_file(I, [PATH, "a"], {})
        method(I, lg, "write_to_hdf5_group", f)
        f.sym_exit(I, None)
        stored(I, "log", kind_, n, F)
        memory(I, "memory", lg, kind_, n)
        for a in ("latest_log_metrics", "latest_log_iterations"):
            I.oblige_eq(f"nothing left to write: {a}", seq_len(I, attr(I, lg, a)), ZERO)
        stored(I, "the other log", other, ZERO, Fo)
        # a second checkpoint without a new iteration adds nothing
        f = h5model.open_file(I, [PATH, "a"], {})
        method(I, lg, "write_to_hdf5_group", f)
        f.sym_exit(I, None)
        stored(I, "written twice", kind_, n, F)
    return goal


def mk_log(kind_, w, wname):
    def goal(I):
        m = w.model(I, convergence_tol=fnum(var("tol")), print_frequency=-1)
        c12.assume_norm(I, w)
        w.start(I, m, initial_decomposition=w.K, max_its=0)
        c = int_var(I, "c0")
        I.setattr(m, "current_iteration", fnum(c, "i"))
        w.any_state(I, m)
        n = int_var(I, "n")
        wr = int_var(I, "w")
        I.assume(ind("ge", n - wr))
        lg = logger(I, kind_, n, wr)
        snap = snapshot(w.contents(I, m))
        method(I, lg, "log", m)
        memory(I, "memory", lg, kind_, n + 1, (c, P(attr(I, m, KINDS[kind_]))))
        oblige_same(I, "the model is left alone", snap)
        I.oblige_eq("the iteration number is left alone", P(attr(I, m, "current_iteration")), c)
        # the written part is still a prefix of the history
        I.oblige_eq("still to be written", seq_len(I, attr(I, lg, "latest_log_metrics")), n + 1 - wr)
        I.oblige_eq("still to be written (iterations)", seq_len(I, attr(I, lg, "latest_log_iterations")), n + 1 - wr)
        j, = idx(I, (n + 1 - wr,), "j")
        for a, b in (("latest_log_metrics", "log_metrics"), ("latest_log_iterations", "log_iterations")):
            I.oblige_eq(f"the unwritten part: {a}", P(seq_get(I, attr(I, lg, a), j)), P(seq_get(I, attr(I, lg, b), wr + j)))
    return goal


def mk_new(kind_):
    def goal(I):
        lg = call(I, LOG + kind_)
        memory(I, "a new logger is empty", lg, kind_, ZERO)
        other = call(I, LOG + kind_)
        I.oblige("loggers do not share their history", attr(I, lg, "log_metrics") is not attr(I, other, "log_metrics"))
        I.oblige("loggers do not share their history", attr(I, lg, "log_iterations") is not attr(I, other, "log_iterations"))
        f = h5model.open_file(I, [PATH, "a"], {})
        method(I, lg, "write_to_hdf5_group", f)
        f.sym_exit(I, None)
        stored(I, "an empty log", kind_, ZERO, ZERO)
    return goal


for kind_ in KINDS:
    spec.add(f"{kind_}: new", mk_new(kind_))
    for there in (False, True):
        spec.add(f"{kind_}: write, {'earlier log' if there else 'no log yet'}", mk_write(kind_, there))
    for wname in ("cp", "pf", "cmtf"):
        w = c12.world(wname)
        spec.add(f"{kind_}: log of {wname}", mk_log(kind_, w, wname), contracts=w.contracts())


# ---- the fitting loop

def mk_loop(wname, w, entry, kinds, path, old):
    def goal(I):
        B = var("max_its", "int")
        extra, f = {}, None
        if path:
            f = int_var(I, "freq", 1)
            extra = dict(checkpoint_path=PATH, checkpoint_frequency=fnum(f, "i"))
        lgs = {}
        m = w.model(I, max_its=fnum(B, "i"), convergence_tol=fnum(var("tol")), print_frequency=-1, **extra)
        st, n0, F = {}, {}, {}
        c0 = ZERO
        if entry == "continue":
            w.start(I, m, initial_decomposition=w.K, max_its=0)
            if not set(m.attrs) <= w.ATTRS:
                raise Unsupported("unknown representation")
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", fnum(var("rel0")))
            I.setattr(m, "max_its", fnum(B, "i"))
        for k in kinds:
            n0[k] = int_var(I, "n0" + k) if entry == "continue" else ZERO
            F[k] = ZERO
            w0 = ZERO
            if old:
                w0 = int_var(I, "w0" + k) if entry == "continue" else ZERO
                F[k] = int_var(I, "F" + k)
                I.assume(ind("ge", n0[k] - w0))
            lgs[k] = logger(I, k, n0[k], w0)
        I.setattr(m, "loggers", PList(list(lgs.values())))
        c12.future(I, c0)
        if old:
            c12.old_file(I)
            for k in kinds:
                put_log(I, I.files[PATH], k, F[k], P(attr(I, lgs[k], "prev_checkpoint_it")))

        def state(I, g):
            """After g iterations: n0 + g values each, of which w are in the file."""
            w.havoc(I, m, g, c0)
            there = False
            if path:
                there = True
                if not old and not I.branch(int_eq(var("file case", "int"), ZERO)):
                    there = False
                    c12.return_due_none(I, f, c0 + g - 1)
                    I.files.pop(PATH, None)
            if there:
                c12.old_file(I)
            for k in kinds:
                n = n0[k] + g
                wr = ZERO
                if there:
                    wr = int_var(I, "wr" + k)
                    I.assume(ind("ge", n - wr))
                    put_log(I, I.files[PATH], k, F[k], wr)
                    # what is due has been written
                    d = c12.due_(I, f, c0 + g - 1)
                    if I.branch(d):
                        I.assume(int_eq(wr, n))
                install(I, lgs[k], STATE, log_metrics=PList(None, n, lambda j, k=k: fnum(V(k, j))), log_iterations=PList(None, n, lambda j, k=k: fnum(N(k, j), "i")),
                        prev_checkpoint_it=fnum(wr, "i"))

        def head(I, g):
            pass

        def after(I, g):
            require_contracts(I, w)
            new = {}
            for k in kinds:
                new[k] = (c0 + g, P(attr(I, m, KINDS[k])))
                memory(I, f"{k}: one value per iteration", lgs[k], k, n0[k] + g + 1, new[k])
            if path and I.branch(c12.due_(I, f, c0 + g)):
                for k in kinds:
                    stored(I, f"{k}: log at a checkpoint", k, n0[k] + g + 1, F[k], new[k])
            if not path:
                I.oblige("nothing is written without a path", not I.files)
        cut = Cut(I, ("max_its",), state, head, after, B - c0)
        if entry == "continue":
            w.norm_positive(I, m)
            method(I, m, "continue_fit")
        else:
            c12.assume_norm(I, w)
            w.start(I, m, initial_decomposition=w.K)
        got = attr(I, m, "loggers")
        I.oblige("the loggers are still the given ones", isinstance(got, PList) and got.items is not None and len(got.items) == len(kinds) and all(a is b for a, b in zip(got.items, lgs.values())))
        G = ZERO if cut.exit is None else cut.exit[0]
        for k in kinds:
            memory(I, f"{k}: at the end", lgs[k], k, n0[k] + G)
        if path and not I.branch(int_eq(G, ZERO)):
            for k in kinds:
                stored(I, f"{k}: log at the end", k, n0[k] + G, F[k])
    return goal


for wname in ("cp", "pf", "cmtf"):
    for entry in ("fit", "continue"):
        w = c12.world(wname)
        spec.add(f"{wname}: {entry}, all loggers, no path", mk_loop(wname, w, entry, list(KINDS), False, False), contracts=w.contracts())
        for old in (False, True):
            w = c12.world(wname)
            spec.add(f"{wname}: {entry}, two loggers, checkpoints, {'older log' if old else 'no file yet'}", mk_loop(wname, w, entry, ["LossLogger", "MSELogger"], True, old), contracts=w.contracts())
