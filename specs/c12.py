"""C12: checkpoints."""
from specs.fitloop import *
from pyver import h5model, ops
from pyver.vals import SymStr

spec = Spec("C12", "Checkpoints")
PATH = "check.h5"
CONT = {"cp": "KruskalTensor", "cmtf": "KruskalTensor", "pf": "Parafac2Tensor"}


def name_of(e):
    c = to_poly(e).const()
    return f"checkpoint_{int(c):05d}" if c is not None else SymStr(("checkpoint_", (to_poly(e), "05d")))


def stored(e):
    return alg.ind_bool("stored", (to_poly(e),))


def old_file(I, value=None):
    """A file with an arbitrary set of checkpoints: iteration e is there iff stored(e)."""
    st = I.files[PATH] = h5model.FileState()
    ix = "%ck"
    st.root.members.append(h5model.Member(SymStr(("checkpoint_", (var(ix), "05d"))), value or (lambda e: (_ for _ in ()).throw(Unsupported("an old checkpoint is read"))),
                                          ix, None, stored))
    n = int_var(I, "n_old", 1)
    st.root.attrs["checkpoint_its"] = new_arr((n,), lambda i: app("its", i, "int"), "i")
    st.root.attrs["final_iteration"] = fnum(var("old_final", "int"), "i")
    st.root.attrs["decomposition_type"] = "something"
    return st


def put_decomposition(I, st, e, dec):
    """The checkpoint of iteration e holding a decomposition (written by the real code, see C11)."""
    g = h5model.Group(st)
    keep, st.mode = st.mode, "a"
    method(I, dec, "store_in_hdf5_group", g)
    st.mode = keep
    return g


def state_of(I):
    """What the file looks like now."""
    st = I.files.get(PATH)
    if st is None:
        return None
    return st, list(st.root.members), dict(st.root.attrs)


def same_file(I, name, before):
    now = state_of(I)
    if before is None or now is None:
        I.oblige(name, before is None and now is None)
        return
    I.oblige(name, now[0] is before[0] and len(now[1]) == len(before[1]) and all(a is b for a, b in zip(now[1], before[1]))
             and now[2].keys() == before[2].keys() and all(now[2][k] is before[2][k] for k in now[2]))


def one_more(I, name, before, it, w, m, kind_, contents=None):
    """Compared to `before` the file has exactly one more checkpoint: iteration `it` with the current decomposition."""
    now = state_of(I)
    if not I.oblige(f"{name}: written", now is not None):
        return
    st, members, attrs_ = now
    I.oblige(f"{name}: file closed", st.mode is None)
    old = [] if before is None else before[1]
    if before is not None:
        I.oblige(f"{name}: earlier checkpoints are kept", now[0] is before[0] and len(members) >= len(old) and all(a is b for a, b in zip(members, old)))
    new = members[len(old):]
    if not I.oblige(f"{name}: exactly one checkpoint", len(new) == 1 and isinstance(new[0].value, h5model.Group) and new[0].idx is None):
        return
    I.oblige(f"{name}: under its iteration number", I.truth(ops.str_eq(I, new[0].name, name_of(it))))
    f = attrs_.get("final_iteration")
    if I.oblige(f"{name}: latest iteration recorded", f is not None and isnum(f)):
        I.oblige_eq(f"{name}: latest iteration", P(f), it)
    holds(I, name, it, w, m, kind_, contents)


def holds(I, name, it, w, m, kind_, contents=None):
    """The checkpoint of iteration `it` holds the model's current decomposition."""
    f = h5model.open_file(I, [PATH, "r"], {})
    try:
        g = f.sym_getitem(I, name_of(it))
    except PyRaise as e:
        if e.etype != "KeyError":
            raise
        I.oblige(f"{name}: the checkpoint exists", False)
        return
    dec = method(I, get(I, D + CONT[kind_]), "load_from_hdf5_group", g)
    f.sym_exit(I, None)
    compare(I, name, dec, w, m, kind_, contents)


def compare(I, name, dec, w, m, kind_, contents=None):
    """A stored decomposition is the model's current one (or has the given contents)."""
    now = contents or w.decomposed(I, m)
    if kind_ != "pf":
        got = I.iter_concrete(attr(I, dec, "factor_matrices")) + [attr(I, dec, "weights")]
        if not I.oblige(f"{name}: number of factors", len(got) == len(now)):
            return
        for k, (a, b) in enumerate(zip(got, now)):
            oblige_array(I, f"{name}: contents {k}", a, b.shape, lambda *ix: b.at(ix))
        return
    for k, (a, b) in enumerate(zip((attr(I, dec, "A"), attr(I, dec, "blueprint_B"), attr(I, dec, "C")), now)):
        oblige_array(I, f"{name}: contents {k}", a, b.shape, lambda *ix: b.at(ix))
    Ps = attr(I, dec, "projection_matrices")
    K = now[3].shape[0]
    I.oblige_eq(f"{name}: number of projection matrices", seq_len(I, Ps), K)
    k, = idx(I, (K,), "k")
    oblige_array(I, f"{name}: projection matrix k", seq_get(I, Ps, k), now[3].shape[1:], lambda i, j: now[3].at((k, i, j)))


def world(kind_, order=3):
    return {"cp": CPWorld, "cmtf": CMTFWorld}[kind_](order) if kind_ != "pf" else PFWorld()


def given(I, freq):
    if freq == "positive":
        f = int_var(I, "freq", 1)
        return dict(checkpoint_frequency=fnum(f, "i")), f
    if freq == "not positive":
        f = var("freq", "int")
        I.assume(int_ge(ZERO, f))
        return dict(checkpoint_frequency=fnum(f, "i")), None
    if freq == "None":
        return dict(checkpoint_frequency=None), None
    return {}, None


def due_(I, f, it):
    return ZERO if f is None else int_eq(ops.int_divmod(I, it + 1, f)[1], ZERO)


def mk_loop(kind_, w, entry, freq, path, old):
    def goal(I):
        B = var("max_its", "int")
        fkw, f = given(I, freq)
        if not path:
            f = None
        m = w.model(I, max_its=fnum(B, "i"), convergence_tol=fnum(var("tol")), print_frequency=-1, **fkw, **({"checkpoint_path": PATH} if path else {}))
        st = {}
        if entry == "fit":
            c0 = ZERO
        elif entry == "continue":
            w.start(I, m, initial_decomposition=w.K, max_its=0)
            if not set(m.attrs) <= w.ATTRS:
                raise Unsupported("unknown representation")
            c0 = int_var(I, "c0")
            I.setattr(m, "current_iteration", fnum(c0, "i"))
            I.setattr(m, "_rel_function_change", fnum(var("rel0")))
            I.setattr(m, "max_its", fnum(B, "i"))
        if old:
            old_file(I)
        start = state_of(I)
        future(I, c0)

        def state(I, g):
            w.havoc(I, m, g, c0)
            if not path:
                return
            if I.files.get(PATH) is None:
                if not I.branch(int_eq(var("file case", "int"), ZERO)):
                    return_due_none(I, f, c0 + g - 1)
                    return
            old_file(I)
            last = c0 + g - 1
            d = due_(I, f, last)
            if I.branch(d):
                fs = I.files[PATH]
                fs.root.members.append(h5model.Member(name_of(last), put_decomposition(I, fs, last, attr(I, m, "decomposition"))))
                fs.root.attrs["final_iteration"] = fnum(last, "i")

        def head(I, g):
            st["file"] = state_of(I)
            st["c"] = c0 + g
            st["now"] = None if w.keeps else [new_arr(a.shape, a.snapshot()) for a in w.decomposed(I, m)]

        def after(I, g):
            require_contracts(I, w)
            I.oblige_eq("iteration number", P(attr(I, m, "current_iteration")), c0 + g + 1)
            if not path:
                I.oblige("nothing is written without a path", not I.files)
                return
            if I.branch(due_(I, f, c0 + g)):
                one_more(I, "due checkpoint", st["file"], c0 + g, w, m, kind_)
            else:
                same_file(I, "no checkpoint is due", st["file"])
        cut = Cut(I, ("max_its",), state, head, after, B - c0)
        if entry == "continue":
            w.norm_positive(I, m)
            method(I, m, "continue_fit")
        else:
            assume_norm(I, w)
            w.start(I, m, initial_decomposition=w.K)
        if not path:
            I.oblige("nothing is written without a path", not I.files)
            return
        if cut.exit is None:
            same_file(I, "no iteration, nothing written", start)
            return
        G, how = cut.exit
        if I.branch(int_eq(G, ZERO)):
            same_file(I, "no iteration, nothing written", start)
            return
        last = c0 + G - 1
        if I.branch(due_(I, f, last)):
            same_file(I, "the last iteration is already stored", st["file"])
            holds(I, "last iteration", last, w, m, kind_, st["now"])
        else:
            one_more(I, "last iteration", st["file"], last, w, m, kind_, st["now"])
    return goal


def future(I, c):
    """No checkpoint of an iteration >= c exists yet."""
    I.ctx.app_rules["stored"] = lambda a: ZERO if alg.prove_ge(to_poly(a[0]) - c) else None


def return_due_none(I, f, last):
    """Without a file no checkpoint was due so far."""
    I.assume(ONE - due_(I, f, last))


def assume_norm(I, w):
    sq_ = nsum(w.X.shape, lambda *ix: w.X.at(ix) ** 2)
    I.assume(ind("gt", sq_))


for kind_ in ("cp", "pf", "cmtf"):
    for entry in ("fit", "continue"):
        for freq in ("positive", "not positive", "None", "default"):
            for old in (False, True):
                if freq in ("None", "default") and (old or entry == "continue"):
                    continue
                w = world(kind_)
                spec.add(f"{kind_}: {entry}, frequency {freq}, {'older checkpoints' if old else 'no file yet'}", mk_loop(kind_, w, entry, freq, True, old), contracts=w.contracts())
        for freq in ("positive", "default"):
            w = world(kind_)
            spec.add(f"{kind_}: {entry} without a path, frequency {freq}", mk_loop(kind_, w, entry, freq, False, False), contracts=w.contracts())


# ---- the operations themselves, from any state of the model and the file

def old_decomposition(I, w, kind_):
    """The decomposition an earlier checkpoint e holds: e -> group written by the real code (C11)."""
    made = {}
    R = dim("R")

    def build(e):
        key = to_poly(e)
        if key in made:
            return made[key]
        src = lambda nm, shape: new_arr(shape, lambda ix: app(nm, (key,) + tuple(ix)))
        if kind_ != "pf":
            K = call(I, D + "KruskalTensor", PList([src("old" + LETTERS[k], (d, R)) for k, d in enumerate(w.ds)]), src("oldw", (R,)))
        else:
            dI, dJ, dK = dims("I J K")
            Ps = src("oldP", (dK, dJ, R))
            K = call(I, D + "Parafac2Tensor", src("oldA", (dI, R)), src("oldB", (R, R)), src("oldC", (dK, R)),
                     PList(None, dK, lambda k: I.getitem(Ps, fnum(k, "i"))))
        made[key] = put_decomposition(I, I.files[PATH], key, K)
        return made[key]
    return build


def is_old(I, name, m, w, kind_, e):
    """The model's decomposition is the one of checkpoint e."""
    R = dim("R")
    d = attr(I, m, "decomposition")
    old = lambda nm: lambda *ix: app(nm, (e,) + ix)
    if kind_ != "pf":
        got = I.iter_concrete(attr(I, d, "factor_matrices"))
        if not I.oblige(f"{name}: number of factors", len(got) == w.order):
            return
        for k, f in enumerate(got):
            oblige_array(I, f"{name}: factor {k}", f, (w.ds[k], R), old("old" + LETTERS[k]))
        oblige_array(I, f"{name}: weights", attr(I, d, "weights"), (R,), old("oldw"))
        return
    dI, dJ, dK = dims("I J K")
    oblige_array(I, f"{name}: A", attr(I, d, "A"), (dI, R), old("oldA"))
    oblige_array(I, f"{name}: blueprint", attr(I, d, "blueprint_B"), (R, R), old("oldB"))
    oblige_array(I, f"{name}: C", attr(I, d, "C"), (dK, R), old("oldC"))
    Ps = attr(I, d, "projection_matrices")
    I.oblige_eq(f"{name}: number of projection matrices", seq_len(I, Ps), dK)
    k, = idx(I, (dK,), "k")
    oblige_array(I, f"{name}: projection matrix k", seq_get(I, Ps, k), (dJ, R), lambda i, j: app("oldP", (e, k, i, j)))


def fitted(I, w, **kw):
    """A model that has been initialised, at an arbitrary iteration number."""
    m = w.model(I, convergence_tol=fnum(var("tol")), print_frequency=-1, **kw)
    assume_norm(I, w)
    w.start(I, m, initial_decomposition=w.K, max_its=0)
    c = int_var(I, "c0")
    I.setattr(m, "current_iteration", fnum(c, "i"))
    w.any_state(I, m)
    return m, c


def mk_store(kind_, w, given_it, old):
    def goal(I):
        m, c = fitted(I, w, checkpoint_path=PATH)
        I.files.pop(PATH, None)
        if old:
            old_file(I)
        before = state_of(I)
        it, args = c, ()
        if given_it:
            it = int_var(I, "it")
            args = (fnum(it, "i"),)
        I.ctx.app_rules["stored"] = lambda a: ZERO if to_poly(a[0]) == to_poly(it) else None
        snap = snapshot(w.contents(I, m))
        method(I, m, "store_checkpoint", *args)
        one_more(I, "store", before, it, w, m, kind_)
        oblige_same(I, "the model is left alone", snap)
        I.oblige_eq("the iteration number is left alone", P(attr(I, m, "current_iteration")), c)
        its = I.files[PATH].root.attrs.get("checkpoint_its")
        n = var("n_old", "int") if old else ZERO
        oblige_its(I, its, n, it)
        I.oblige("kind of model", I.files[PATH].root.attrs.get("decomposition_type") == w.cls.split(":")[1])
    return goal


def oblige_its(I, its, n, it):
    I.oblige_eq("list of stored iterations: length", seq_len(I, its), n + 1)
    I.oblige_eq("list of stored iterations: last", its.at((n,)), it)
    if n.t:
        j, = idx(I, (n,), "j")
        I.oblige_eq("list of stored iterations: earlier", its.at((j,)), app("its", (j,), "int"))


def mk_load(kind_, w, which, end=None):
    def goal(I):
        m, c = fitted(I, w)
        st = old_file(I, old_decomposition(I, w, kind_))
        e = int_var(I, "it") if which != "latest" else var("old_final", "int")
        I.assume(ind("ge", e))
        there = which in ("chosen", "latest")
        I.assume(stored(e) if there else ONE - stored(e))
        if which == "no checkpoints":
            st.root.members.clear()
            for a in ("checkpoint_its", "final_iteration", "decomposition_type"):
                st.root.attrs.pop(a)
        files = state_of(I)
        dec = attr(I, m, "decomposition")
        snap = snapshot(w.contents(I, m))
        args = [] if which in ("latest", "no checkpoints") else [fnum(e, "i")]
        if not there:
            expect_raises(I, "a missing checkpoint is refused", ("ValueError",), lambda: method(I, m, "load_checkpoint", PATH, *args))
            I.oblige("the decomposition is left alone", attr(I, m, "decomposition") is dec)
            oblige_same(I, "the decomposition is left alone", snap)
            I.oblige_eq("the iteration number is left alone", P(attr(I, m, "current_iteration")), c)
        else:
            method(I, m, "load_checkpoint", PATH, *args)
            is_old(I, "loaded", m, w, kind_, e)
            I.oblige_eq("fitting goes on with the next iteration", P(attr(I, m, "current_iteration")), e + 1)
        same_file(I, "loading leaves the file alone", files)
        I.oblige("the file is closed", I.files[PATH].mode is None)
    return goal


for kind_ in ("cp", "pf", "cmtf"):
    for o in {"cp": (2, 3, 4), "cmtf": (2, 3)}.get(kind_, (3,)):
        for given_it in (False, True):
            for old in (False, True):
                w = world(kind_, o)
                spec.add(f"{kind_}{o}: store, {'given' if given_it else 'current'} iteration, {'older checkpoints' if old else 'no file yet'}", mk_store(kind_, w, given_it, old), contracts=w.contracts())
        for which in ("chosen", "latest", "missing", "no checkpoints"):
            w = world(kind_, o)
            spec.add(f"{kind_}{o}: load, {which}", mk_load(kind_, w, which), contracts=w.contracts())


def mk_iter(its):
    def goal(I):
        st = I.files[PATH] = h5model.FileState()
        made = {}
        old_mode, st.mode = st.mode, "a"
        for e in its:
            w = dim("n%d" % e)
            K = call(I, D + "KruskalTensor", PList([param_arr("a%d" % e, (w, dim("R"))), param_arr("b%d" % e, (dim("J"), dim("R")))]))
            method(I, K, "store_in_hdf5_group", new_group(st, f"checkpoint_{e:05d}", made))
        new_group(st, "LossLogger", made)
        new_group(st, "aaa", made)
        st.mode = old_mode
        f = h5model.open_file(I, [PATH, "r"], {})
        got = I.iter_concrete(call(I, "tenkit.utils:iter_checkpoints", f))
        if not I.oblige("one per checkpoint, nothing else", len(got) == len(its)):
            return
        for e, g in zip(sorted(its), got):
            dec = method(I, get(I, D + "KruskalTensor"), "load_from_hdf5_group", g)
            oblige_array(I, f"checkpoint {e} in order", I.iter_concrete(attr(I, dec, "factor_matrices"))[0], (dim("n%d" % e), dim("R")), lambda i, r: app("a%d" % e, (i, r)))
        f.sym_exit(I, None)
    return goal


def new_group(st, name, made):
    g = h5model.Group(st)
    st.root.members.append(h5model.Member(name, g))
    made[name] = g
    return g


for its in ((), (0,), (10, 2, 99999, 0)):
    spec.add(f"iter_checkpoints: iterations {its}", mk_iter(its))
