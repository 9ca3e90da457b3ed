import itertools
import numpy as np
from tenkit import metrics
from tenkit.decomposition.decompositions import KruskalTensor, EvolvingTensor, Parafac2Tensor
from .common import *

OPT = [(True, "min"), (False, "min"), (True, "mean"), (False, "mean")]


def fixed(tier):
    out = []
    for R in (1, 2, 3, 4):
        for E in (R, R + 1):
            for n in (1, 2, 3, 4):
                out.append(dict(kind="fms", shape=[3] * n, R=R, E=E, opt=(R + n) % 4, near=True, fl="normal", lay="C", dup=False))
                out.append(dict(kind="separate", shape=[2, 4, 3, 2][:n], R=R, E=E, opt=(R + n) % 4, near=False, fl="normal", lay="C", dup=False))
    for k in ("kruskal", "evolving", "parafac2", "mixed"):
        for o in range(4):
            out.append(dict(kind=k, shape=[4, 3, 5], R=3, E=3, opt=o, near=True, fl="normal", lay="C", dup=False))
    out += [dict(kind="same", shape=[4, 3, 5], R=R, E=R, opt=o, near=False, fl="normal", lay="C", dup=False) for R in (1, 3, 5) for o in range(4)]
    out += [dict(kind="fms", shape=[1, 1, 1], R=2, E=2, opt=o, near=False, fl="normal", lay="C", dup=True) for o in range(4)]
    return out


def random_case(rng, tier):
    R = int(rng.integers(1, 5))
    kind = pick(rng, ["fms", "fms", "separate", "same", "kruskal", "evolving", "parafac2", "mixed"])
    n = 3 if kind in ("kruskal", "evolving", "parafac2", "mixed") else int(rng.integers(1, 6))
    return dict(kind=kind, shape=sizes(rng, n, 1, 6), R=R, E=R + (int(rng.integers(0, 3)) if kind in ("fms", "separate") and R < 4 else 0), opt=int(rng.integers(4)),
                near=bool(rng.random() < 0.4), fl=pick(rng, ("normal", "nonneg", "ints", "scaled", "int")), lay=pick(rng, LAYOUTS), dup=bool(rng.random() < 0.15))


def cosines(a, b):
    return np.array([[abs(float(a[:, r] @ b[:, q])) / np.sqrt(float(a[:, r] @ a[:, r]) * float(b[:, q] @ b[:, q])) for q in range(b.shape[1])] for r in range(a.shape[1])])


def table(t, e, penalty):
    """score of every pair of components"""
    t, e = [np.asarray(x, float) for x in t], [np.asarray(x, float) for x in e]
    S = np.ones((t[0].shape[1], e[0].shape[1]))
    for a, b in zip(t, e):
        S = S * cosines(a, b)
    if penalty:
        wt = np.prod([np.sqrt((a * a).sum(0)) for a in t], axis=0)
        we = np.prod([np.sqrt((a * a).sum(0)) for a in e], axis=0)
        S = S * (1 - np.abs(wt[:, None] - we[None]) / np.maximum(wt[:, None], we[None]))
    return S


def all_scores(S, red):
    R, E = S.shape
    f = min if red == "min" else (lambda v: sum(v) / len(v))
    return {p: f([S[r, p[r]] for r in range(R)]) for p in itertools.permutations(range(E), R)}


def judge(out, S, red, what):
    assert len(out) == 2, f"{what}: not a score and a pairing"
    sc = all_scores(S, red)
    best = max(sc.values())
    assert abs(float(out[0]) - best) <= 1e-7, f"{what}: score {float(out[0]):.9g} instead of {best:.9g}"
    assert -1e-9 <= float(out[0]) <= 1 + 1e-9, f"{what}: score outside [0, 1]"
    p = tuple(int(i) for i in out[1])
    assert p in sc, f"{what}: {p} is not a pairing"
    assert abs(sc[p] - best) <= 1e-7, f"{what}: pairing {p} does not attain the score"
    return float(out[0])


def model(rng, c, R, base=None):
    fs = []
    for m, d in enumerate(c["shape"]):
        x = values(rng, (d, R), c["fl"])
        if base is not None and c["near"]:
            q = rng.permutation(R)[:R]
            k = min(R, base[m].shape[1])
            x[:, :k] = base[m][:, :k] if c["fl"] == "int" else base[m][:, :k] + 0.1 * x[:, :k]
        if c["dup"] and R > 1:
            x[:, 1] = x[:, 0]
        if not ((x.astype(float) ** 2).sum(0) > 1e-14).all():
            raise Skip()
        fs.append(layout(rng, x, c["lay"]))
    if base is not None:
        p = rng.permutation(R)
        fs = [layout(rng, f[:, p], c["lay"]) for f in fs]
    return fs


def check(c):
    rng = rng_of(c)
    R, E, kind = c["R"], c["E"], c["kind"]
    pen, red = OPT[c["opt"]]
    t = model(rng, c, R)
    e = model(rng, c, E, t)
    if kind == "same":
        p = rng.permutation(R)
        sc = [np.exp(rng.standard_normal(R)) * rng.choice([-1.0, 1.0], R) for _ in t]
        if pen:
            sc = [np.sign(s) for s in sc]
        e = [(f * s)[:, p] for f, s in zip(t, sc)]
    fr = Frame(t=t, e=e)
    if kind in ("fms", "same"):
        v = judge(metrics.factor_match_score(t, e, weight_penalty=pen, fms_reduction=red), table(t, e, pen), red, "score")
        if kind == "same":
            assert abs(v - 1) < 1e-7, f"score of the same components {v}"
            S = all_scores(table(t, t, pen), red)
            p2 = metrics.factor_match_score(t, e, weight_penalty=pen, fms_reduction=red)[1]
            for f, g in zip(t, e):
                assert np.allclose(np.diag(cosines(np.asarray(f, float), np.asarray(g, float)[:, list(p2)])), 1, atol=1e-6), "pairing does not match equal components"
        else:
            # order, scaling and signs
            p = rng.permutation(E)
            s = [rng.choice([-1.0, 1.0], E) * (1 if pen else np.exp(rng.standard_normal(E))) for _ in e]
            e2 = [(f * q)[:, p] for f, q in zip(e, s)]
            v2 = float(metrics.factor_match_score(t, e2, weight_penalty=pen, fms_reduction=red)[0])
            assert abs(v - v2) < 1e-7, f"score {v} becomes {v2} after reordering and scaling"
            if R == E:
                v3 = float(metrics.factor_match_score(e, t, weight_penalty=pen, fms_reduction=red)[0])
                assert abs(v - v3) < 1e-7, f"score {v} becomes {v3} with the models exchanged"
        if len(t) == 2:
            ev = [rng.standard_normal((3, 4, x[0].shape[1])) for x in (t, e)]
            judge(metrics.factor_match_score_parafac2([t[0], ev[0], t[1]], [e[0], ev[1], e[1]], weight_penalty=pen, fms_reduction=red), table(t, e, pen), red, "score of evolving factors")
        if not pen and red == "min":
            judge(metrics.factor_match_score(t, e, False), table(t, e, False), "min", "default reduction")
        if pen and red == "min":
            judge(metrics.factor_match_score(t, e), table(t, e, True), "min", "defaults")
        for bad in ("max", "Mean", None):
            raises("unknown reduction", ValueError, lambda: metrics.factor_match_score(t, e, fms_reduction=bad))
    elif kind == "separate":
        out = metrics.separate_mode_factor_match_score(t, e, fms_reduction=red)
        assert len(out) == 2 and len(out[0]) == len(t) and len(out[1]) == len(t), "one score and pairing per mode"
        for m in range(len(t)):
            judge((out[0][m], out[1][m]), table([t[m]], [e[m]], False), red, f"mode {m}")
    elif kind == "kruskal":
        K1, K2 = KruskalTensor(t), KruskalTensor(e)
        judge(K1.factor_match_score(K2, weight_penalty=pen, fms_reduction=red), table(t, e, pen), red, "Kruskal")
        out = K1.seperate_mode_factor_match_score(K2, fms_reduction=red)
        for m in range(3):
            judge((out[0][m], out[1][m]), table([t[m]], [e[m]], False), red, f"Kruskal, mode {m}")
    else:
        K = c["shape"][2]
        def evo(f, cls, Js):
            Ps = [values(rng, (j, R), "normal") for j in Js]
            if cls is EvolvingTensor:
                T, Bs = EvolvingTensor(f[0], Ps, f[2], warning=False), Ps
            else:
                bl = values(rng, (R, R), "normal")
                T, Bs = Parafac2Tensor(f[0], bl, f[2], Ps, warning=False), [P @ bl for P in Ps]
            return T, [f[0], np.concatenate(Bs, axis=0), f[2]]
        Js = [int(rng.integers(1, 5)) for _ in range(K)]
        c1, c2 = {"evolving": (EvolvingTensor,) * 2, "parafac2": (Parafac2Tensor,) * 2, "mixed": (Parafac2Tensor, EvolvingTensor)}[kind]
        T1, f1 = evo(t, c1, Js)
        T2, f2 = evo(e, c2, Js)
        judge(T1.factor_match_score(T2, weight_penalty=pen, fms_reduction=red), table(f1, f2, pen), red, kind)
        judge(T1.factor_match_score(T2), table(f1, f2, True), "min", kind + ", defaults")
        out = T1.separate_mode_factor_match_score(T2, fms_reduction=red)
        for m in range(3):
            judge((out[0][m], out[1][m]), table([f1[m]], [f2[m]], False), red, f"{kind}, mode {m}")
        if c1 is EvolvingTensor and len(set(Js)) == 1:
            w = np.exp(rng.standard_normal(R))
            fk = [e[0], values(rng, (Js[0], R), "normal"), e[2]]
            out = T1.separate_mode_factor_match_score(KruskalTensor(fk, w), fms_reduction=red)
            f2 = [fk[0] * w, np.concatenate([fk[1]] * K, axis=0), fk[2]]
            for m in range(3):
                judge((out[0][m], out[1][m]), table([f1[m]], [f2[m]], False), red, f"against Kruskal, mode {m}")
    fr.check()
