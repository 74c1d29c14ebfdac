"""M05: federated tree boosting chooses the trees of the joined data, and predicts by walking them."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import simp, tensor
from mplang.libs.ml.sgb import SecureBoost
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "M05"
ASSUMPTIONS = [
    "gradients are encrypted with 15 fractional bits (documented), and held as 32 or 64-bit floats: of splits whose gains differ by no more than these roundings explain any may be chosen, all else is decided exactly",
    "labels are 0 or 1; features are finite",
]
QUANT = 2.0**-16


def column(r, rng, m, dt):
    k = r.choice(["normal", "normal", "grid", "binary", "const", "skew", "dup", "decimal", "sorted", "huge"])
    if k == "normal":
        v = rng.normal(size=m) * r.choice([1, 1, 1e-3, 1e3])
    elif k == "grid":
        v = rng.integers(-4, 5, size=m)
    elif k == "binary":
        v = rng.integers(0, 2, size=m)
    elif k == "const":
        v = np.full(m, r.choice([0, 3.25]))
    elif k == "skew":
        v = np.exp(rng.normal(size=m) * 3)
    elif k == "dup":
        v = rng.normal(size=3)[rng.integers(0, 3, size=m)]
    elif k == "decimal":
        v = rng.integers(0, 11, size=m) / 10
    elif k == "sorted":
        v = np.sort(rng.normal(size=m))
    else:
        v = rng.normal(size=m) + r.choice([1e3, 1e4] if dt == np.float32 else [1e4, 1e7, 1e9])
    return np.asarray(v).astype(dt)


def plan(seed, small):
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    P = r.randint(1, 4)
    n = r.randint(1, P) if r.random() < 0.2 else r.randint(min(2, P), min(P, 3))
    ranks = r.sample(range(P), n)
    m = r.choice([2, 3, 5, 17, 64, r.randint(2, 200), r.randint(100, 400)]) if small else r.choice([513, 700, 1025, r.randint(500, 1500)])
    feats = [r.choice([1, 1, 2, 3]) for _ in ranks]
    dt = r.choice([np.float32, np.float32, np.float64])
    X = [np.stack([column(r, rng, m, dt) for _ in range(f)], axis=1) for f in feats]
    y_dt = r.choice([np.float32, np.float32, np.float64, np.int64])
    if r.random() < 0.1:
        y = np.full(m, r.choice([0, 1]))
    elif r.random() < 0.3:
        y = rng.random(m) < r.choice([0.5, 0.1, 0.9])
    else:
        w = [rng.normal() * r.choice([0, 1, 1]) for _ in range(sum(feats))]
        Z = np.concatenate(X, axis=1).astype(np.float64)
        Z = (Z - Z.mean(axis=0)) / (Z.std(axis=0) + 1e-9)
        s = Z @ w + rng.normal(size=m) * r.choice([0, 0.3])
        if r.random() < 0.3:
            s = s * Z[:, 0]
        y = s > 0
    y = np.asarray(y).astype(y_dt)
    mt = r.choice([1, 7, m])
    T = [np.stack([np.where(rng.random(mt) < 0.3, x[rng.integers(0, m, size=mt), f], column(r, rng, mt, dt)) for f in range(k)], axis=1).astype(dt) for x, k in zip(X, feats)]
    par = dict(
        n_estimators=r.choice([1, 1, 1, 2, 2, 3]) if small else 1,
        learning_rate=r.choice([0.1, 0.3, 1.0]),
        max_depth=r.choice([1, 1, 2, 2, 2, 3]) if small else r.choice([1, 2]),
        max_bin=r.choice([2, 3, 4, 5, 7, 8, 8, 10, 10, 15, 16, 31]),
        reg_lambda=r.choice([1.0, 1.0, 0.1, 5.0]),
        gamma=r.choice([0.0, 0.0, 0.01, 0.5]),
        min_child_weight=r.choice([1.0, 0.1, 1e-3, 3.0]),
    )
    return dict(P=P, ranks=ranks, feats=feats, X=X, y=y, T=T, how=r.choice(["predict", "predict", "predict_proba"]), evaluate=r.random() < 0.3, y2=rng.integers(0, 2, size=mt).astype(np.float32), par=par)


def split_tables(p):
    """Per party and feature: cut points, as the documented equi-width binning gives them."""
    out = []
    for X in p["X"]:
        cuts = []
        for f in range(X.shape[1]):
            x = X[:, f]
            lo, hi = x.min(), x.max()
            cuts.append(np.linspace(float(lo), float(hi), p["par"]["max_bin"] + 1)[1:-1] if len(x) >= 2 and float(hi) - float(lo) >= 1e-9 else None)
        out.append(cuts)
    return out


def sums(left, g, h):
    return g[left].sum(), h[left].sum(), int(left.sum())


def gain_of(parts, total, par, eps):
    """Gain of a split, how far roundings may move it, and whether its children are heavy enough (None: too close)."""
    lam = par["reg_lambda"]

    def score(G, H, n):
        d = n * (QUANT + eps) + abs(G) * eps
        s = G * G / (H + lam + 1e-9)
        return s, (2 * abs(G) * d + d * d) / (H + lam) + s * d / (H + lam)

    s, e = zip(*(score(*x) for x in (*parts, total)))
    gain = (s[0] + s[1] - s[2]) / 2 - par["gamma"]
    tol = sum(e) + eps * 10 * (sum(s) + 1)
    ok = True
    for G, H, n in parts:
        d = (n + total[2]) * (QUANT + eps) * 2 + 1e-7
        if H < par["min_child_weight"] - d:
            return gain, tol, False
        if H < par["min_child_weight"] + d:
            ok = None
    return gain, tol, ok


def ulp(x):
    return float(np.finfo(x.dtype).eps) * float(np.abs(x).max())


def judge(p, trees, init, preds, acc, what):
    par, X, y = p["par"], p["X"], p["y"].astype(np.float64)
    m = len(y)
    cuts = split_tables(p)
    eps = 2.0**-21
    mean = np.clip(y.mean(), 1e-15, 1 - 1e-15)
    base = np.log(mean / (1 - mean))
    init = float(init)
    check(abs(init - base) <= 1e-5 * max(1, abs(base)) or (abs(base) > 15 and abs(init) > 15 and init * base > 0), lambda: f"{what}: initial prediction {init} instead of {base}")
    logits = np.full(m, init)
    n_nodes = 2 ** (par["max_depth"] + 1) - 1
    splits = {"own": 0, "other": 0}
    rows = [(np.full(m, init), X, None), (np.full(len(p["y2"]), init), p["T"], preds)]

    def side(cutoff, x):
        return x.astype(np.float64) <= cutoff

    for t, tr in enumerate(trees):
        pr = 1 / (1 + np.exp(-logits))
        g, h = pr - y, pr * (1 - pr)
        at = {0: np.ones(m, dtype=bool)}
        values = {}
        for node in range(n_nodes):
            if node not in at:
                continue
            here = at[node]
            total = (*sums(here, g, h),)
            where = f"{what}: tree {t}, node {node} ({total[2]} samples)"
            deep = node >= n_nodes // 2
            leaf = bool(tr["is_leaf"][node])
            check(leaf or not deep, lambda: f"{where} of the last level is split")
            cand = {}
            if not deep:
                for k, cs in enumerate(cuts):
                    for f, c in enumerate(cs):
                        for cut in c if c is not None else []:
                            left = here & side(cut, X[k][:, f])
                            # samples lying on the cut up to rounding may fall on either side of it
                            near = here & (np.abs(X[k][:, f].astype(np.float64) - cut) <= 4 * ulp(X[k][:, f]))
                            L = sums(left, g, h)
                            R = (total[0] - L[0], total[1] - L[1], total[2] - L[2])
                            gn, tol, ok = gain_of((L, R), total, par, eps)
                            if near.any():
                                ok = None
                            cand[k, f, float(cut)] = gn, tol, ok
            sure = [(gn - tol) for gn, tol, ok in cand.values() if ok]
            best = max(sure, default=-np.inf)
            if leaf:
                check(best <= 1e-6, lambda: f"{where} is a leaf though a split gains {best}: {max((c for c in cand.items() if c[1][2]), key=lambda c: c[1][0])}")
                G, H, n = total
                want = -G / (H + par["reg_lambda"]) if n else 0.0
                d = (n * eps * 4 + abs(G) * eps) / (H + par["reg_lambda"]) * 4 + abs(want) * 1e-5 + 1e-6
                check(abs(tr["value"][node] - want) <= d, lambda: f"{where} is a leaf of weight {tr['value'][node]} instead of {want}")
                values[node] = tr["value"][node]
                continue
            own = int(tr["owner"][node])
            check(0 <= own < len(p["ranks"]), lambda: f"{where} belongs to party {own}")
            f, cut = int(tr["feature"][own][node]), float(tr["threshold"][own][node])
            for k in range(len(p["ranks"])):
                if k != own:
                    check(int(tr["feature"][k][node]) == -1 and np.isinf(tr["threshold"][k][node]), lambda: f"{where} is split by party {own}, but party {k} holds feature {tr['feature'][k][node]}, threshold {tr['threshold'][k][node]} for it")
            check(0 <= f < p["feats"][own], lambda: f"{where} is split by party {own} on its feature {f}")
            known = [c for c in cand if c[0] == own and c[1] == f]
            at_cut = min(known, key=lambda c: abs(c[2] - cut), default=None)
            scale = float(np.abs(X[own][:, f]).max())
            check(at_cut is not None and abs(at_cut[2] - cut) <= max(8 * ulp(X[own][:, f]), 1e-6 * scale), lambda: f"{where} is split by party {own} on feature {f} at {cut}, which is none of its cut points {[c[2] for c in known]}")
            gn, tol, ok = cand[at_cut]
            x = X[own][:, f].astype(np.float64)
            near = np.abs(x - at_cut[2]) <= 8 * ulp(X[own][:, f])
            bad = here & ~near & (side(cut, x) != side(at_cut[2], x))
            check(not bad.any(), lambda: f"{where} is split at {at_cut}, but its threshold {cut!r} sorts samples of value {x[bad]!r} to the other side")
            if not (here & near).any():
                check(ok is not False, lambda: f"{where} is split at {at_cut} leaving a child below the minimal weight {par['min_child_weight']}")
                check(gn + tol >= 0, lambda: f"{where} is split at {at_cut} gaining {gn}")
                check(gn + tol >= best - 1e-6, lambda: f"{where} is split at {at_cut} gaining {gn} though a split gains {best}: {max((c for c in cand.items() if c[1][2]), key=lambda c: c[1][0])}")
            splits["own" if own == 0 else "other"] += 1
            left = side(cut, X[own][:, f])
            at[2 * node + 1], at[2 * node + 2] = here & left, here & ~left

        def walk(Z, i):
            node = 0
            while not tr["is_leaf"][node]:
                own = int(tr["owner"][node])
                go = float(Z[own][i, int(tr["feature"][own][node])]) <= float(tr["threshold"][own][node])
                node = 2 * node + (1 if go else 2)
            return float(tr["value"][node])

        for acc_l, Z, _ in rows:
            acc_l += par["learning_rate"] * np.array([walk(Z, i) for i in range(len(acc_l))])
        logits = rows[0][0].copy()
    want = 1 / (1 + np.exp(-rows[1][0]))
    got = np.asarray(preds, dtype=np.float64)
    check(got.shape == want.shape and np.allclose(got, want, rtol=1e-4, atol=1e-5), lambda: f"{what}: predictions differ from walking the trees: {got[~np.isclose(got, want, rtol=1e-4, atol=1e-5)][:3]} instead of {want[~np.isclose(got, want, rtol=1e-4, atol=1e-5)][:3]}")
    if acc is not None and not (np.abs(rows[1][0]) < 1e-4).any():
        want = np.mean((rows[1][0] > 0) == (p["y2"] > 0.5))
        check(abs(float(acc) - want) < 1e-5, lambda: f"{what}: accuracy {acc} instead of {want}")
    return splits


def job(p):
    ranks, par = p["ranks"], p["par"]

    def place(rank, v):
        return simp.pcall_static((rank,), lambda: tensor.constant(v))

    m = len(p["y"])
    X = [place(k, v) for k, v in zip(ranks, p["X"])]
    T = [place(k, v) for k, v in zip(ranks, p["T"])]
    y = place(ranks[0], p["y"])
    model = SecureBoost(ap_rank=ranks[0], pp_ranks=ranks[1:], **par)
    got = model.fit(X, y, n_samples=m, n_features_per_party=p["feats"])
    check(got is model, "fit does not return the model")
    n = len(p["y2"])
    out = [model.model.initial_prediction, getattr(model, p["how"])(T, n_samples=n)]
    if p["evaluate"]:
        out.append(model.evaluate(T, place(ranks[0], p["y2"]), n_samples=n))
    for tr in model.model.trees:
        out += [tr.value, tr.is_leaf, tr.owned_party_id, *tr.feature, *tr.threshold]
    return out


def run_fit(c):
    seed, how, over_http, small = c
    p = plan(seed, small)
    what = f"{how} fit of {len(p['y'])} samples, features {p['feats']} at parties {p['ranks']} of {p['P']}, {p['par']} (seed {seed})"
    with (http if over_http else simulator)(p["P"]) as interp:
        outs, vals = execute(interp, how, lambda: job(p), 200, what)
    ap, n = p["ranks"][0], len(p["ranks"])
    per = 3 + 2 * n
    vals = vals if p["evaluate"] else [*vals[:2], [None] * p["P"], *vals[2:]]
    init, preds, acc = (v[ap] for v in vals[:3])
    trees = []
    for i in range(p["par"]["n_estimators"]):
        v = vals[3 + i * per : 3 + (i + 1) * per]
        trees.append(dict(value=np.asarray(v[0][ap]), is_leaf=np.asarray(v[1][ap]), owner=np.asarray(v[2][ap]),
                          feature=[np.asarray(v[3 + k][p["ranks"][k]]) for k in range(n)], threshold=[np.asarray(v[3 + n + k][p["ranks"][k]]) for k in range(n)]))
        for k in range(n):
            for q in range(p["P"]):
                if q != p["ranks"][k]:
                    check(v[3 + k][q] is None and v[3 + n + k][q] is None, lambda: f"{what}: party {q} holds the splits of party {p['ranks'][k]}")
        for q in p["ranks"][1:]:
            check(v[0][q] is None, lambda: f"{what}: passive party {q} holds the leaf weights")
    s = judge(p, trees, init, preds, acc, what)
    label(f"split by {'both' if s['own'] and s['other'] else 'active' if s['own'] else 'passive' if s['other'] else 'none'}")
    label("http" if over_http else "memory")
    label(f"parties {n}")
    label(f"bins {p['par']['max_bin']}")


def nt(c):
    p = plan(c[0], c[3])
    return len(p["ranks"]) > 1 and len(set(p["y"].tolist())) > 1


SUBS = [
    Sub("fit", lambda: st.tuples(st.integers(0, 2**40), st.sampled_from(["traced", "traced", "packed", "eager"]), st.sampled_from([False] * 7 + [True]), st.just(True)), run_fit,
        "random data sets of 2 to 400 samples (continuous, on a grid, binary, constant, skewed, duplicated, decimal features), labels and parameters, features split between one to three of one to four parties in any roles: every node of every tree is checked against exact gains on the joined data, leaf weights, predictions on training and new data and accuracy against walking the trees; non-trivial = a passive party takes part and both labels occur",
        nt, quick=5, thorough=250, shards_quick=8, shards_thorough=8, hang_s=300, pin=True),
    Sub("large", lambda: st.tuples(st.integers(0, 2**40), st.just("traced"), st.just(False), st.just(False)), run_fit,
        "the same with 500 to 1500 samples, more than fit in one ciphertext; non-trivial = a passive party takes part and both labels occur",
        nt, quick=2, thorough=40, shards_quick=8, shards_thorough=8, hang_s=300, pin=True),
]
KNOWN = []
