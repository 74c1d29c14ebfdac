"""M03: vector OLE correlations satisfy w = v + u*delta."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.dialects import crypto, field, tensor
from mplang.libs.mpc.ot import silent
from mplang.libs.mpc.vole import gilboa, ldpc, silver
from mplang.runtime.interpreter import Interpreter
from checks.f01 import array, ref_mul, same
from checks.m02 import local, only_at, parties, protocol
from vf.core import Sub, check, label

PROPERTY = "M03"
ASSUMPTIONS = [
    "the LDPC variant is noisy by design: the equation holds up to noise at exactly the stated number of positions; silver_vole_ldpc is documented as incorrect and excluded",
    "both parties follow the protocol and run the same kernel build",
]
U = np.uint64


def judge(v, w, u, d, n, what):
    check(v.shape == w.shape == u.shape == (n, 2) and d.shape == (2,), lambda: f"{what}: shapes {v.shape} {w.shape} {u.shape} {d.shape}")
    same(w, v ^ ref_mul(u, np.broadcast_to(d, (n, 2))), f"{what}: w against v + u*delta")


def fresh(seen, what, **vals):
    for k, x in vals.items():
        for row in x.reshape(-1, 2):
            t = (k, row.tobytes())
            check(t not in seen, lambda: f"{what}: a value of {k} occurs twice")
            seen.add(t)


# ---- Gilboa ---------------------------------------------------------------------------------------------
gil_case = lambda: st.tuples(st.sampled_from([64, 1, 2, 3, 7, 8, 127, 128, 129, 200, 300]), st.sampled_from(["random", "random", "given"]), st.sampled_from(["traced", "traced", "eager", "http"]), st.booleans(), st.integers(0, 2**40))


def run_gilboa(c):
    n, source, how, secrets, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(f"{source} {how}")
    given = source == "given"
    u0, d0 = array(r, (n,)), array(r, ())
    secrets = secrets or not given
    up = (lambda: tensor.constant(u0)) if given else (lambda: crypto.random_tensor((n, 2), elt.u64))
    dp = (lambda: tensor.constant(d0)) if given else (lambda: crypto.random_tensor((2,), elt.u64))
    seen = set()
    for i in range(3 if how == "traced" else 1):
        what = f"VOLE of {n} from {s} to {t} of {P} ({source} inputs, {how}, run {i})"
        if given:
            what += f", u {[hex(int(x)) for x in u0.ravel()[:4]]}, delta {[hex(int(x)) for x in d0]}"
        key = ("gilboa", n, P, s, t, secrets) if not given else ("gilboa", n, P, s, t, secrets, seed)
        out = protocol(key, lambda: gilboa.vole(s, t, n, up, dp, return_secrets=secrets), P, [], how, what)
        check(len(out) == (4 if secrets else 2), lambda: f"{what}: {len(out)} results")
        v, w = only_at(out[0], s, what + ", v"), only_at(out[1], t, what + ", w")
        u, d = (only_at(out[2], s, what + ", u"), only_at(out[3], t, what + ", delta")) if secrets else (u0, d0)
        if given:
            check(np.array_equal(u, u0) and np.array_equal(d, d0), lambda: f"{what}: the secrets returned are not those given")
        judge(v, w, u, d, n, what)
        fresh(seen, what, v=v)
        if not given:
            fresh(seen, what, u=u, d=d)


# ---- linear expansion -----------------------------------------------------------------------------------
sil_case = lambda: st.tuples(st.sampled_from([1000, 1, 2, 127, 128, 129, 255, 256, 1025, 3000]), st.sampled_from([128, 128, 129, 200, 256, 1024]), st.sampled_from(["traced", "traced", "eager", "http"]), st.integers(0, 2**40))


def run_silent(c):
    n, k, how, seed = c
    if k > 256:
        n = min(n, 300)
    r = random.Random(seed)
    P, s, t = parties(r)
    label(how)
    seen = set()
    for i in range(3 if how == "traced" else 1):
        what = f"silent VOLE of {n} from a base of {k}, from {s} to {t} of {P} ({how}, run {i})"
        out = protocol(("silent", n, k, P, s, t), lambda: silent.silent_vole_random_u(s, t, n, base_k=k), P, [], how, what)
        v, w, u, d = (only_at(x, p, f"{what}, {m}") for x, p, m in zip(out, (s, t, s, t), ("v", "w", "u", "delta"), strict=True))
        judge(v, w, u, d, n, what)
        fresh(seen, what, v=v, u=u, d=d)


long_case = lambda: st.tuples(st.sampled_from([100_000, 100_001, 150_000, 200_000, 230_001, 300_017]), st.sampled_from([8, 16, 9]), st.integers(0, 2**40))


def run_long(c):
    n, k, seed = c
    r = random.Random(seed)
    P, s, t = parties(r, 2)
    what = f"silent VOLE of {n} from a base of {k}, from {s} to {t} of {P}"
    out = protocol(("silent", n, k, P, s, t), lambda: silent.silent_vole_random_u(s, t, n, base_k=k), P, [], "traced", what, limit=200)
    v, w, u, d = (only_at(x, p, f"{what}, {m}") for x, p, m in zip(out, (s, t, s, t), ("v", "w", "u", "delta"), strict=True))
    judge(v, w, u, d, n, what)
    # no window of it occurs again at a distance seen nowhere by chance
    first = u[:40]
    hits = [i for i in np.flatnonzero((u[1 : n - 39] == first[0]).all(axis=1)) + 1 if np.array_equal(u[i : i + 40], first)]
    check(not hits, lambda: f"{what}: u repeats itself from position {hits[0]} on")
    tail = u[n - 40 :]
    hits = [i for i in np.flatnonzero((u[: n - 40] == tail[0]).all(axis=1)) if np.array_equal(u[i : i + 40], tail)]
    check(not hits, lambda: f"{what}: the end of u is also at position {hits[0]}")


large_case = lambda: st.tuples(st.sampled_from([("silver", 21_000), ("gilboa", 1000), ("gilboa", 2049), ("gilboa", 5000), ("gilboa", 20_001), ("silver", 5000), ("silver", 25_000)]), st.integers(0, 2**40))


def run_large(c):
    (kind, n), seed = c
    label(f"{kind} {n}")
    if kind == "gilboa":
        run_gilboa((n, "random", "eager", True, seed))
    else:
        run_silver((n, "eager", seed))


# ---- LDPC variant ---------------------------------------------------------------------------------------
silver_case = lambda: st.tuples(st.sampled_from([64, 65, 100, 128, 200, 500, 1279, 1280, 1300, 2000]), st.sampled_from(["traced", "traced", "eager"]), st.integers(0, 2**40))


def run_silver(c):
    n, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(how)
    seen = set()
    for i in range(3 if how == "traced" else 1):
        what = f"silver VOLE of {n} from {s} to {t} of {P} ({how}, run {i})"
        out = protocol(("silver", n, P, s, t), lambda: silver.silver_vole(s, t, n, return_secrets=True), P, [], how, what)
        v, w, u, d = (only_at(x, p, f"{what}, {m}") for x, p, m in zip(out, (s, t, s, t), ("v", "w", "u", "delta"), strict=True))
        check(v.shape == w.shape == u.shape == (n, 2) and d.shape == (2,), lambda: f"{what}: shapes {v.shape} {w.shape} {u.shape} {d.shape}")
        e = w ^ v ^ ref_mul(u, np.broadcast_to(d, (n, 2)))
        k = int(e.any(axis=1).sum())
        check(k == silver.SILVER_NOISE_WEIGHT, lambda: f"{what}: w differs from v + u*delta at {k} positions instead of {silver.SILVER_NOISE_WEIGHT}")
        fresh(seen, what, noise=e[e.any(axis=1)], d=d)
        for k, x in (("u", u), ("v", v), ("w", w), ("noise positions", e.any(axis=1))):
            check(n < 100 or (k, x.tobytes()) not in seen, lambda: f"{what}: the same {k} as in another run")
            seen.add((k, x.tobytes()))


noise_case = lambda: st.tuples(st.sampled_from([(1, 1), (2, 1), (2, 2), (3, 2), (5, 4), (10, 3), (64, 64), (65, 64), (70, 64), (100, 5), (200, 64), (1000, 64), (5000, 10), (9, 9)]), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_noise(c):
    (n, k), how, _ = c
    runs = 40 if n <= 10 else 4
    label("small" if n <= 10 else "large")
    hit = np.zeros(n, int)
    seen = set()
    with Interpreter():
        go = (lambda: ldpc.generate_sparse_noise(n, k)) if how == "eager" else None
        if go is None:
            t = mp.compile(lambda: ldpc.generate_sparse_noise(n, k))
            go = lambda: mp.evaluate(t)
        for _ in range(runs):
            e = np.asarray(go().runtime_obj.unwrap())
            check(e.shape == (n, 2) and e.dtype == U, lambda: f"noise of {n} is {e.dtype}{e.shape}")
            nz = e.any(axis=1)
            check(nz.sum() == k, lambda: f"noise of weight {k} over {n} positions has {int(nz.sum())} non-zero positions")
            fresh(seen, f"noise of weight {k} over {n}", value=e[nz])
            hit += nz
    if n <= 10:  # each position is hit with probability k/n
        p, sd = runs * k / n, (runs * (k / n) * (1 - k / n)) ** 0.5
        check((abs(hit - p) <= 6 * sd + 1e-9).all(), lambda: f"noise of weight {k} over {n} positions: {runs} draws hit them {hit.tolist()} times")


bad_noise = lambda: st.tuples(st.integers(1, 30), st.integers(0, 40))


def run_heavy(c):
    n, k = c
    if k and k <= n:
        k = n + k
    if k == 0:
        return
    label("too heavy")
    try:
        with Interpreter():
            e = np.asarray(ldpc.generate_sparse_noise(n, k).runtime_obj.unwrap())
    except Exception:
        return
    check(False, lambda: f"noise of weight {k} over {n} positions was produced, with {int(e.any(axis=1).sum())} non-zero")


code_case = lambda: st.tuples(st.integers(1, 300), st.integers(1, 200), st.integers(0, 2**31 - 1), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_code(c):
    n, m, hs, how, seed = c
    r = random.Random(seed)
    H = ldpc.generate_silver_ldpc(n, m, hs)
    check(H.shape == (m, n), lambda: f"matrix of {m} rows and {n} columns is {H.shape}")
    D = H.toarray()
    check(set(np.unique(D)) <= {0, 1}, "matrix is not 0/1")
    rows = D.sum(axis=1)
    most = min(ldpc.SILVER_WEIGHT, n)
    check((rows >= min(3, most)).all() and (rows <= most).all(), lambda: f"rows of the {m}x{n} matrix have between {rows.min()} and {rows.max()} ones, weight is {most}")
    again = ldpc.generate_silver_ldpc(n, m, hs)
    check(np.array_equal(again.toarray(), D), "the same seed gives two matrices")
    ptr, idx = ldpc.matrix_to_sparse_repr(H)
    x = array(r, (n,))
    want = np.zeros((m, 2), U)
    for i in range(m):
        want[i] = np.bitwise_xor.reduce(x[D[i].astype(bool)], axis=0)
    outs = local(lambda: [ldpc.ldpc_encode_sparse(tensor.constant(x), tensor.constant(idx), tensor.constant(ptr), m, n), field.ldpc_encode(tensor.constant(x), tensor.constant(idx), tensor.constant(ptr), m, n)] + ([ldpc.ldpc_encode_dense_jax(tensor.constant(x), tensor.constant(D))] if m * n < 5000 else []), how)
    for o, name in zip(outs, ("sparse", "field", "dense")):
        same(o, want, f"{name} encoding with a {m}x{n} matrix")


SUBS = [
    Sub(f"{k}gilboa", gil_case, run_gilboa, f"VOLE of 1 to 300 elements, random or given inputs (edge elements included), any roles, {b} kernels, every position against polynomial arithmetic, values of three runs distinct; non-trivial = more than one element",
        lambda c: c[0] > 1, quick=3, thorough=80, shards_quick=3, shards_thorough=8, hang_s=200, pin=True, native=nat) for k, b, nat in (("", "portable", False), ("native_", "native", True))
] + [
    Sub(f"{k}silent", sil_case, run_silent, f"silent VOLE of 1 to 3000 elements from bases of 128 to 1024, {b} kernels; every position against polynomial arithmetic, no value twice; non-trivial = more than one element",
        lambda c: c[0] > 1, quick=3, thorough=80, shards_quick=3, shards_thorough=8, hang_s=200, pin=True, native=nat) for k, b, nat in (("", "portable", False), ("native_", "native", True))
] + [
    Sub("long", long_case, run_long, "silent VOLE of 100000 to 300017 elements from small bases, native kernels; every position, no stretch of it repeated; non-trivial = all",
        lambda c: True, quick=2, thorough=15, shards_quick=2, shards_thorough=4, hang_s=250, pin=True, native=True),
    Sub("large", large_case, run_large, "Gilboa VOLE of 1000 to 20001 and silver VOLE of 5000 to 25000 elements, native kernels; non-trivial = all",
        lambda c: True, quick=2, thorough=30, shards_quick=4, shards_thorough=8, hang_s=300, pin=True, native=True),
    Sub("silver", silver_case, run_silver, "silver VOLE of 64 to 2000 elements: the equation up to noise at exactly the stated number of positions, fresh in every run; non-trivial = all",
        lambda c: True, quick=2, thorough=60, shards_quick=3, shards_thorough=8, hang_s=200, pin=True),
    Sub("noise", noise_case, run_noise, "sparse noise: exact weight, distinct values, and for few positions how often each is hit; non-trivial = more than one position",
        lambda c: c[0][1] > 1, quick=6, thorough=100, shards_quick=3, shards_thorough=8, hang_s=200, pin=True),
    Sub("heavy", bad_noise, run_heavy, "sparse noise of more positions than there are is refused; non-trivial = all",
        lambda c: c[1] > 0, quick=30, thorough=300, hang_s=100, pin=True),
    Sub("code", code_case, run_code, "random code matrices: shape, weights, reproducibility; encodings against plain sums; non-trivial = all",
        lambda c: True, quick=20, thorough=500, shards_quick=2, shards_thorough=8, hang_s=100, pin=True),
]
KNOWN = []
