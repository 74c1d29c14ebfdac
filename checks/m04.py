"""M04: oblivious shuffling and grouping equal the plain computation."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import simp
from mplang.libs.mpc.analytics import groupby, permutation
from checks.m02 import arrays, data, only_at, parties, protocol, tapped
from vf.core import Sub, check, label

PROPERTY = "M04"
ASSUMPTIONS = [
    "the receiver's permutation is one, bins lie in [0, K), sums fit the plaintext modulus of the homomorphic variant",
    "secrecy is only checked as far as it shows in the messages exchanged: inputs do not travel in the clear to those they are hidden from",
]


def clear(log, secret, allowed, what, name):
    """A secret array does not travel in the clear, except to allowed parties."""
    raw = np.ascontiguousarray(secret).tobytes()
    if len(raw) < 24 or len(set(raw)) < 8:
        return
    for src, dst, x in log:
        if dst not in allowed:
            check(all(raw not in np.ascontiguousarray(a).tobytes() for a in arrays(x)), lambda: f"{what}: {name} travel from {src} to {dst} in the clear")


# ---- permutation ------------------------------------------------------------------------------------------
DT = ["int64", "int64", "uint64", "int32", "uint8", "float64", "float32", "bool", "int16"]
perm_case = lambda: st.tuples(st.one_of(st.integers(1, 9), st.sampled_from([1, 2, 3, 4, 8, 9, 15, 16, 17, 20, 32, 33])), st.sampled_from(DT), st.sampled_from(["tensor", "tensor", "list"]), st.sampled_from(["int64", "int64", "int32", "uint64", "uint32"]), st.sampled_from(["traced", "eager", "traced", "http"]), st.integers(0, 2**40))


def permutation_of(r, n):
    k = r.choice(["random", "random", "random", "identity", "reverse", "cycle", "swap"])
    p = list(range(n))
    if k == "random":
        r.shuffle(p)
    elif k == "reverse":
        p.reverse()
    elif k == "cycle":
        j = r.randrange(n)
        p = p[j:] + p[:j]
    elif k == "swap" and n > 1:
        i, j = r.sample(range(n), 2)
        p[i], p[j] = p[j], p[i]
    return p


def run_permute(c):
    n, dtype, form, pdt, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(form)
    label(dtype)
    for i in range(2 if how == "traced" else 1):
        x, p = data(r, (n,), dtype), np.array(permutation_of(r, n), pdt)
        what = f"permutation {p.tolist()} ({pdt}) of {dtype} {x.tolist()} as a {form} from {s} to {t} of {P} ({how})"
        ins = [(s, v) for v in x] if form == "list" else [(s, x)]
        with tapped() as log:
            out = protocol(("perm", n, dtype, form, pdt, P, s, t), lambda *a: permutation.apply_permutation(list(a[:-1]) if form == "list" else a[0], a[-1], s, t), P, [*ins, (t, p)], how, what)
        check(len(out) == (n if form == "list" else 1), lambda: f"{what}: {len(out)} results")
        got = np.array([only_at(v, t, what) for v in out])
        got = got if form == "list" else got[0]
        want = x[p.astype(int)]
        check(got.dtype == want.dtype and got.shape == want.shape, lambda: f"{what}: result is {got.dtype}{got.shape}")
        check(got.tobytes() == want.tobytes(), lambda: f"{what}: got {got.tolist()} instead of {want.tolist()}")
        for src, dst, _ in log:
            check({src, dst} <= {s, t}, lambda: f"{what}: party {src} sends to {dst}")
        clear(log, p, (t,), what, "the indices")
        if x.itemsize == 8 and n > 3:
            clear(log, x, (), what, "the data")


rows_case = lambda: st.tuples(st.integers(1, 8), st.integers(1, 4), st.sampled_from(["tensor", "list"]), st.sampled_from(["traced", "eager"]), st.integers(0, 2**40))


def run_rows(c):
    """Rows of a matrix: permuted as rows, or refused."""
    n, d, form, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r, 2)
    x, p = data(r, (n, d), "int64"), np.array(permutation_of(r, n))
    what = f"permutation {p.tolist()} of the rows of {x.tolist()} as a {form}"
    label(form)
    ins = [(s, v) for v in x] if form == "list" else [(s, x)]
    try:
        out = protocol(None if how == "eager" else ("rows", n, d, form, s, t), lambda *a: permutation.apply_permutation(list(a[:-1]) if form == "list" else a[0], a[-1], s, t), P, [*ins, (t, p)], how, what)
    except Exception as e:
        if "hang" in type(e).__name__.lower():
            raise
        label("refused")
        return
    got = np.array([only_at(v, t, what) for v in out])
    got = got if form == "list" else got[0]
    check(got.shape == x.shape and np.array_equal(got, x[p]), lambda: f"{what}: got {got.tolist()} instead of {x[p].tolist()}")


switch_case = lambda: st.tuples(st.sampled_from([(), (1,), (2,), (3,), (2, 2)]), st.sampled_from(DT), st.sampled_from(["int64", "uint8", "bool", "int32"]), st.sampled_from(["traced", "eager"]), st.integers(0, 2**40))


def run_switch(c):
    shape, dtype, cdt, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    a, b = data(r, shape, dtype), data(r, shape, dtype)
    k = np.array([r.random() < 0.5 for _ in range(int(np.prod(shape)))]).reshape(shape).astype(cdt)
    what = f"switch of {a.tolist()} and {b.tolist()} by {k.tolist()} ({cdt}) from {s} to {t} of {P} ({how})"
    label(cdt)
    o0, o1 = protocol(("switch", shape, dtype, cdt, P, s, t), lambda x, y, z: permutation.secure_switch(x, y, z, s, t), P, [(s, a), (s, b), (t, k)], how, what)
    o0, o1 = only_at(o0, t, what), only_at(o1, t, what)
    w0, w1 = np.where(k.astype(bool), b, a), np.where(k.astype(bool), a, b)
    check(o0.dtype == a.dtype and o0.tobytes() == w0.tobytes() and o1.tobytes() == w1.tobytes(), lambda: f"{what}: got {o0.tolist()} and {o1.tolist()}")


# ---- grouping by shuffling ----------------------------------------------------------------------------------
shuf_case = lambda: st.tuples(st.one_of(st.integers(1, 8), st.integers(1, 20)), st.integers(1, 9), st.sampled_from(["int64", "int64", "int64", "int32", "uint8", "uint64", "int16", "bool", "float64", "float32"]), st.sampled_from(["int64", "int64", "int32"]), st.sampled_from(["traced", "eager", "traced", "http"]), st.integers(0, 2**40))


def three(r):
    P = r.randint(3, 4)
    return (P, *r.sample(range(P), 3))


def bins_of(r, n, K):
    k = r.choice(["random", "random", "one", "sorted", "few"])
    if k == "one":
        return [r.randrange(K)] * n
    few = [r.randrange(K) for _ in range(2)]
    b = [r.choice(few) if k == "few" else r.randrange(K) for _ in range(n)]
    return sorted(b) if k == "sorted" else b


def run_shuffle(c):
    n, K, dtype, bdt, how, seed = c
    r = random.Random(seed)
    P, s, t, h = three(r)
    label(dtype)
    for i in range(2 if how == "traced" else 1):
        x, b = data(r, (n,), dtype), np.array(bins_of(r, n, K), bdt)
        if x.dtype.kind == "f":
            x = np.array([r.choice([0.0, 1.5, -2.25, r.uniform(-10, 10)]) for _ in range(n)], dtype)
        what = f"sums of {dtype} {x.tolist()} by bins {b.tolist()} of {K}, sender {s}, receiver {t}, helper {h} of {P} ({how})"
        with tapped() as log:
            try:
                (out,) = protocol(("shuffle", n, K, dtype, bdt, P, s, t, h), lambda d, g: groupby.oblivious_groupby_sum_shuffle(d, g, K, sender=s, receiver=t, helper=h), P, [(s, x), (t, b)], how, what)
            except (TypeError, ValueError, NotImplementedError):
                check(x.dtype.kind == "f", lambda: f"{what}: refused")
                label("refused")
                return
        got = only_at(out, t, what)
        check(got.shape == (K,), lambda: f"{what}: result has shape {got.shape}")
        if x.dtype.kind == "f":
            want = np.array([x[b == k].sum() for k in range(K)])
            check(np.allclose(got, want, rtol=1e-4, atol=1e-4), lambda: f"{what}: got {got.tolist()} instead of {want.tolist()}")
            return
        want = [sum(int(v) for v in x[b == k]) for k in range(K)]
        m = 2**64
        check([int(g) % m for g in got] == [w % m for w in want] and (np.dtype(dtype).itemsize == 8 or got.tolist() == want), lambda: f"{what}: got {got.tolist()} instead of {want}")
        for src, dst, _ in log:
            check({src, dst} <= {s, t, h}, lambda: f"{what}: party {src} sends to {dst}")
        clear(log, b, (h, t), what, "the bins")
        clear(log, x, (), what, "the data")


# ---- grouping under encryption --------------------------------------------------------------------------------
bfv_case = lambda: st.tuples(st.sampled_from([(4096, None), (4096, None), (4096, 1032193), (4096, 786433), (8192, None), (8192, 1032193)]), st.sampled_from([1, 2, 5, 20, 20, 100, 2047, 2048, 2049, 4096, 4097, 5000]), st.integers(1, 4), st.sampled_from(["small", "small", "large"]), st.sampled_from(["eager", "traced", "http"]), st.integers(0, 2**40))


def run_bfv(c):
    (degree, mod), n, K, size, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    T = mod or 1032193
    label(f"{degree} {mod}")
    g = np.random.default_rng(seed)
    top = max(1, (T // 2 - 1) // n) if size == "small" else max(1, T // 2 - 1)
    b = np.array(bins_of(r, n, K), np.int64) if n < 200 else g.integers(0, K, size=n)
    x = g.integers(-top, top, size=n, endpoint=True)
    if size == "large":  # values up to the modulus that cancel: each sum stays within range
        x[1::2] = -x[: n - n % 2 : 2][: len(x[1::2])]
        b[1::2] = b[: n - n % 2 : 2][: len(b[1::2])]
    want = [int(x[b == k].sum()) for k in range(K)]
    what = f"encrypted sums of {n} values by {K} bins, degree {degree}, modulus {mod}, {size} values, from {s} to {t} of {P} ({how}, seed {seed})"
    with tapped() as log:
        (out,) = protocol(None if how == "eager" else ("bfv", degree, mod, n, K, P, s, t), lambda d, q: groupby.oblivious_groupby_sum_bfv(d, q, K, sender=s, receiver=t, poly_modulus_degree=degree, plain_modulus=mod), P, [(s, x), (t, b)], how, what)
    got = only_at(out, t, what)
    check(got.tolist() == want, lambda: f"{what}: got {got.tolist()} instead of {want}")
    for src, dst, _ in log:
        check({src, dst} <= {s, t}, lambda: f"{what}: party {src} sends to {dst}")
    clear(log, b, (t,), what, "the bins")
    clear(log, x, (), what, "the data")


SUBS = [
    Sub("permute", perm_case, run_permute, "permutations of 1 to 33 elements of any number type, given as a tensor or a list, any roles; data and indices looked for in what is exchanged; non-trivial = more than two elements",
        lambda c: c[0] > 2, quick=8, thorough=300, shards_quick=6, shards_thorough=8, hang_s=200, pin=True),
    Sub("rows", rows_case, run_rows, "permutations of the rows of a matrix or a list of vectors: right or refused; non-trivial = more than one row and column",
        lambda c: min(c[:2]) > 1, quick=20, thorough=400, shards_quick=2, shards_thorough=4, hang_s=200, pin=True),
    Sub("switch", switch_case, run_switch, "two-way switches of any number type, scalars to matrices; non-trivial = all",
        lambda c: True, quick=20, thorough=400, shards_quick=2, shards_thorough=4, hang_s=200, pin=True),
    Sub("shuffle", shuf_case, run_shuffle, "group sums of 1 to 20 values of any number type into 1 to 9 groups by shuffling, any three of three or four parties, empty groups and wrapping sums included; non-trivial = more than two values and one group",
        lambda c: c[0] > 2 and c[1] > 1, quick=8, thorough=300, shards_quick=6, shards_thorough=8, hang_s=200, pin=True),
    Sub("bfv", bfv_case, run_bfv, "group sums of 1 to 5000 encrypted values into 1 to 4 groups, several degrees and moduli, sizes around the chunk size, values up to the modulus; non-trivial = more than one value and group",
        lambda c: c[1] > 1 and c[2] > 1, quick=5, thorough=100, shards_quick=6, shards_thorough=8, hang_s=250, pin=True),
]
KNOWN = []
