"""M01: private set intersection returns exactly the intersection."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import simp, tensor
from mplang.libs.mpc.psi import cuckoo, oprf, rr22, unbalanced
from checks.f02 import KINDS, keys_of, refused
from checks.m02 import arrays, local, only_at, parties, protocol, tapped
from vf.core import Sub, check, label

PROPERTY = "M01"
ASSUMPTIONS = [
    "each party's items are distinct 64-bit numbers, as documented",
    "both parties follow the protocol and run the same kernel build",
    "a run may say that the key-value store could not be built (less than one run in a thousand); then it is repeated",
    "secrecy is only checked as far as it shows in the messages exchanged: no item in the clear, no word to third parties",
]
U = np.uint64
TOP = 2**64


# ---- pairs of sets ----------------------------------------------------------------------------------------
RELATIONS = ["near", "some", "some", "disjoint", "equal", "nested", "one", "near", "halves", "extremes"]


def sets(r, n, m, kind, rel):
    """n and m distinct items that relate in the given way."""
    a = [int(x) for x in keys_of(r, n, kind)]
    have = set(a)

    def others(k):
        out = dict.fromkeys(int(x) for x in keys_of(r, 2 * (k + n) + 8, r.choice([kind, "random"])) if int(x) not in have)
        return list(out)[:k]

    if rel == "disjoint":
        b = []
    elif rel in ("equal", "nested"):
        b = r.sample(a, min(n, m))
    elif rel == "one":
        b = [r.choice(a)]
    elif rel == "near":  # neighbours differing in one bit or by one
        b = [x for x in a if r.random() < 0.3]
        for x in a:
            b.append(r.choice([x ^ (1 << r.randrange(64)), (x + r.choice([-1, 1])) % TOP]))
    elif rel == "halves":  # the same low or high half
        b = [x for x in a if r.random() < 0.3]
        for x in a:
            h = r.getrandbits(32)
            b.append(r.choice([(x & 0xFFFFFFFF) | h << 32, (x >> 32) << 32 | h]))
    elif rel == "extremes":
        ends = [0, 1, TOP - 1, TOP - 2, 2**63, 2**63 - 1, 2**32, 2**32 - 1]
        a = list(dict.fromkeys([x for x in ends if r.random() < 0.6] + a))[:n]
        have = set(a)
        b = [x for x in ends if r.random() < 0.6] + r.sample(a, len(a) // 3)
    else:
        b = [x for x in a if r.random() < r.choice([0.2, 0.5, 0.8])]
    b = list(dict.fromkeys(b))
    r.shuffle(b)
    b = b[:m]
    for x in others(m):
        if len(b) < m and x not in b:
            b.append(x)
    r.shuffle(a)
    r.shuffle(b)
    assert len(set(a)) == n and len(set(b)) == m
    return np.array(a, dtype=U), np.array(b, dtype=U)


def asked(r, n, m, kind, rel):
    """The two sets, either of which may be the asked one."""
    if r.random() < 0.5:
        return sets(r, n, m, kind, rel)
    b, a = sets(r, m, n, kind, rel)
    return a, b


def attempt(run, what):
    """run(), once more if the store could not be built."""
    for i in (0, 1):
        try:
            return run()
        except Exception as e:
            if i or not refused(e):
                raise
            label("store could not be built")


def judge(got, a, b, what):
    """got: for each of b whether it is in a."""
    want = np.isin(b, a).astype(np.uint8)
    check(got.shape == want.shape, lambda: f"{what}: result has shape {got.shape}")
    check(set(np.unique(got).tolist()) <= {0, 1}, lambda: f"{what}: result holds {np.unique(got).tolist()[:5]}")
    bad = np.nonzero(got.astype(np.uint8) != want)[0]
    check(not len(bad), lambda: f"{what}: {len(bad)} wrong, first at position {bad[0]}: {int(b[bad[0]]):#x} is {'not ' if not want[bad[0]] else ''}in the other set; sets {[hex(int(x)) for x in a[:6]]} and {[hex(int(x)) for x in b[:6]]}")
    label("all" if want.all() else "none" if not want.any() else "part")


def discreet(log, items, pair, what):
    for src, dst, x in log:
        check({src, dst} <= set(pair), lambda: f"{what}: party {src} sends to {dst}")
        raw = b"".join(a.tobytes() for a in arrays(x))
        for it in items:
            t = int(it).to_bytes(8, "little")
            check(len(set(t)) < 6 or t not in raw, lambda: f"{what}: item {int(it):#x} travels in the clear from {src} to {dst}")


# ---- the protocols ----------------------------------------------------------------------------------------
HOW = ["traced", "traced", "traced", "eager", "http"]
rr_case = lambda: st.tuples(st.sampled_from([10, 1, 2, 3, 5, 6, 20, 41]), st.sampled_from(KINDS), st.lists(st.sampled_from(RELATIONS), min_size=3, max_size=3), st.sampled_from(HOW), st.integers(0, 2**40))
big_case = lambda: st.tuples(st.sampled_from([300, 200, 201, 999, 1000, 1500]), st.sampled_from(KINDS), st.lists(st.sampled_from(RELATIONS), min_size=2, max_size=2), st.sampled_from(["traced"]), st.integers(0, 2**40))


def run_rr(c):
    n, kind, rels, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(how)
    for rel in rels if how == "traced" else rels[:1]:
        label(rel)
        a, b = asked(r, n, n, kind, rel)
        what = f"intersection of {n} items (sender {s}, receiver {t} of {P}, {kind}, {rel}, {how})"
        with tapped() as log:
            (vals,) = attempt(lambda: protocol(("rr", n, P, s, t), lambda x, y: rr22.psi_intersect(s, t, n, x, y), P, [(s, a), (t, b)], how, what, 300), what)
        judge(only_at(vals, t, what), a, b, what)
        discreet(log, [*a[:50], *b[:50]], (s, t), what)


SIZES = [20, 1, 2, 3, 7, 64]
un_case = lambda: st.tuples(st.sampled_from([*SIZES, 199, 200, 201, 999, 1000, 3000]), st.sampled_from([*SIZES, 300]), st.sampled_from(KINDS), st.lists(st.sampled_from(RELATIONS), min_size=4, max_size=4), st.sampled_from(HOW), st.integers(0, 2**40))
huge_case = lambda: st.tuples(st.sampled_from([50000, 4100, 9999, 10000, 10001, 110000, 262144]), st.sampled_from([5000, 100, 1]), st.sampled_from(KINDS), st.lists(st.sampled_from(RELATIONS), min_size=1, max_size=1), st.sampled_from(["traced"]), st.integers(0, 2**40))


def run_un(c):
    n, m, kind, rels, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(how)
    for rel in rels if how == "traced" else rels[:1]:
        label(rel)
        a, b = asked(r, n, m, kind, rel)
        what = f"intersection of {m} asked items with {n} (server {s}, client {t} of {P}, {kind}, {rel}, {how})"
        with tapped() as log:
            (vals,) = attempt(lambda: protocol(("un", n, m, P, s, t), lambda x, y: unbalanced.psi_unbalanced(s, t, n, m, x, y), P, [(s, a), (t, b)], how, what, 300), what)
        judge(only_at(vals, t, what), a, b, what)
        discreet(log, [*a[:50], *b[:50]], (s, t), what)


bad_case = lambda: st.tuples(st.sampled_from(["rr", "un"]), st.sampled_from(["same", "zero", "negative"]), st.integers(0, 2**40))


def run_bad(c):
    which, bad, seed = c
    r = random.Random(seed)
    n = {"same": 3, "zero": 0, "negative": -2}[bad]
    P, s, t = parties(r)
    t = s if bad == "same" else t
    a = np.arange(3, dtype=U)
    f = (lambda x, y: rr22.psi_intersect(s, t, n, x, y)) if which == "rr" else (lambda x, y: unbalanced.psi_unbalanced(s, t, n, 3, x, y) if r.random() < 0.5 else unbalanced.psi_unbalanced(s, t, 3, n, x, y))
    try:
        protocol(None, f, P, [(s, a), (t, a)], "eager", f"{which} {bad}")
    except ValueError:
        label(f"{which} {bad}")
        return
    check(False, f"{which} intersection with {bad} {'parties' if bad == 'same' else 'size'} is not refused")


# ---- oblivious PRF -------------------------------------------------------------------------------------------
def relate(r, x, n):
    """Items to evaluate at rows 0..: equal to the receiver's, or different in some way."""
    y, rel = x[:n].copy(), []
    for i in range(n):
        k = r.choice(["equal", "equal", "bit", "byte", "other", "swap", "late"])
        if k == "bit":
            y[i, r.randrange(16)] ^= 1 << r.randrange(8)
        elif k == "byte":
            y[i, r.randrange(16)] ^= r.randint(1, 255)
        elif k == "late":
            y[i, 15] ^= 1
        elif k == "other":
            y[i] = np.frombuffer(r.randbytes(16), np.uint8)
        elif k == "swap":
            y[i] = x[r.randrange(len(x))]
        rel.append(bool((y[i] == x[i]).all()))
    return y, rel


prf_case = lambda: st.tuples(st.sampled_from([17, 1, 2, 3, 8, 16, 100, 128, 200]), st.sampled_from(["full", "full", "fewer", "single"]), st.sampled_from(["random", "sequential", "zeros", "same", "random"]), st.sampled_from(HOW), st.integers(0, 2**40))


def run_prf(c):
    n, evals, kind, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(f"{evals} {how}")
    m = {"full": n, "fewer": max(1, n // 2), "single": 1}[evals]
    seen = {}
    for i in range(3 if how == "traced" else 1):
        x = np.zeros((n, 16), np.uint8)
        if kind == "random":
            x = np.frombuffer(r.randbytes(16 * n), np.uint8).reshape(n, 16).copy()
        elif kind == "sequential":
            x[:, r.choice([0, 4, 14])] = np.arange(n) % 256
        elif kind == "same":
            x[:] = np.frombuffer(r.randbytes(16), np.uint8)
        y, rel = relate(r, x, m)
        what = f"PRF of {n} items ({kind}), {m} evaluated ({evals}, sender {s}, receiver {t} of {P}, {how}, run {i})"

        def prog(a, b):
            key, out = oprf.eval_oprf(a, s, t, n)
            return [out, oprf.sender_eval_prf(key, b, s) if evals == "single" else oprf.sender_eval_prf_batch(key, b, s, m)]

        with tapped() as log:
            got, own = protocol(("prf", n, m, evals, P, s, t), prog, P, [(t, x), (s, y[0] if evals == "single" else y)], how, what, 300)
        got, own = only_at(got, t, what), only_at(own, s, what)
        check(got.shape == (n, 32) and got.dtype == np.uint8, lambda: f"{what}: outputs are {got.dtype}{got.shape}")
        check(own.shape == ((32,) if evals == "single" else (m, 32)), lambda: f"{what}: evaluations have shape {own.shape}")
        own = own.reshape(-1, 32)
        for j in range(m):
            eq = bool((got[j] == own[j]).all())
            check(eq == rel[j], lambda: f"{what}: row {j}, {'equal' if rel[j] else 'different'} items {x[j].tobytes().hex()} and {y[j].tobytes().hex()} give {'equal' if eq else 'different'} outputs")
        rows = {got[j].tobytes() for j in range(n)}
        check(len(rows) == n, lambda: f"{what}: rows share outputs")
        check(not rows & seen.keys(), lambda: f"{what}: an output of an earlier run occurs again")
        seen.update(dict.fromkeys(rows))
        for src, dst, v in log:
            check({src, dst} <= {s, t}, lambda: f"{what}: party {src} sends to {dst}")
            raw = b"".join(a.tobytes() for a in arrays(v))
            for it in (*x[:20], *y[:20]):
                check(len(set(it.tobytes())) < 8 or it.tobytes() not in raw, lambda: f"{what}: an item travels in the clear")


many_case = lambda: st.tuples(st.sampled_from([1, 2, 5, 16]), st.integers(1, 4), st.integers(0, 2**40))


def run_many(c):
    n, extra, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    x, y = (np.frombuffer(r.randbytes(16 * k), np.uint8).reshape(k, 16) for k in (n, n + extra))
    try:
        protocol(None, lambda a, b: oprf.sender_eval_prf_batch(oprf.eval_oprf(a, s, t, n)[0], b, s, n + extra), P, [(t, x), (s, y)], "traced", "too many evaluations")
    except Exception as e:
        check("Cannot evaluate" in str(e) or isinstance(e, ValueError), lambda: f"{n + extra} evaluations for {n} rows: {e!r}")
        label("refused")
        return
    check(False, f"{n + extra} evaluations with a key of {n} rows are not refused")


# ---- cuckoo tables ---------------------------------------------------------------------------------------------
cuckoo_case = lambda: st.tuples(st.sampled_from([50, 1, 2, 3, 10, 300]), st.floats(0.4, 3), st.sampled_from(KINDS), st.booleans(), st.integers(0, 2**40))


def run_cuckoo(c):
    import jax.numpy as jnp

    n, load, kind, tail, seed = c
    r = random.Random(seed)
    size = max(1, int(n * load))
    x = np.zeros((n, 16), np.uint8)
    x[:, :8] = keys_of(r, n, kind).view(np.uint8).reshape(n, 8)
    if tail:
        x[:, 8:] = np.frombuffer(r.randbytes(8 * n), np.uint8).reshape(n, 8)
    sd = r.choice([(r.getrandbits(64), r.getrandbits(64)), (0, 0), (TOP - 1, TOP - 1)])
    what = f"table of {size} for {n} items ({kind}), seed {sd}"
    table, pos, ok = (np.asarray(v) for v in cuckoo.cuckoo_insert_batch(jnp.asarray(x), size, sd))
    cand = np.asarray(cuckoo.hash_to_positions(jnp.asarray(x), size, sd))
    check(cand.shape == (n, cuckoo.NUM_HASH_FUNCTIONS) and (cand >= 0).all() and (cand < size).all(), lambda: f"{what}: candidate positions outside the table")
    check((np.asarray(cuckoo.cuckoo_lookup_positions(jnp.asarray(x), size, sd)) == cand).all(), f"{what}: lookups go to other positions than insertions")
    p = r.sample(range(n), n)
    check((np.asarray(cuckoo.hash_to_positions(jnp.asarray(x[p]), size, sd)) == cand[p]).all(), f"{what}: an item's positions depend on the other items")
    (traced,) = local(lambda: [cuckoo.compute_positions(tensor.constant(x), size, tensor.constant(np.array(sd, dtype=U)))], "traced")
    check((np.asarray(traced) == cand).all(), f"{what}: traced positions differ")
    check(table.shape == (size, 16) and pos.shape == ok.shape == (n,), f"{what}: shapes")
    check(((pos >= 0) == ok).all(), f"{what}: success does not go with having a position")
    won = pos[ok]
    check(len(set(won.tolist())) == len(won), f"{what}: two items share a position")
    for i in np.nonzero(ok)[0]:
        check(pos[i] in cand[i], lambda: f"{what}: item {i} is at {pos[i]}, not one of its candidates {cand[i].tolist()}")
        check((table[pos[i]] == x[i]).all(), lambda: f"{what}: position {pos[i]} does not hold item {i}")
    free = np.ones(size, bool)
    free[won] = False
    check(not table[free].any(), f"{what}: positions of no item are not empty")
    for i in np.nonzero(~ok)[0]:
        check(not free[cand[i]].any(), lambda: f"{what}: item {i} has no place though one of its positions is free")
    label("all placed" if ok.all() else "some not placed")


SUBS = [
    Sub(f"{k}rr22", rr_case, run_rr, f"both-sided intersection of 1 to 41 items, {b} kernels: structured and random items, every relation between the sets (disjoint, equal, near misses), any roles; membership against plain sets; non-trivial = more than one item",
        lambda c: c[0] > 1, quick=2, thorough=80, shards_quick=3, shards_thorough=8, hang_s=300, pin=True, native=nat) for k, b, nat in (("", "portable", False), ("native_", "native", True))
] + [
    Sub(f"{k}unbalanced", un_case, run_un, f"one-sided intersection of 1 to 300 asked items with 1 to 3000, {b} kernels, as above; non-trivial = more than one item on each side",
        lambda c: c[0] > 1 and c[1] > 1, quick=10, thorough=200, shards_quick=2, shards_thorough=8, hang_s=300, pin=True, native=nat) for k, b, nat in (("", "portable", False), ("native_", "native", True))
] + [
    Sub("big", big_case, run_rr, "both-sided intersection of 200 to 1500 items (around the thresholds of the store size), native kernels; non-trivial = all",
        lambda c: True, quick=1, thorough=30, shards_quick=2, shards_thorough=8, hang_s=300, pin=True, native=True),
    Sub("huge", huge_case, run_un, "one-sided intersection with 4100 to 262144 items, native kernels; non-trivial = all",
        lambda c: True, quick=2, thorough=40, shards_quick=2, shards_thorough=4, hang_s=300, pin=True, native=True),
    Sub("bad", bad_case, run_bad, "one party in both roles and empty sets are refused; non-trivial = all", lambda c: True, quick=20, thorough=200, hang_s=100, pin=True),
    Sub("prf", prf_case, run_prf, "oblivious PRF of 1 to 200 items: the sender's evaluation of an item equals the receiver's output at its row exactly if the items are equal (items differing in one bit included), rows and runs differ; non-trivial = more than one item",
        lambda c: c[0] > 1, quick=3, thorough=80, shards_quick=3, shards_thorough=8, hang_s=300, pin=True),
    Sub("many", many_case, run_many, "more evaluations than the key has rows are refused; non-trivial = all", lambda c: True, quick=2, thorough=10, hang_s=300, pin=True),
    Sub("cuckoo", cuckoo_case, run_cuckoo, "cuckoo tables of any load: candidates in range and independent of other items, placed items at one of theirs, nothing shared, nothing left out while a place is free; non-trivial = more than one item",
        lambda c: c[0] > 1, quick=40, thorough=1000, shards_quick=2, shards_thorough=8, hang_s=100, pin=True),
]
KNOWN = []
