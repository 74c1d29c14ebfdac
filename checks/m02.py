"""M02: oblivious transfer hands over exactly the chosen messages."""

from __future__ import annotations

import contextlib
import hashlib
import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.simp_worker.mem import ThreadCommunicator
from mplang.dialects import field, simp, tensor
from mplang.libs.mpc import _utils
from mplang.libs.mpc.ot import base, extension
from mplang.runtime.interpreter import Interpreter
from checks.c01 import together
from checks.p01 import http, simulator
from vf.core import Sub, check, label

PROPERTY = "M02"
ASSUMPTIONS = [
    "choices are bits and as many as transfers, as documented",
    "both parties follow the protocol and run the same kernel build",
    "secrecy is only checked as far as it shows in the messages exchanged: nothing in the clear, no mask used twice",
]
_traced = {}


# ---- running two-party protocols ------------------------------------------------------------------------
@contextlib.contextmanager
def tapped():
    """Record what in-memory parties send one another: (from, to, value)."""
    log, orig = [], ThreadCommunicator.send

    def send(self, to, key, data, *a, **k):
        log.append((self.rank, to, data))
        return orig(self, to, key, data, *a, **k)

    ThreadCommunicator.send = send
    try:
        yield log
    finally:
        ThreadCommunicator.send = orig


def arrays(x):
    """The arrays inside a runtime value."""
    if isinstance(x, np.ndarray):
        return [x] if x.dtype != object else [a for e in x.ravel() for a in arrays(e)]
    if isinstance(x, (list, tuple)):
        return [a for e in x for a in arrays(e)]
    if isinstance(x, (bytes, bytearray)):
        return [np.frombuffer(x, np.uint8)]
    if hasattr(x, "unwrap"):
        return arrays(np.asarray(x.unwrap()) if hasattr(x.unwrap(), "shape") else x.unwrap())
    if hasattr(x, "__array__"):
        return [np.asarray(x)]
    return []


def parties(r, most=3):
    P = r.randint(2, most)
    return (P, *r.sample(range(P), 2))


def leaves(x):
    return [leaf for e in x for leaf in leaves(e)] if isinstance(x, (list, tuple)) else [x]


def protocol(key, prog, P, ins, how, what, limit=120):
    """Run prog on inputs [(party, array)...]; per output, the list of values by party. Traced programs are kept per key."""
    box = {}
    over = http if how == "http" else simulator

    def go():
        with over(P) as interp:
            with interp:
                objs = [simp.constant((p,), a) for p, a in ins]
                if how == "eager":
                    outs = prog(*objs)
                else:
                    if key not in _traced:
                        if len(_traced) > 60:
                            _traced.clear()
                        _traced[key] = mp.compile(prog, *objs)
                    outs = mp.evaluate(_traced[key], *objs, context=interp)
                vals = [mp.fetch(o) for o in leaves(outs)]
            box["v"] = [v if isinstance(v, list) else [v] for v in vals]
            box["at"] = [o.type.parties for o in leaves(outs)]

    together([go], limit, what)
    return box["v"]


def only_at(vals, p, what):
    for q, v in enumerate(vals):
        check((v is not None) == (q == p), lambda: f"{what}: party {q} holds {'nothing' if v is None else 'a value'}, the result belongs to party {p}")
    return np.asarray(vals[p])


def hidden(log, src, dst, secret, what, bits=48):
    """The array travels from src to dst, as it is, as its truth values or packed (where that is told apart from chance)."""
    a = np.asarray(secret)
    truth = a.dtype == bool or set(np.unique(a)) <= {0, 1}
    if a.size < (bits if truth else 24):  # random bits are sent, too
        return
    forms = {a.tobytes()}
    if truth:
        for b in (a.astype(bool), ~a.astype(bool)):
            for o in ("little", "big"):
                f = np.packbits(b.ravel(), bitorder=o).tobytes()
                if len(f) >= 8 and len(set(f)) >= 5:
                    forms.add(f)
            forms.add(b.astype(np.uint8).tobytes())
    for x, y, v in log:
        if (x, y) != (src, dst):
            continue
        for e in [*arrays(v), np.array([np.ravel(e)[0] for e in arrays(v) if np.size(e) == 1])]:
            raw = e.tobytes()
            if e.dtype.kind in "iufb" and set(np.unique(e)) <= {0, 1}:
                raw += e.astype(np.uint8).tobytes()
            for f in forms:
                check(len(set(f)) == 1 or f not in raw, lambda: f"{what} travels in the clear from {src} to {dst}")


# ---- base transfer ----------------------------------------------------------------------------------------
DT = ["int64", "int64", "uint64", "int32", "uint8", "int8", "uint16", "float64", "float32", "bool"]
base_case = lambda: st.tuples(st.sampled_from([(), (1,), (2,), (3,), (4,), (2, 2), (1, 3), (5,), (24,)]), st.sampled_from(DT), st.sampled_from(["int64", "int64", "uint8", "int32", "uint64", "bool"]), st.sampled_from(["traced", "eager", "traced", "http"]), st.integers(0, 2**40))


def data(r, shape, dtype):
    d = np.dtype(dtype)
    n = int(np.prod(shape))
    if d.kind == "f":
        v = [r.choice([0.0, -0.0, 1.5, float("inf"), -float("inf"), r.uniform(-1e6, 1e6), float(np.finfo(d).tiny), float(np.finfo(d).max)]) for _ in range(n)]
    elif d.kind == "b":
        v = [r.random() < 0.5 for _ in range(n)]
    else:
        i = np.iinfo(d)
        v = [r.choice([0, 1, i.max, i.min, r.randint(i.min, i.max), r.randint(i.min, i.max)]) for _ in range(n)]
    return np.array(v, dtype=d).reshape(shape)


def run_base(c):
    shape, dtype, cdt, how, seed = c
    r = random.Random(seed)
    P, s, d = parties(r)
    m0, m1 = data(r, shape, dtype), data(r, shape, dtype)
    if r.random() < 0.2:
        m1 = m0.copy()
    b = np.array([r.random() < 0.5 for _ in range(int(np.prod(shape)))]).reshape(shape).astype(cdt)
    what = f"transfer of {dtype}{list(shape)} from {s} to {d} of {P}, choices {b.tolist()} ({how})"
    label(how)
    label(dtype)
    with tapped() as log:
        (vals,) = protocol(("base", shape, dtype, cdt, P, s, d), lambda x, y, z: base.transfer(x, y, z, s, d), P, [(s, m0), (s, m1), (d, b)], how, what)
    got = only_at(vals, d, what)
    want = np.where(b.astype(bool), m1, m0).astype(dtype)
    check(got.dtype == want.dtype and got.shape == want.shape, lambda: f"{what}: result is {got.dtype}{got.shape}")
    check(got.tobytes() == want.tobytes(), lambda: f"{what}: got {got.tolist()} instead of {want.tolist()}")
    if want.itemsize >= 8:
        for src, dst, x in log:
            check({src, dst} <= {s, d}, lambda: f"{what}: party {src} sends to {dst}")
            raw = b"".join(a.tobytes() for a in arrays(x))
            for m in (*m0.ravel(), *m1.ravel()):
                t = m.tobytes()
                check(len(set(t)) < 6 or t not in raw, lambda: f"{what}: message {m} travels in the clear")
    hidden(log, d, s, b, f"{what}: the choice", bits=24)


# ---- extension --------------------------------------------------------------------------------------------
ext_case = lambda: st.tuples(st.sampled_from([9, 1, 2, 3, 7, 8, 16, 31, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300]), st.sampled_from([16, 1, 2, 8, 15, 16, 17, 31, 32]), st.sampled_from(["traced", "traced", "traced", "eager", "http"]), st.sampled_from(["random", "zeros", "ones", "alternate", "one"]), st.integers(0, 2**40))


long_case = lambda: st.tuples(st.sampled_from([5000, 511, 512, 1024, 1025, 2049, 4096, 10_007, 65_537]), st.sampled_from([16, 5]), st.just("traced"), st.sampled_from(["random", "one"]), st.integers(0, 2**40))


def choices(r, n, kind):
    if kind in ("zeros", "ones"):
        return np.full(n, kind == "ones", np.uint8)
    if kind == "alternate":
        return np.array([i & 1 for i in range(n)], np.uint8)
    a = np.zeros(n, np.uint8)
    if kind == "one":
        a[r.randrange(n)] = 1
        return a if r.random() < 0.5 else 1 - a
    return np.array([r.getrandbits(1) for _ in range(n)], np.uint8)


def messages(r, n, d):
    k = r.choice(["random", "random", "random", "zero", "ones", "rows"])
    if k == "zero":
        return np.zeros((n, d), np.uint8)
    if k == "ones":
        return np.full((n, d), 255, np.uint8)
    if k == "rows":
        return np.repeat(np.arange(n, dtype=np.uint32)[:, None], d, 1).astype(np.uint8)
    return np.frombuffer(r.randbytes(n * d), np.uint8).reshape(n, d).copy()


def run_ext(c):
    n, d, how, kind, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(how)
    masks = set()
    runs = 3 if how == "traced" else 1
    for i in range(runs):
        m0, m1, b = messages(r, n, d), messages(r, n, d), choices(r, n, kind if i == 0 else "random")
        what = f"{n} transfers of {d} bytes from {s} to {t} of {P} ({how}, run {i}, choices {kind})"
        with tapped() as log:
            (vals,) = protocol(("ext", n, d, P, s, t), lambda x, y, z: extension.transfer_extension(x, y, z, s, t, n), P, [(s, m0), (s, m1), (t, b)], how, what)
        got = only_at(vals, t, what)
        want = np.where(b[:, None] == 1, m1, m0)
        check(got.dtype == np.uint8 and got.shape == (n, d), lambda: f"{what}: result is {got.dtype}{got.shape}")
        bad = np.flatnonzero((got != want).any(axis=1))
        check(bad.size == 0, lambda: f"{what}: {bad.size} messages wrong, the first at {bad[0]}: choice {b[bad[0]]}, got {got[bad[0]].tobytes().hex()}, messages {m0[bad[0]].tobytes().hex()} and {m1[bad[0]].tobytes().hex()}")
        if how == "http":
            continue
        sent = [a for src, dst, x in log if (src, dst) == (s, t) for a in arrays(x) if a.shape == (n, d) and a.dtype == np.uint8]
        back = [a for src, dst, x in log if (src, dst) == (t, s) for a in arrays(x)]
        for src, dst, x in log:
            check({src, dst} <= {s, t}, lambda: f"{what}: party {src} sends to {dst}")
        if n >= 64:
            bits = b.astype(bool)
            for a in back:
                if a.ndim and a.shape[-1] == n and a.dtype.kind in "ub":
                    rows = a.reshape(-1, n).astype(bool)
                    check(not (rows == bits).all(axis=1).any() and not (rows == ~bits).all(axis=1).any(), lambda: f"{what}: the choices travel in the clear")
        hidden(log, t, s, b, f"{what}: the choice")
        if d >= 8:
            raw = b"".join(a.tobytes() for src, dst, x in log for a in arrays(x))
            for k, m in enumerate((m0, m1)):
                for j in range(min(n, 40)):
                    x = m[j].tobytes()
                    check(len(set(x)) < 6 or x not in raw, lambda: f"{what}: message {k} at {j} travels in the clear")
        if d >= 8 and len(sent) == 2:
            label("masks")
            for k, m in enumerate((m0, m1)):
                mask = sent[k] ^ m
                for j in range(n):
                    x = mask[j].tobytes()
                    check(x not in masks, lambda: f"{what}: the mask of message {k} at {j} was used for another message")
                    masks.add(x)


# ---- correlations -----------------------------------------------------------------------------------------
iknp_case = lambda: st.tuples(st.sampled_from([100, 1, 2, 5, 8, 63, 64, 127, 128, 129, 200]), st.sampled_from(["vector", "column", "matrix", "matrix"]), st.sampled_from(["traced", "traced", "eager"]), st.integers(0, 2**40))


def run_iknp(c):
    n, form, how, seed = c
    r = random.Random(seed)
    P, s, t = parties(r)
    label(form)
    seen = []
    for i in range(3 if how == "traced" else 1):
        b = np.frombuffer(r.randbytes(n * 128), np.uint8).reshape(n, 128) & 1 if form == "matrix" else choices(r, n, r.choice(["random", "ones", "zeros"]))
        if form == "column":
            b = b.reshape(n, 1)
        what = f"correlation of {n} rows from {s} to {t} of {P}, choices a {form} ({how}, run {i})"
        with tapped() as log:
            vt, vq, vs = protocol(("iknp", n, form, P, s, t), lambda x: extension.iknp_core(x, s, t, n), P, [(t, b)], how, what)
        T, Q, S = only_at(vt, s, what + ", T"), only_at(vq, t, what + ", Q"), only_at(vs, s, what + ", s")
        check(T.shape == Q.shape == (n, 128) and S.shape == (128,), lambda: f"{what}: shapes {T.shape} {Q.shape} {S.shape}")
        for x in (T, Q, S):
            check(set(np.unique(x)) <= {0, 1}, lambda: f"{what}: not bits")
        diff = (T ^ Q) != ((b.reshape(n, -1) & S[None, :]) if form == "matrix" else (b.reshape(n, 1) & S[None, :]))
        check(not diff.any(), lambda: f"{what}: T != Q + choice*s at {np.argwhere(diff)[0].tolist()}, {int(diff.sum())} places")
        hidden(log, s, t, S, f"{what}: the secret")
        hidden(log, s, t, T, f"{what}: the sender's matrix")
        hidden(log, t, s, Q, f"{what}: the receiver's matrix")
        hidden(log, t, s, b, f"{what}: the choice")
        check(20 < S.sum() < 108, lambda: f"{what}: the secret has {int(S.sum())} of 128 bits set")
        z = Q.mean()
        check(abs(z - 0.5) < 6 * 0.5 / (n * 128) ** 0.5, lambda: f"{what}: {z:.3f} of Q is set")
        for x in (S, Q[0], T[0]):
            seen.append(x.tobytes())
    distinct = {x for i, x in enumerate(seen) if i % 3 == 0}
    check(len(distinct) == len(seen) // 3, "two runs use the same secret")
    distinct = {x for i, x in enumerate(seen) if i % 3 == 1}
    check(len(distinct) == len(seen) // 3, "two runs use the same matrix")


# ---- building blocks --------------------------------------------------------------------------------------
part_case = lambda: st.tuples(st.sampled_from(["prg", "prg", "hash", "hash", "bits", "bits", "cuckoo", "transpose"]), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def local(prog, how):
    with Interpreter():
        outs = prog() if how == "eager" else mp.evaluate(mp.compile(prog))
        return [np.asarray(o.runtime_obj.unwrap()) for o in outs]


def run_parts(c):
    kind, how, seed = c
    r = random.Random(seed)
    label(kind)
    if kind == "prg":
        k, n = r.randint(1, 9), r.choice([1, 7, 8, 63, 64, 127, 128, 129, 255, 256, 300])
        seeds = np.frombuffer(r.randbytes(32 * k), np.uint8).reshape(k, 32)
        m = r.randint(1, n)
        a, b, w = local(lambda: [extension.prg_expand(tensor.constant(seeds), n), extension.prg_expand(tensor.constant(seeds), m), field.aes_expand(tensor.constant(np.ascontiguousarray(seeds[:, :16]).view(np.uint64)), (n + 127) // 128)], how)
        want = np.unpackbits(w.view(np.uint8).reshape(k, -1), axis=1, bitorder="little")[:, :n]
        check(a.shape == (k, n) and np.array_equal(a, want), lambda: f"{n} bits of {k} seeds are not the bits of their expansion, lowest first")
        check(np.array_equal(b, a[:, :m]), lambda: f"{m} bits are not the first of {n} bits")
    elif kind == "hash":
        n, d = r.randint(1, 20), r.choice([1, 3, 8, 16, 31, 32, 64, 128])
        dom = r.choice([0, 1, 0x1111, 0x0CDF, 2**63, 2**64 - 1])
        if r.random() < 0.5:
            a = np.frombuffer(r.randbytes(n * d), np.uint8).reshape(n, d)
        else:
            a = np.array([[r.randint(0, 2) for _ in range(d)] for _ in range(n)], np.uint8)
        (h,) = local(lambda: [extension.vec_hash(tensor.constant(a), dom, n)], how)
        for i in range(n):
            want = hashlib.sha256((dom.to_bytes(8, "little") if dom else b"") + a[i].tobytes()).digest()
            check(h[i].tobytes() == want, lambda: f"hash of row {i} of {a.shape}, domain {dom:#x}, is {h[i].tobytes().hex()} instead of {want.hex()}")
    elif kind == "bits":
        shape = r.choice([(1,), (3,), (2, 3), (4, 1), (2, 2, 5), (7,)])
        a = np.frombuffer(r.randbytes(int(np.prod(shape))), np.uint8).reshape(shape)
        bits, back = local(lambda: (lambda x: [x, _utils.bits_to_bytes(x)])(_utils.bytes_to_bits(tensor.constant(a))), how)
        want = np.unpackbits(a, axis=-1, bitorder="little")
        check(bits.shape == want.shape and np.array_equal(bits, want), lambda: f"bits of {a.shape} bytes are {bits.shape}, not the bits of each byte from the lowest")
        check(back.shape == a.shape and np.array_equal(back, a), lambda: f"bytes of the bits of {a.tolist()} are {back.tolist()}")
    elif kind == "cuckoo":
        n, bins, s = r.randint(1, 30), r.choice([1, 2, 7, 10, 1000]), r.randint(0, 2**31)
        a = np.array([r.choice([r.randint(-(2**62), 2**62), r.randint(-5, 5)]) for _ in range(n)], np.int64)
        (h, g) = local(lambda: [_utils.CuckooHash(bins).hash(tensor.constant(a), seed=s), _utils.CuckooHash(bins).hash(tensor.constant(a[::-1].copy()), seed=s)], how)
        check(h.shape == (n,) and ((0 <= h) & (h < bins)).all(), lambda: f"bins {h.tolist()} of {bins}")
        check(np.array_equal(h, g[::-1]), "an item's bin depends on the other items")
    else:
        m, n = r.randint(1, 9), r.choice([1, 8, 128])
        a = np.frombuffer(r.randbytes(m * n), np.uint8).reshape(m, n) & 1
        (t,) = local(lambda: [_utils.transpose_128(tensor.constant(a))], how)
        check(np.array_equal(t, a.T), "transposed matrix differs")


SUBS = [
    Sub("base", base_case, run_base, "single transfers of every number type, scalars to matrices, between any two of two or three parties, messages looked for in what is exchanged; non-trivial = all",
        lambda c: True, quick=100, thorough=1500, shards_quick=4, shards_thorough=8, hang_s=200, pin=True),
    Sub("extension", ext_case, run_ext, "1 to 300 transfers at once of 1 to 32 bytes, any choices, several runs; masks and choices looked for in what is exchanged; non-trivial = more than one transfer",
        lambda c: c[0] > 1, quick=5, thorough=120, shards_quick=8, shards_thorough=8, hang_s=200, pin=True),
    Sub("long", long_case, run_ext, "the same for 500 to 65 537 transfers at once; non-trivial = all",
        lambda c: True, quick=2, thorough=12, shards_quick=2, shards_thorough=4, pin=True, hang_s=600),
    Sub("correlation", iknp_case, run_iknp, "correlation matrices for choices given as a vector, a column or a matrix; non-trivial = more than one row",
        lambda c: c[0] > 1, quick=4, thorough=100, shards_quick=8, shards_thorough=8, hang_s=200, pin=True),
    Sub("parts", part_case, run_parts, "bit expansion of seeds, row hashes, conversions between bytes and bits, bin hashes, against hashlib and numpy; non-trivial = all",
        lambda c: True, quick=40, thorough=1500, shards_quick=4, shards_thorough=8, hang_s=100, pin=True),
]
KNOWN = []
