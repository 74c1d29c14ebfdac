"""K01: only the right key opens a ciphertext; key exchange, key derivation, digests and randomness."""

from __future__ import annotations

import hashlib
import hmac
import random

import numpy as np
import pyarrow as pa
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.backends.crypto_impl import BytesValue, PrivateKeyValue, PublicKeyValue, SymmetricKeyValue
from mplang.backends.table_impl import TableValue
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import crypto, simp, table, tensor
from mplang.edsl import serde
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.p01 import execute, http, simulator
from vf import gen
from vf.core import Sub, check, label

PROPERTY = "K01"
ASSUMPTIONS = [
    "the reader states the type of the plaintext (the ciphertext does not carry it)",
    "the symmetric cipher and the curve come from the cryptography library; its own soundness is assumed",
]

DT = {"i8": elt.i8, "i32": elt.i32, "i64": elt.i64, "u8": elt.u8, "u64": elt.u64, "f16": elt.f16, "f32": elt.f32, "f64": elt.f64, "bool": elt.bool_}
NPD = {"i8": "int8", "i32": "int32", "i64": "int64", "u8": "uint8", "u64": "uint64", "f16": "float16", "f32": "float32", "f64": "float64", "bool": "bool"}


def rnd_array(kind, shape, r):
    dt = np.dtype(NPD[kind])
    n = int(np.prod(shape))
    if kind == "bool":
        a = np.array([r.random() < 0.5 for _ in range(n)], dtype=bool)
    else:
        a = np.frombuffer(r.randbytes(n * dt.itemsize), dtype=dt).copy() if r.random() < 0.7 else np.array([r.choice([0, 1, 2]) for _ in range(n)], dtype=dt)
    return gen.relayout(a.reshape(shape), r.choice(["C", "C", "F", "strided", "reversed", "readonly"]))


def bits(a):
    return (a.dtype, a.shape, np.ascontiguousarray(a).tobytes())


def raw_key(k):
    return k.key_bytes if isinstance(k, SymmetricKeyValue) else k.unwrap() if isinstance(k, BytesValue) else np.asarray(k.unwrap()).tobytes()


def make_key(kind, r):
    """An object to encrypt with, and the same for the reader."""
    if kind.startswith("random"):
        k = crypto.random_bytes(int(kind[6:]))
        return k, k
    if kind == "hash":
        d = r.randbytes(7)
        k = crypto.hash_bytes(tensor.constant(np.frombuffer(d, np.uint8)))
        return k, tensor.constant(np.frombuffer(hashlib.sha256(d).digest(), np.uint8))
    (sa, pa_), (sb, pb) = crypto.kem_keygen(), crypto.kem_keygen()
    x, y = crypto.kem_derive(sa, pb), crypto.kem_derive(sb, pa_)
    if kind == "hkdf":
        x, y = crypto.hkdf(x, "test/é/v1"), crypto.hkdf(y, "test/é/v1")
    return x, y


KEYS = ["random16", "random24", "random32", "hash", "kem", "hkdf"]
round_case = lambda: st.tuples(st.sampled_from(KEYS), st.sampled_from(["array", "array", "array", "table", "key", "point"]), st.integers(0, 2**40))
FAULTS = ["bit", "bit", "bit", "tag", "nonce", "cut", "cut_front", "extend", "swap", "empty", "key_bit", "other_key"]


def obj(it, val, like):
    return InterpObject(val, like.type, it)


def same_value(got, want, what):
    if isinstance(want, np.ndarray):
        got = np.asarray(got.unwrap())
        check(bits(got) == bits(want), lambda: f"{what}: {got!r} instead of {want!r}")
    elif isinstance(want, pa.Table):
        check(got.data.equals(want, check_metadata=False) or got.data.to_pylist() == want.to_pylist() and got.data.schema == want.schema, lambda: f"{what}: {got.data.to_pylist()} instead of {want.to_pylist()}")
    else:
        check(type(got) is type(want) and serde.dumps(got) == serde.dumps(want), lambda: f"{what}: {got!r} instead of {want!r}")


def run_round(c):
    kkind, what, seed = c
    r = random.Random(seed)
    label(kkind)
    label(what)
    with Interpreter() as it:
        key, rkey = make_key(kkind, r)
        if r.random() < 0.4:
            rkey = obj(it, serde.loads(serde.dumps(rkey.runtime_obj)), rkey)
        if what == "array":
            kind = r.choice(list(DT))
            shape = tuple(r.randint(1, 5) for _ in range(r.randint(0, 3)))
            if r.random() < 0.1:
                shape = (r.choice([4000, 70000]),)
            want = rnd_array(kind, shape, r)
            pt = tensor.constant(want)
            want = np.array(want)
        elif what == "table":
            n = r.randint(1, 5)
            want = pa.table({"a": pa.array([r.choice([None, 0, r.randint(-(2**63), 2**63 - 1)]) for _ in range(n)], pa.int64()), "s": pa.array([r.choice(["", "é", None, "x" * 300]) for _ in range(n)], pa.string())})
            pt = table.constant(want)
        elif what == "key":
            pt = r.choice(crypto.kem_keygen())
            want = pt.runtime_obj
        else:
            pt = crypto.ec_mul(crypto.ec_generator(), crypto.ec_random_scalar())
            want = pt.runtime_obj
        ct = crypto.sym_encrypt(key, pt)
        raw = ct.runtime_obj.unwrap()
        raw = raw if isinstance(raw, bytes) else raw.tobytes()
        sent = ct
        if r.random() < 0.5:
            sent = obj(it, serde.loads(serde.dumps(ct.runtime_obj)), ct)
        back = crypto.sym_decrypt(rkey, sent, pt.type)
        check(back.type == pt.type, lambda: f"type {back.type} instead of {pt.type}")
        same_value(back.runtime_obj, want, f"decrypting a {what}")
        again = crypto.sym_encrypt(key, pt).runtime_obj.unwrap()
        check(bytes(again)[:12] != raw[:12], "two encryptions used the same nonce")
        if what == "array" and want.nbytes >= 16:
            check(want.tobytes() not in raw, "the plaintext is visible in the ciphertext")
        # anything else is detected
        kraw = raw_key(key.runtime_obj)
        check(raw_key(rkey.runtime_obj) == kraw, "the two ends hold different keys")
        for f in r.sample(FAULTS, 4):
            bad, k = raw, kraw
            if f in ("bit", "tag", "nonce"):
                lo, hi = {"bit": (0, len(raw)), "tag": (len(raw) - 16, len(raw)), "nonce": (0, 12)}[f]
                i = r.randrange(lo, hi)
                bad = raw[:i] + bytes([raw[i] ^ (1 << r.randrange(8))]) + raw[i + 1 :]
            elif f == "cut":
                bad = raw[: r.randrange(len(raw))]
            elif f == "cut_front":
                bad = raw[r.randint(1, len(raw)) :]
            elif f == "extend":
                bad = raw + r.randbytes(r.choice([1, 16]))
            elif f == "swap":
                # nonce of one with the body of another
                bad = bytes(again)[:12] + raw[12:]
            elif f == "empty":
                bad = b""
            elif f == "key_bit":
                i = r.randrange(len(kraw))
                k = kraw[:i] + bytes([kraw[i] ^ (1 << r.randrange(8))]) + kraw[i + 1 :]
            else:
                k = r.randbytes(len(kraw))
            try:
                out = crypto.sym_decrypt(obj(it, BytesValue(k), rkey), obj(it, BytesValue(bad), ct), pt.type)
            except Exception:
                continue
            check(False, f"{f}: a changed ciphertext or key was accepted and gave {out.runtime_obj!r}"[:300])


# ---------------------------------------------------------------- key exchange and derivation


def ref_hkdf(ikm, info):
    prk = hmac.new(bytes(32), ikm, hashlib.sha256).digest()
    return hmac.new(prk, info + b"\x01", hashlib.sha256).digest()


P25519 = 2**255 - 19


def ref_x25519(k, u):
    """RFC 7748, section 5."""
    k = int.from_bytes(k, "little")
    k = (k & ~7 & ((1 << 255) - 1)) | (1 << 254)
    u = int.from_bytes(u, "little") & ((1 << 255) - 1)
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in reversed(range(255)):
        kt = (k >> t) & 1
        if swap ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        a, b = x2 + z2, x2 - z2
        aa, bb = a * a % P25519, b * b % P25519
        e = aa - bb
        cc, d = x3 + z3, x3 - z3
        da, cb = d * a % P25519, cc * b % P25519
        x3, z3 = (da + cb) ** 2 % P25519, x1 * (da - cb) ** 2 % P25519
        x2, z2 = aa * bb % P25519, e * (aa + 121665 * e) % P25519
    if swap:
        x2, z2 = x3, z3
    return (x2 * pow(z2, P25519 - 2, P25519) % P25519).to_bytes(32, "little")


def contexts():
    """Names of contexts; often one a slight variation of another, of any length."""
    base = st.one_of(st.text(min_size=1, max_size=12), st.sampled_from(["a/b/v1", "x", "mplang/device/tee/v1"]), st.integers(1, 400).map(lambda n: "namespace/component/"[: n % 20] + "p" * n))
    vary = st.sampled_from([lambda s: s + "2", lambda s: s + " ", lambda s: " " + s, lambda s: s.upper(), lambda s: s + "\0", lambda s: s[:-1] + chr(ord(s[-1]) ^ 1), lambda s: s + "/", lambda s: "x" + s])
    return st.one_of(st.lists(base, min_size=1, max_size=3, unique=True), st.tuples(base, vary).map(lambda t: [t[0], t[1](t[0])]).filter(lambda x: len(set(x)) == 2 and all(x)))


ex_case = lambda: st.tuples(st.integers(2, 4), contexts(), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_exchange(c):
    n, infos, how, seed = c
    r = random.Random(seed)
    suites = ["x25519"]
    label(how)

    def prog():
        ks = [crypto.kem_keygen() for _ in range(n)]
        sh = {(i, j): crypto.kem_derive(ks[i][0], ks[j][1]) for i in range(n) for j in range(n)}
        dk = {(i, j, k): crypto.hkdf(sh[i, j], k) for (i, j) in sh for k in infos}
        return ks, sh, dk

    with Interpreter():
        if how == "eager":
            ks, sh, dk = prog()
        else:
            ks, sh, dk = mp.evaluate(mp.compile(prog))
        v = lambda o: o.runtime_obj
        kb = [(v(a).key_bytes, v(b).key_bytes) for a, b in ks]
        check(len(set(kb)) == n and len({a for a, _ in kb}) == n, "two key pairs are equal")
        for i in range(n):
            base = (9).to_bytes(32, "little")
            check(ref_x25519(kb[i][0], base) == kb[i][1], "a public key does not belong to its private key")
            for j in range(i + 1):
                check(v(sh[i, j]).key_bytes == v(sh[j, i]).key_bytes == ref_x25519(kb[i][0], kb[j][1]), lambda: f"ends {i} and {j} derive different keys")
        ks_all = [v(x).key_bytes for (i, j), x in sh.items() if i <= j]
        check(len(set(ks_all)) == len(ks_all), "different pairs share a key")
        for (i, j, info), k in dk.items():
            check(v(k).key_bytes == ref_hkdf(v(sh[i, j]).key_bytes, info.encode()), lambda: f"key derived for {info!r} is not that of RFC 5869")
            check(k.type == crypto.SymmetricKeyType("hkdf-sha256") and v(k).suite == "hkdf-sha256", lambda: f"type {k.type} of a derived key")
        # keys survive transport
        a, b = ks[0]
        a2, b2 = (serde.loads(serde.dumps(v(x))) for x in (a, b))
        check((a2.key_bytes, b2.key_bytes, a2.suite, b2.suite) == (*kb[0], *suites, *suites), "a key changed in transport")
        # derivation from plain bytes; refusals
        ikm = r.randbytes(r.choice([1, 16, 32, 33, 64, 100]))
        d = crypto.hkdf(tensor.constant(np.frombuffer(ikm, np.uint8)), infos[0], hash_algo=r.choice(["sha256", "SHA-256", "sha_256"]))
        check(v(d).key_bytes == ref_hkdf(ikm, infos[0].encode()), "key derived from bytes is not that of RFC 5869")
        for name, bad in enumerate((lambda: crypto.hkdf(d, ""), lambda: crypto.hkdf(d, infos[0], hash_algo="sha512"), lambda: crypto.hkdf(d, infos[0], hash_algo="md5"), lambda: crypto.sym_encrypt(d, d, algo="rot13"), lambda: crypto.kem_derive(*crypto.kem_keygen("kyber768")))):
            try:
                bad()
            except (ValueError, TypeError, NotImplementedError):
                continue
            check(False, f"{['an empty context', 'an unknown digest', 'an unknown digest', 'an unknown cipher', 'an unknown key exchange'][name]} was accepted")


# ---------------------------------------------------------------- digests

hash_case = lambda: st.tuples(st.sampled_from(list(DT)), st.lists(st.integers(1, 6), max_size=3).map(tuple), st.sampled_from(["one", "batch", "traced", "big"]), st.integers(0, 2**40))


def run_hash(c):
    kind, shape, how, seed = c
    r = random.Random(seed)
    label(how)
    if how == "big":
        shape = (r.choice([55, 56, 63, 64, 65, 119, 120, 1000, 100000]),)
    a = rnd_array(kind, shape, r)

    def prog():
        x = tensor.constant(a)
        return crypto.hash_bytes(x), crypto.hash_batch(x)

    with Interpreter() as it:
        one, many = prog() if how != "traced" else mp.evaluate(mp.compile(prog))
        if r.random() < 0.5:
            # values arrive in any layout
            src = tensor.constant(a)
            lay = InterpObject(TensorValue(a), src.type, it)
            one, many = crypto.hash_bytes(lay), crypto.hash_batch(lay)
        d = np.asarray(one.runtime_obj.unwrap())
        check(d.dtype == np.uint8 and d.shape == (32,) and d.tobytes() == hashlib.sha256(np.ascontiguousarray(a).tobytes()).digest(), "hash_bytes is not SHA-256 of the bytes")
        m = np.asarray(many.runtime_obj.unwrap())
        rows = np.ascontiguousarray(a)
        if a.ndim < 2:
            want = np.frombuffer(hashlib.sha256(rows.tobytes()).digest(), np.uint8)
        else:
            want = np.array([list(hashlib.sha256(x.tobytes()).digest()) for x in rows.reshape(-1, a.shape[-1])], np.uint8).reshape(*a.shape[:-1], 32)
        check(m.shape == want.shape == many.type.shape and np.array_equal(m, want), lambda: f"hash_batch of shape {a.shape} is not SHA-256 of each row")


# ---------------------------------------------------------------- randomness

rand_case = lambda: st.tuples(st.lists(st.integers(1, 5), max_size=3).map(tuple), st.sampled_from(["u8", "u64", "i32", "i64", "i8"]), st.integers(1, 70), st.sampled_from(["eager", "traced"]), st.one_of(st.integers(1, 300), st.sampled_from([1024, 4096, 4097, 70000])))


def run_random(c):
    shape, kind, n, how, size = c

    def prog():
        return [crypto.random_bytes(n), crypto.random_bytes(n), crypto.random_bits(n), crypto.random_bits(n), crypto.random_tensor((40, *shape), DT[kind]), crypto.random_tensor((40, *shape), DT[kind]), crypto.random_bits(512), crypto.random_bytes(64)]

    with Interpreter() as it:
        if how == "eager":
            runs = [prog(), prog()]
        else:
            t = mp.compile(prog)
            runs = [mp.evaluate(t), mp.evaluate(t)]
        seen = set()
        for run in runs:
            b1, b2, w1, w2, t1, t2, w512, b64 = [np.asarray(o.runtime_obj.unwrap()) for o in run]
            for o, x in zip(run, [b1, b2, w1, w2, t1, t2, w512, b64]):
                check(o.type.shape == x.shape, lambda: f"random value of shape {x.shape} declared {o.type}")
            check(b1.dtype == np.uint8 and b1.shape == (n,) == w1.shape and w1.dtype == np.uint8, "form of random bytes or bits")
            check(set(np.concatenate([w1, w2, w512]).tolist()) <= {0, 1}, "a random bit is neither 0 nor 1")
            check(t1.shape == (40, *shape) and t1.dtype == np.dtype(NPD[kind]), lambda: f"random tensor is {t1.dtype}{t1.shape}")
            check(150 < int(w512.sum()) < 362, "random bits are biased")  # (9 standard deviations)
            check(len(set(t1.ravel().tolist())) > 1, "a random tensor repeats one value")
            per = t1.reshape(40, -1).astype(object)
            check(all(len(set(col)) > 1 for col in per.T), "a position of a random tensor is constant")
            big = np.asarray(crypto.random_bytes(size).runtime_obj.unwrap()).tobytes()
            check(len(big) == size, "random bytes of another length")
            blocks = [big[i : i + 16] for i in range(0, size - 15, 16)]
            check(len(set(blocks)) == len(blocks), lambda: f"{size} random bytes repeat a block")
            big = np.asarray(crypto.random_tensor((size // 8 + 1,), elt.u64).runtime_obj.unwrap())
            check(len(set(big.tolist())) == len(big), lambda: f"{len(big)} random words repeat one")
            big = np.packbits(np.asarray(crypto.random_bits(8 * size).runtime_obj.unwrap())).tobytes()
            blocks = [big[i : i + 16] for i in range(0, size - 15, 16)]
            check(len(set(blocks)) == len(blocks), lambda: f"{8 * size} random bits repeat a block")
            for x in (t1, t2, w512, b64, *([b1, b2] if n >= 16 else [])):
                seen.add((x.dtype.str, x.shape, x.tobytes()))
        want = 2 * (6 if n >= 16 else 4)
        check(len(seen) == want, "randomness was used twice")


# ---------------------------------------------------------------- freshness across threads and processes


def draw(seed, count):
    """Everything random, drawn once more: name -> values that must never be seen again."""
    from concurrent.futures import ThreadPoolExecutor

    NAMES = ["nonce", "private key", "scalar", "bytes", "bits", "tensor"]

    def prog():
        key = crypto.hash_bytes(tensor.constant(np.arange(4)))
        out = []
        for _ in range(count):
            out += [crypto.sym_encrypt(key, tensor.constant(np.arange(3))), crypto.kem_keygen()[0], crypto.ec_random_scalar(), crypto.random_bytes(24), crypto.random_bits(192), crypto.random_tensor((3,), elt.u64)]
        return out

    t = mp.compile(prog)

    def some(_):
        vals = Interpreter().evaluate_graph(t.graph, [])
        return [(n, bytes(v.unwrap())[:12] if n == "nonce" else v.key_bytes if n == "private key" else str(v).encode() if n == "scalar" else np.asarray(v.unwrap()).tobytes()) for n, v in zip(NAMES * count, vals)]

    if count == 1:
        return some(0)
    with ThreadPoolExecutor(4) as ex:
        return [x for y in ex.map(some, range(4)) for x in y]


CHILD = """
import json, random, sys
import numpy
random.seed({seed}); numpy.random.seed({seed})
import jax
jax.config.update("jax_enable_x64", True)
import mplang.backends
mplang.backends.load_builtins()
from checks.k01 import draw
print("DRAWN" + json.dumps([[n, b.hex()] for n, b in draw({seed}, {count})]))
"""


def run_fresh(c):
    """Several processes that start in the same state, and several threads in each."""
    import json
    import os
    import subprocess
    import sys

    seed, count, how = c
    label(how)
    if how == "fork":
        from checks.r03 import in_child

        state = random.getstate(), np.random.get_state()
        runs = []
        for _ in range(2):
            random.setstate(state[0])
            np.random.set_state(state[1])
            kind, res = in_child(lambda: draw(seed, 1), limit=60)
            check(kind == "ok", lambda: f"drawing in a child process: {kind} {res}")
            runs.append(res)
        random.setstate(state[0])
        np.random.set_state(state[1])
        runs.append(draw(seed, 1))
    else:
        ps = [subprocess.Popen([sys.executable, "-c", CHILD.format(seed=seed, count=count)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env={**os.environ, "PYTHONPATH": ":".join(sys.path)}) for _ in range(2)]
        runs = []
        for p in ps:
            out, err = p.communicate(timeout=150)
            lines = [x for x in out.splitlines() if x.startswith("DRAWN")]
            check(p.returncode == 0 and lines, lambda: f"drawing in another process failed: {err[-600:]}")
            runs.append([(n, bytes.fromhex(h)) for n, h in json.loads(lines[0][5:])])
    seen = {}
    for i, run in enumerate(runs):
        for n, b in run:
            check((n, b) not in seen, lambda: f"a {n} drawn in process {i} had already been drawn in process {seen[n, b]}")
            seen[n, b] = i


fresh_case = lambda: st.tuples(st.integers(0, 2**31), st.integers(2, 20), st.sampled_from(["spawn", "fork"]))


# ---------------------------------------------------------------- between parties

party_case = lambda: st.tuples(st.integers(2, 4), st.integers(0, 2**40), st.sampled_from(["eager", "traced", "packed"]), st.sampled_from([False, False, False, True]))


def run_parties(c):
    P, seed, how, over_http = c
    r = random.Random(seed)
    a, b = r.sample(range(P), 2)
    label("http" if over_http else "memory")
    kind = r.choice(list(DT))
    shape = tuple(r.randint(1, 4) for _ in range(r.randint(0, 2)))
    x = rnd_array(kind, shape, r)
    derive = r.random() < 0.5

    def prog():
        ska, pka = simp.pcall_static((a,), crypto.kem_keygen)
        skb, pkb = simp.pcall_static((b,), crypto.kem_keygen)
        pkb_a, pka_b = simp.shuffle_static(pkb, {a: b}), simp.shuffle_static(pka, {b: a})

        def end(sk, pk):
            k = crypto.kem_derive(sk, pk)
            return crypto.hkdf(k, "a/b") if derive else k

        ka, kb = simp.pcall_static((a,), end, ska, pkb_a), simp.pcall_static((b,), end, skb, pka_b)
        m = simp.pcall_static((a,), lambda: tensor.constant(x))
        ct = simp.shuffle_static(simp.pcall_static((a,), crypto.sym_encrypt, ka, m), {b: a})
        pt = simp.pcall_static((b,), lambda k, c: crypto.sym_decrypt(k, c, elt.TensorType(DT[kind], shape)), kb, ct)
        return [pt, simp.pcall_static((a,), crypto.hash_bytes, m), simp.pcall_static((b,), crypto.hash_bytes, pt)]

    with (http if over_http else simulator)(P) as interp:
        outs, vals = execute(interp, how, prog, 20, "key exchange between parties")
    got = np.asarray(vals[0][b])
    check(bits(got) == bits(np.array(x)), lambda: f"party {b} decrypted {got!r} instead of {x!r}")
    check(np.array_equal(vals[1][a], vals[2][b]) and bytes(np.asarray(vals[1][a])) == hashlib.sha256(np.ascontiguousarray(x).tobytes()).digest(), "digests on the two sides differ")
    check(all(v[p] is None for v, h in zip(vals, [b, a, b]) for p in range(P) if p != h), "another party holds the value")


SUBS = [
    Sub("ciphertext", round_case, run_round, "random values of any type under keys of any origin: opened exactly, and four random faults of ciphertext or key detected", lambda c: True, quick=700, thorough=40000),
    Sub("exchange", ex_case, run_exchange, "key pairs among several ends, derived keys against RFC 7748 and RFC 5869, refusals", lambda c: len(c[1]) > 1, quick=120, thorough=4000),
    Sub("digest", hash_case, run_hash, "digests of any array, layout and block boundary, batched or whole, against hashlib", lambda c: len(c[1]) > 0, quick=900, thorough=40000),
    Sub("random", rand_case, run_random, "random bytes, bits and tensors: form, range, freshness within and across runs", lambda c: c[2] >= 16, quick=60, thorough=5000),
    Sub("fresh", fresh_case, run_fresh, "everything random drawn in several processes and threads that start in the same state: no value seen twice; non-trivial = all", lambda c: True, quick=2, thorough=40, shards_quick=2, shards_thorough=4, hang_s=200),
    Sub("parties", party_case, run_parties, "two of several parties exchange keys and a ciphertext, in memory and over HTTP", lambda c: c[0] > 2, quick=150, thorough=4000),
]
