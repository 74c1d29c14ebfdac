"""K05: a quote vouches for the key it was made from, and nothing else passes for a quote."""

from __future__ import annotations

import random
import warnings

import numpy as np
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.backends.crypto_impl import BytesValue, PublicKeyValue
from mplang.backends.tee_impl import MockQuoteValue
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import crypto, simp, tee, tensor
from mplang.edsl import serde
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "K05"
ASSUMPTIONS = ["the trusted device is a mock without signatures: a forged but well-formed quote cannot be told from a real one"]
warnings.filterwarnings("ignore", message="Insecure mock TEE")


def attest(it, value, curve="x25519"):
    return tee.attest(InterpObject(value, tee.QuoteType(), it), expected_curve=curve)


case = lambda: st.tuples(st.sampled_from(["value", "bytes", "json", "binary", "many"]), st.sampled_from(["keygen", "keygen", "any", "edge"]), st.sampled_from(["x25519", "x25519", "x25519", "secp256k1"]), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def transport(v, how):
    if how == "bytes":
        return BytesValue(v.to_bytes())
    if how == "json":
        return serde.loads(serde.dumps(v))
    if how == "binary":
        return serde.loads(serde.dumps(BytesValue(v.to_bytes())))
    if how == "many":
        return MockQuoteValue.from_bytes(serde.loads(serde.dumps(MockQuoteValue.from_bytes(v.to_bytes()))).to_bytes())
    return v


def run_quote(c):
    how, kind, suite, mode, seed = c
    r = random.Random(seed)
    label(how)
    with Interpreter() as it:
        sk, pk = crypto.kem_keygen()
        if kind != "keygen" or suite != "x25519":
            n = 32 if suite == "x25519" else r.choice([1, 32, 33, 65])
            raw = r.randbytes(n) if kind != "edge" else r.choice([bytes(n), b"\xff" * n, b"\x06x25519"[:n].ljust(n, b"\x20")])
            pk = InterpObject(PublicKeyValue(suite, raw), crypto.PublicKeyType(suite), it)
        want = pk.runtime_obj
        if mode == "eager":
            q = tee.quote_gen(pk)
        else:
            q = mp.evaluate(mp.compile(lambda: tee.quote_gen(pk)))
        check(q.type == tee.QuoteType(), lambda: f"type {q.type} of a quote")
        val = transport(q.runtime_obj, how)
        if mode == "traced":
            src = InterpObject(val, tee.QuoteType(), it)
            got = mp.evaluate(mp.compile(lambda: tee.attest(src, suite)))
        else:
            got = attest(it, val, suite)
        check(got.type == tee.AttestedKeyType(suite), lambda: f"type {got.type} of an attested key")
        g = got.runtime_obj
        check((g.suite, bytes(g.key_bytes)) == (suite, bytes(want.key_bytes)), lambda: f"attested {g} instead of {want}")
        other = "secp256k1" if suite == "x25519" else "x25519"
        try:
            attest(it, val, other)
        except Exception:
            pass
        else:
            check(False, f"a quote of a {suite} key was accepted where a {other} key is expected")
        if kind == "keygen" and suite == "x25519":
            s2, p2 = crypto.kem_keygen()
            a, b = crypto.kem_derive(s2, got), crypto.kem_derive(sk, p2)
            check(a.runtime_obj.key_bytes == b.runtime_obj.key_bytes, "the attested key does not belong to the device's private key")


crowd_case = lambda: st.tuples(st.integers(2, 6), st.sampled_from(["value", "bytes", "json", "binary", "many"]), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_crowd(c):
    """Several keys with alike beginnings and ends, quoted and verified in different orders."""
    n, how, mode, seed = c
    r = random.Random(seed)
    base = r.randbytes(32)
    raws = [base]
    while len(raws) < n:
        k = bytearray(r.choice(raws))
        i = r.choice([0, 15, 16, 31, r.randrange(32)])
        k[i] ^= r.randrange(1, 256)
        raws.append(bytes(k))
    label(mode)
    with Interpreter() as it:
        pks = [InterpObject(PublicKeyValue("x25519", b), crypto.PublicKeyType("x25519"), it) for b in raws]
        order = [r.randrange(n) for _ in range(n + 2)]
        if mode == "eager":
            qs = [tee.quote_gen(pks[i]) for i in order]
        else:
            qs = mp.evaluate(mp.compile(lambda: [tee.quote_gen(pks[i]) for i in order]))
        vals = [transport(q.runtime_obj, how) for q in qs]
        back = list(range(len(order)))
        r.shuffle(back)
        if mode == "eager":
            got = [attest(it, vals[j]) for j in back]
        else:
            src = [InterpObject(v, tee.QuoteType(), it) for v in vals]
            got = mp.evaluate(mp.compile(lambda: [tee.attest(src[j]) for j in back]))
        for j, g in zip(back, got):
            check(bytes(g.runtime_obj.key_bytes) == raws[order[j]], lambda: f"quote {j} of {len(order)} attests to {bytes(g.runtime_obj.key_bytes).hex()} instead of {raws[order[j]].hex()}")


bad_case = lambda: st.tuples(st.sampled_from(["cut", "value-cut", "value-cut", "extend", "length", "suite", "junk", "empty", "type", "shift"]), st.integers(0, 2**40))


def run_bad(c):
    what, seed = c
    r = random.Random(seed)
    label(what)
    with Interpreter() as it:
        _, pk = crypto.kem_keygen()
        q = tee.quote_gen(pk).runtime_obj
        b = q.to_bytes()
        head = len(b) - 32
        if what == "type":
            sk, _ = crypto.kem_keygen()
            vals = [pk.runtime_obj, sk.runtime_obj, TensorValue(np.frombuffer(b, np.uint8)), None, "mock", 3, MockQuoteValue("mock", q.bound_pk[: r.randrange(32)], "x25519").to_bytes().decode("latin1")]
            bads = [r.choice(vals)]
            for wrong in (lambda: tee.quote_gen(sk), lambda: tee.quote_gen(tensor.constant(np.zeros(32, np.uint8))), lambda: tee.quote_gen(InterpObject(sk.runtime_obj, pk.type, it))):
                try:
                    wrong()
                except TypeError:
                    continue
                check(False, "a quote was made for something that is not a public key")
        elif what == "value-cut":  # the same as a value, or travelling as one
            pkb = r.choice([q.bound_pk[: r.randrange(32)], q.bound_pk + r.randbytes(r.choice([1, 32]))])
            v = MockQuoteValue("mock", pkb, "x25519")
            try:
                v = v if r.random() < 0.4 else serde.loads(serde.dumps(v))
            except Exception:  # noqa: BLE001 - refused on arrival
                return
            bads = [v]
        elif what == "cut":
            bads = [BytesValue(b[: r.randrange(len(b))])]
        elif what == "extend":
            bads = [BytesValue(b + r.randbytes(r.choice([1, 32])))]
        elif what == "length":
            i = r.choice([0, b.index(b"x25519") - 1])
            bads = [BytesValue(b[:i] + bytes([r.choice([v for v in range(256) if v != b[i]])]) + b[i + 1 :])]
        elif what == "suite":
            s = r.choice(["X25519", "x2551", "secp256k1", "", "kyber768", "x25519 "])
            bads = [MockQuoteValue("mock", q.bound_pk, s), BytesValue(MockQuoteValue("mock", q.bound_pk, s).to_bytes())]
        elif what == "shift":
            i = r.randrange(head)
            bads = [BytesValue(b[:i] + b[i + 1 :]), BytesValue(b[:i] + r.randbytes(1) + b[i:])]
        else:
            bads = [BytesValue(r.randbytes(r.randrange(80)) if what == "junk" else b"")]
        for bad in bads:
            try:
                got = attest(it, bad).runtime_obj
            except Exception:
                continue
            if what in ("shift", "length") and bytes(got.key_bytes) == q.bound_pk:
                continue  # only the platform's name is another
            check(False, f"{bad!r} was accepted as quote for {got!r}")


party_case = lambda: st.tuples(st.integers(2, 4), st.integers(0, 2**40), st.sampled_from(["eager", "traced", "packed"]), st.sampled_from([False, False, True]))


def run_parties(c):
    P, seed, how, over_http = c
    r = random.Random(seed)
    t, s = r.sample(range(P), 2)
    x = np.frombuffer(r.randbytes(24), np.int64)

    def prog():
        sk, pk = simp.pcall_static((t,), crypto.kem_keygen)
        q = simp.pcall_static((t,), tee.quote_gen, pk)
        at = simp.pcall_static((s,), tee.attest, simp.shuffle_static(q, {s: t}))
        sk2, pk2 = simp.pcall_static((s,), crypto.kem_keygen)
        k2 = simp.pcall_static((s,), lambda a, b: crypto.hkdf(crypto.kem_derive(a, b), "q"), sk2, at)
        k1 = simp.pcall_static((t,), lambda a, b: crypto.hkdf(crypto.kem_derive(a, b), "q"), sk, simp.shuffle_static(pk2, {t: s}))
        m = simp.pcall_static((s,), lambda: tensor.constant(x))
        ct = simp.shuffle_static(simp.pcall_static((s,), crypto.sym_encrypt, k2, m), {t: s})
        return [simp.pcall_static((t,), lambda k, c: crypto.sym_decrypt(k, c, elt.TensorType(elt.i64, (3,))), k1, ct)]

    with (http if over_http else simulator)(P) as interp:
        _, vals = execute(interp, how, prog, 20, "attested exchange")
    check(np.array_equal(np.asarray(vals[0][t]), x), lambda: f"the device decrypted {vals[0][t]} instead of {x}")


SUBS = [
    Sub("quote", case, run_quote, "quotes of generated and arbitrary keys, moved in every form, attest to exactly that key", lambda c: c[0] != "value", quick=600, thorough=30000),
    Sub("crowd", crowd_case, run_crowd, "quotes of several keys that differ in one byte, made and verified in different orders; non-trivial = all", lambda c: True, quick=300, thorough=10000),
    Sub("refuse", bad_case, run_bad, "truncated, extended, shifted or mislabelled quotes and other values are refused", lambda c: True, quick=800, thorough=40000),
    Sub("parties", party_case, run_parties, "an attested key exchange between two parties", lambda c: c[0] > 2, quick=60, thorough=2000),
]
