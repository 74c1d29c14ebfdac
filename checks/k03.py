"""K03: arithmetic on additively homomorphic ciphertexts is arithmetic on the numbers."""

from __future__ import annotations

import random
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.dialects import phe, simp, tensor
from mplang.edsl import serde
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "K03"
ASSUMPTIONS = ["keys of 512 bits stand for keys of any size", "the paillier scheme, the only one the installed library offers under the documented names"]
KEY = 512
LIMIT = 2**440  # results stay below half the modulus

DTYPES = {"f64": (elt.f64, np.float64), "f32": (elt.f32, np.float32), "i64": (elt.i64, np.int64), "i32": (elt.i32, np.int32), "u8": (elt.u8, np.uint8), "i8": (elt.i8, np.int8), "u64": (elt.u64, np.uint64), "f16": (elt.f16, np.float16), "i16": (elt.i16, np.int16), "u16": (elt.u16, np.uint16), "u32": (elt.u32, np.uint32)}


def numbers(r, dt, fxp, n):
    """n values of the type, exactly representable by its encoder."""
    np_t = DTYPES[dt][1]
    out = []
    for _ in range(n):
        if dt[0] == "f":
            bits = {"f16": 10, "f32": 20}.get(dt) or r.choice([8, 30, 50])
            v = r.choice([0, 1, -1, r.randint(-(2**bits), 2**bits)]) * 2.0 ** -r.randint(0, min(fxp, 4 if dt == "f16" else 12))
        else:
            i = np.iinfo(np_t)
            v = r.choice([0, 1, i.max, i.min, i.max - 1, r.randint(i.min, i.max), r.randint(max(i.min, -9), 9)])
        out.append(v)
    return np.array(out, dtype=np_t)


def ints(arr, scale):
    """Encoded integers of an array of representable numbers."""
    out = np.empty(arr.shape, dtype=object)
    for ix in np.ndindex(arr.shape):
        f = Fraction(arr[ix].item()) * scale
        assert f.denominator == 1
        out[ix] = f.numerator
    return out


def plan(r, n):
    """Steps (op, operands, parameters) over encrypted tensors, and their model as arrays of integers."""
    fxp = r.choice([0, 1, 8, 16, 16, 24, 40])
    dt = r.choice(["f64", "f64", "f64", "f32", "i64", "i64", "i32", "u8", "i8", "u64", "f16", "i16", "u16", "u32"])
    scale = 2**fxp if dt[0] == "f" else 1
    shape = tuple(r.randint(1, 3) for _ in range(r.randint(0, 3)))
    while np.prod(shape, dtype=int) > 6:
        shape = shape[1:]
    steps, model = [], []

    def new(shape, kind):
        v = numbers(r, kind, fxp, int(np.prod(shape, dtype=int))).reshape(shape)
        return v, ints(v, 2**fxp if kind[0] == "f" else 1)

    for _ in range(r.randint(1, 2)):
        v, m = new(shape, dt)
        steps.append(("enc", v))
        model.append(m)
    for _ in range(n):
        i = r.randrange(len(model))
        a = model[i]
        op = r.choice(["add", "add", "addp", "addp", "padd", "mul", "mul", "pmul", "double", "enc", "reshape", "transpose", "slice", "concat", "gather", "zero"])
        same = [j for j, m in enumerate(model) if m.shape == a.shape or (m.shape == () or a.shape == ())]
        j = r.choice(same)
        if op == "add":
            step, m = ("add", i, j), model[i] + model[j]
        elif op == "double":
            step, m = ("add", i, i), a + a
        elif op in ("addp", "padd"):
            v, p = new(r.choice([a.shape, a.shape, ()]) if a.shape else r.choice([(), (2,)]), dt)
            step, m = (op, i, v), a + p
        elif op in ("mul", "pmul", "zero"):
            k = r.choice(["i64", "i8", "i32"])  # factors are whole numbers, or fixed-point numbers (result then carries both scales)
            if op != "zero" and dt[0] == "f" and r.random() < 0.3:
                k = dt
            v, p = new(r.choice([a.shape, a.shape, ()]) if a.shape else r.choice([(), (2,)]), k)
            if op == "zero":
                v, p, op = np.zeros_like(v), p * 0, "mul"
            step, m = (op, i, v, k), a * p
        elif op == "enc":
            v, p = new(r.choice([shape, a.shape]), dt)
            step, m = ("enc", v), p
        elif op == "reshape":
            t = a.size
            cands = [s for s in [(t,), (1, t), (t, 1), (t, 1, 1), (2, t // 2) if t % 2 == 0 else (t,), (3, t // 3) if t % 3 == 0 else (t,)]]
            s = r.choice(cands)
            step, m = ("reshape", i, s), a.reshape(s)
        elif op == "transpose":
            if a.ndim < 2:
                continue
            perm = tuple(r.sample(range(a.ndim), a.ndim))
            step, m = ("transpose", i, perm), a.transpose(perm)
        elif op == "slice":
            if a.ndim < 1:
                continue
            lo = tuple(r.randrange(d) for d in a.shape)
            hi = tuple(r.randint(b + 1, d) for b, d in zip(lo, a.shape))
            step, m = ("slice", i, lo, hi), a[tuple(slice(b, e) for b, e in zip(lo, hi))]
        elif op == "concat":
            if a.ndim < 1 or a.size > 6:
                continue
            ax = r.randrange(a.ndim)
            js = [k for k, q in enumerate(model) if q.ndim == a.ndim and all(x == y for d, (x, y) in enumerate(zip(q.shape, a.shape)) if d != ax)]
            j = r.choice(js)
            step, m = ("concat", i, j, ax), np.concatenate([a, model[j]], axis=ax)
        else:
            if a.ndim < 1:
                continue
            ax = r.randrange(a.ndim)
            ix = [r.randrange(a.shape[ax]) for _ in range(r.randint(1, 3))]
            step, m = ("gather", i, ix, ax), np.take(a, ix, axis=ax)
        m = np.asarray(m, dtype=object)
        if m.size > 12 or any(abs(int(x)) >= LIMIT for x in m.ravel()):
            continue
        steps.append(step)
        model.append(m)
    return dict(fxp=fxp, dt=dt, scale=scale, steps=steps), model


def encoder(dt, fxp):
    return phe.create_encoder(dtype=DTYPES[dt][0], fxp_bits=fxp)


def build(p, pk, via=lambda x: x):
    """Run the plan on ciphertexts."""
    out = []
    enc = via(encoder(p["dt"], p["fxp"]))

    def plain(v, dt):
        e = enc if dt == p["dt"] else encoder(dt, p["fxp"])
        return via(phe.encode(tensor.constant(v), e))

    for s in p["steps"]:
        a = via(out[s[1]]) if s[0] != "enc" else None
        if s[0] == "enc":
            x = phe.encrypt(plain(s[1], p["dt"]), pk) if len(out) % 2 else phe.encrypt_auto(tensor.constant(s[1]), enc, pk)
        elif s[0] == "add":
            x = phe.add(a, via(out[s[2]]))
        elif s[0] == "addp":
            x = phe.add(a, plain(s[2], p["dt"]))
        elif s[0] == "padd":
            x = phe.add(plain(s[2], p["dt"]), a)
        elif s[0] == "mul":
            x = phe.mul_plain(a, plain(s[2], s[3]))
        elif s[0] == "pmul":
            x = phe.mul_plain(plain(s[2], s[3]), a)
        elif s[0] == "reshape":
            x = tensor.reshape(a, s[2])
        elif s[0] == "transpose":
            x = tensor.transpose(a, s[2])
        elif s[0] == "slice":
            x = tensor.slice_tensor(a, s[2], s[3])
        elif s[0] == "concat":
            x = tensor.concat([a, via(out[s[2]])], axis=s[3])
        else:
            x = tensor.gather(a, tensor.constant(np.array(s[2], dtype=np.int64)), axis=s[3])
        out.append(x)
    return out


def decoded(m, scale):
    out = np.empty(m.shape, dtype=np.float64)
    for ix in np.ndindex(m.shape):
        out[ix] = int(m[ix]) / scale
    return out


def judge(got, want, p, what):
    for i, (g, m) in enumerate(zip(got, want, strict=True)):
        g, w = np.asarray(g), decoded(m, p["scale"])
        check(g.shape == w.shape and g.dtype == np.float64, lambda: f"{what}: step {i} {p['steps'][i]} is {g.dtype}{g.shape} instead of float64{w.shape}")
        check(np.array_equal(g, w), lambda: f"{what}: step {i} {p['steps'][i]} decrypts to {g.tolist()} instead of {w.tolist()} (type {p['dt']}, {p['fxp']} bits)")


chain_case = lambda: st.tuples(st.integers(1, 8), st.sampled_from(["eager", "serde", "binary", "traced"]), st.integers(0, 2**40))


def run_chain(c):
    n, how, seed = c
    p, want = plan(random.Random(seed), n)
    label(how); label(p["dt"])
    with Interpreter() as it:

        def finish(via=lambda x: x):
            pk, sk = phe.keygen(key_size=KEY)
            pk, sk = via(pk), via(sk)
            enc = via(encoder(p["dt"], p["fxp"]))
            outs = build(p, pk, via)
            return [phe.decrypt_auto(via(x), enc, sk) if i % 2 else phe.decode(via(phe.decrypt(x, sk)), enc) for i, x in enumerate(outs)]

        if how == "traced":
            outs = mp.evaluate(mp.compile(finish))
        elif how == "eager":
            outs = finish()
        else:
            send = (lambda v: serde.loads(serde.dumps(v))) if how == "serde" else (lambda v: serde.loads_b64(serde.dumps_b64(v)))
            outs = finish(lambda x: InterpObject(send(x.runtime_obj), x.type, it))
        for o, m in zip(outs, want):
            t = o.type
            check(isinstance(t, elt.TensorType) and tuple(t.shape) == m.shape and t.element_type == elt.f64, lambda: f"result declared as {t} for shape {m.shape}")
        judge([o.runtime_obj.unwrap() for o in outs], want, p, how)


# --- encoders -----------------------------------------------------------------

enc_case = lambda: st.tuples(st.sampled_from(sorted(DTYPES)), st.integers(0, 40), st.lists(st.one_of(st.floats(-1e9, 1e9), st.integers(-(2**64), 2**64), st.floats()), min_size=1, max_size=4), st.one_of(st.none(), st.integers(1, 2**48)), st.booleans())


def run_encode(c):
    """A value decodes to itself up to the precision of the encoder, encrypted or not; out-of-range values are refused."""
    dt, fxp, vals, top, crypt = c
    np_t = DTYPES[dt][1]
    isf = dt[0] == "f"
    if isf:
        with np.errstate(all="ignore"):
            arr = np.array([float(v) for v in vals], dtype=np.float64).astype(np_t)
    else:
        i = np.iinfo(np_t)
        arr = np.array([int(v) if isinstance(v, int) else (int(v) if np.isfinite(v) else 0) for v in vals], dtype=object)
        arr = np.array([min(max(v, i.min), i.max) for v in arr], dtype=np_t)
    scale = 2**fxp if isf else 1
    finite = bool(np.all(np.isfinite(arr)))
    size = [abs(Fraction(x.item())) * scale for x in arr] if finite else []
    must = not finite or (top is not None and any(int(s) >= top for s in size))
    edge = top is not None and any(top - 1 < s < top for s in size)  # rounding decides
    edge = edge or any(s > 2**1023 for s in size)  # far beyond any key, and about to leave the range of floats
    big = finite and any(s >= LIMIT for s in size)
    label(dt); label("refused" if must else "accepted")
    with Interpreter():
        try:
            e = phe.create_encoder(dtype=DTYPES[dt][0], fxp_bits=fxp, **({"max_value": top} if top is not None else {}))
            x = phe.encode(tensor.constant(arr), e)
            if crypt and not big:
                pk, sk = phe.keygen(key_size=KEY)
                x = phe.decrypt(phe.encrypt(x, pk), sk)
            y = phe.decode(x, e)
        except Exception as err:
            check(must or edge, lambda: f"{arr.tolist()} ({dt}) could not be encoded with {fxp} bits, max_value {top}: {type(err).__name__}: {err}")
            return
        check(not must, lambda: f"{arr.tolist()} ({dt}) was encoded with {fxp} bits although max_value is {top}")
        got = np.asarray(y.runtime_obj.unwrap())
        check(got.shape == arr.shape and got.dtype == np.float64, lambda: f"decoded to {got.dtype}{got.shape}")
        for a, g in zip(arr, got):
            d = abs(Fraction(float(g)) - Fraction(a.item()))
            exact = (Fraction(a.item()) * scale).denominator == 1
            ok = (float(g) == float(a.item())) if exact else d < Fraction(1, scale)
            check(ok, lambda: f"{a!r} with {fxp} bits decodes to {g!r}")


# --- refusals -----------------------------------------------------------------

bad_case = lambda: st.tuples(st.sampled_from(["ct*ct", "pt+pt", "pt*pt", "raw", "enc-sk", "dec-pk", "dec-pk-value", "keys", "decode-ct", "decrypt-pt", "raw-add", "raw-mul", "encoder", "shapes", "leak"]), st.integers(0, 2**40))


def run_refuse(c):
    kind, seed = c
    r = random.Random(seed)
    label(kind)
    with Interpreter() as it:
        pk, sk = phe.keygen(key_size=KEY)
        shape = r.choice([(), (2,), (2, 2)])
        v = tensor.constant(np.full(shape, r.randint(-9, 9) + 0.5))
        enc = encoder("f64", 16)
        pt = phe.encode(v, enc)
        ct = phe.encrypt(pt, pk)
        two = phe.encrypt(pt, pk)
        check(serde.dumps(ct.runtime_obj) != serde.dumps(two.runtime_obj), "two encryptions of a value are the same ciphertext")
        size = KEY
        if kind == "leak":
            size = r.choice([KEY, 640, 768])
            pk, sk = phe.keygen(key_size=size)
            ct = phe.encrypt(pt, pk)
        cs = sk.runtime_obj.cs.cs.keys
        n = int(cs["public_key"]["n"])
        check(size - 40 < n.bit_length() <= size, lambda: f"key of {n.bit_length()} bits instead of {size}")
        secret = [int(v) for v in cs["private_key"].values() if int(v).bit_length() > 64]
        check(secret, "no private key numbers to look for")
        for name, o in (("public key", pk), ("ciphertext", ct), ("sum", phe.add(ct, pt)), ("product", phe.mul_plain(ct, pt))):
            text = str(serde.to_json(o.runtime_obj))
            check(not any(str(v) in text or f"{v:x}" in text for v in secret), lambda: f"a private key number is in the {name}")
        if kind == "leak":
            return
        if kind == "keys":
            pk2, _ = phe.keygen(key_size=KEY)
            other = phe.encrypt(pt, pk2)
        tries = {
            "ct*ct": lambda: phe.mul_plain(ct, two),
            "pt+pt": lambda: phe.add(pt, pt),
            "pt*pt": lambda: phe.mul_plain(pt, pt),
            "raw": lambda: phe.encrypt(v, pk),
            "enc-sk": lambda: phe.encrypt(pt, sk),
            "dec-pk": lambda: phe.decrypt(ct, pk),
            "dec-pk-value": lambda: phe.decrypt(ct, InterpObject(pk.runtime_obj, sk.type, it)),
            "keys": lambda: phe.add(ct, other),
            "decode-ct": lambda: phe.decode(ct, enc),
            "decrypt-pt": lambda: phe.decrypt(pt, sk),
            "raw-add": lambda: phe.add(ct, v),
            "raw-mul": lambda: phe.mul_plain(ct, v),
            "encoder": lambda: phe.encode(v, pk),
            "shapes": lambda: phe.add(ct, phe.encrypt_auto(tensor.constant(np.ones((3,))), enc, pk)) if shape else phe.create_encoder(dtype=elt.TensorType(elt.f64, (2,))),
        }
        try:
            out = tries[kind]()
        except Exception:
            return
        check(False, f"{kind} was accepted for shape {shape}, giving {out}")


# --- parties ------------------------------------------------------------------

party_case = lambda: st.tuples(st.integers(2, 4), st.integers(1, 5), st.sampled_from(["eager", "traced", "packed"]), st.sampled_from([False, False, True]), st.integers(0, 2**40))


def run_parties(c):
    """The key holder's public key goes to the encryptors, their ciphertexts to a computing party and back."""
    P, n, how, over_http, seed = c
    r = random.Random(seed)
    p, want = plan(r, n)
    label("http" if over_http else "memory")
    owner, calc = r.sample(range(P), 2)

    def prog():
        pk, sk = simp.pcall_static((owner,), phe.keygen, key_size=KEY)
        pk2 = simp.shuffle_static(pk, {calc: owner})
        cts = simp.pcall_static((calc,), lambda k: build(p, k), pk2)
        back = [simp.shuffle_static(x, {owner: calc}) for x in cts]

        def open_(sk, *xs):
            enc = encoder(p["dt"], p["fxp"])
            return [phe.decrypt_auto(x, enc, sk) for x in xs]

        return simp.pcall_static((owner,), open_, sk, *back)

    with (http if over_http else simulator)(P) as interp:
        _, vals = execute(interp, how, prog, 30, "ciphertexts between parties")
    for i, v in enumerate(vals):
        check([x is not None for x in v] == [q == owner for q in range(P)], lambda: f"result {i} is held by other parties than {owner}")
    judge([v[owner] for v in vals], want, p, "between parties")


SUBS = [
    Sub("chain", chain_case, run_chain, "random chains of additions, plaintext operations and rearrangements of encrypted tensors, against integers; non-trivial = several steps, one of them a multiplication or rearrangement", lambda c: len({s[0] for s in plan(random.Random(c[2]), c[0])[0]["steps"]} - {"enc", "add"}) > 1, quick=220, thorough=12000),
    Sub("encode", enc_case, run_encode, "any value of any numeric type through any encoder; non-trivial = refused or fractional", lambda c: c[3] is not None or c[0][0] == "f", quick=400, thorough=20000),
    Sub("refuse", bad_case, run_refuse, "operations that make no sense are refused, and only the private key decrypts", lambda c: True, quick=120, thorough=3000),
    Sub("parties", party_case, run_parties, "keys and ciphertexts travel between parties", lambda c: c[1] > 1, quick=60, thorough=2500),
]
