"""K02: the curve operations are the group secp256k1."""

from __future__ import annotations

import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.crypto_impl import ECPointValue
from mplang.dialects import crypto, simp, tensor
from mplang.edsl import serde
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "K02"
ASSUMPTIONS = ["the identity is written as 65 zero bytes"]

FP = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def add(p, q):
    """Affine addition; None is the identity."""
    if p is None:
        return q
    if q is None:
        return p
    (x1, y1), (x2, y2) = p, q
    if x1 == x2:
        if (y1 + y2) % FP == 0:
            return None
        m = 3 * x1 * x1 * pow(2 * y1, -1, FP) % FP
    else:
        m = (y2 - y1) * pow(x2 - x1, -1, FP) % FP
    x = (m * m - x1 - x2) % FP
    return x, (m * (x1 - x) - y1) % FP


def neg(p):
    return None if p is None else (p[0], -p[1] % FP)


def mul(p, k):
    k %= N
    out = None
    while k:
        if k & 1:
            out = add(out, p)
        p = add(p, p)
        k >>= 1
    return out


def enc(p):
    return bytes(65) if p is None else b"\x04" + p[0].to_bytes(32, "big") + p[1].to_bytes(32, "big")


INTS = [0, 1, 2, 3, 5, 7, -1, -2, 2**31 - 1, 2**62, 2**63 - 1, -(2**63)]


def int_tensor(k, pick=0):
    """A whole number as a tensor of one of the types that can hold it."""
    fit = [np.int64 if k < 2**63 else np.uint64] + [t for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.uint64) if np.iinfo(t).min <= k <= np.iinfo(t).max]
    if k in (0, 1):
        fit.append(np.bool_)
    return tensor.constant(np.array(k, dtype=fit[pick % len(fit)]))


def plan(r, n):
    """Steps over points; each with the index of its operands."""
    steps = [("g",)]
    for _ in range(n):
        m = len(steps)
        a, b = r.randrange(m), r.randrange(m)
        op = r.choice(["add", "add", "sub", "mul", "mul", "self", "dbl", "neg", "bytes", "order", "back", "inverse"])
        k = r.choice([r.choice(INTS), r.choice(INTS), r.randint(-(2**63), 2**64 - 1), r.randint(0, 9)])
        steps.append((op, a, b, k))
    return steps


def model(steps):
    out = []
    for s in steps:
        if s[0] == "g":
            out.append(G)
            continue
        op, a, b, k = s
        p, q = out[a], out[b]
        out.append({"add": lambda: add(p, q), "sub": lambda: add(p, neg(q)), "mul": lambda: mul(p, k), "self": lambda: None, "dbl": lambda: add(p, p), "neg": lambda: neg(p), "bytes": lambda: p, "order": lambda: p, "back": lambda: q, "inverse": lambda: None}[op]())
    return out


def build(steps, via=lambda x: x):
    out = []
    for s in steps:
        if s[0] == "g":
            out.append(crypto.ec_generator())
            continue
        op, a, b, k = s
        p, q = via(out[a]), out[b]
        S = lambda v: crypto.ec_scalar_from_int(int_tensor(v, a + b + k % 5))
        if op == "add":
            x = crypto.ec_add(p, q)
        elif op == "sub":
            x = crypto.ec_sub(p, q)
        elif op == "mul":
            x = crypto.ec_mul(p, S(k))
        elif op == "self":
            x = crypto.ec_sub(p, p)
        elif op == "dbl":
            x = crypto.ec_add(p, p)
        elif op == "neg":
            x = crypto.ec_mul(p, S(-1))
        elif op == "bytes":
            x = crypto.ec_bytes_to_point(crypto.ec_point_to_bytes(p))
        elif op == "order":  # p * N written as (N-1)p + 2p
            x = crypto.ec_add(crypto.ec_mul(p, S(-1)), crypto.ec_mul(p, S(2)))
        elif op == "back":
            x = crypto.ec_sub(crypto.ec_add(p, q), p)
        else:
            x = crypto.ec_add(crypto.ec_mul(p, S(-1)), p)
        out.append(x)
    return out


def judge(got, want, steps, what):
    for i, (g, w) in enumerate(zip(got, want, strict=True)):
        g = np.asarray(g)
        check(g.dtype == np.uint8 and g.shape == (65,), lambda: f"{what}: bytes of a point are {g.dtype}{g.shape}")
        check(g.tobytes() == enc(w), lambda: f"{what}: step {i} {steps[i] if steps else ''} is {g.tobytes().hex()} instead of {enc(w).hex()}")


group_case = lambda: st.tuples(st.integers(1, 12), st.sampled_from(["eager", "serde", "traced"]), st.integers(0, 2**40))


def run_group(c):
    n, how, seed = c
    steps = plan(random.Random(seed), n)
    label(how)
    want = model(steps)
    if None in want:
        label("identity")
    with Interpreter() as it:
        if how == "traced":
            outs = mp.evaluate(mp.compile(lambda: [crypto.ec_point_to_bytes(p) for p in build(steps)]))
        else:
            via = (lambda x: InterpObject(serde.loads(serde.dumps(x.runtime_obj)), x.type, it)) if how == "serde" else (lambda x: x)
            outs = [crypto.ec_point_to_bytes(p) for p in build(steps, via)]
        judge([o.runtime_obj.unwrap() for o in outs], want, steps, how)


scal_case = lambda: st.integers(0, 2**40)


def run_scalars(seed):
    """Random scalars (beyond 64 bits) through the laws, with their value read back."""
    r = random.Random(seed)
    with Interpreter() as it:
        g = crypto.ec_generator()
        s, t = crypto.ec_random_scalar(), crypto.ec_random_scalar()
        a, b = int(s.runtime_obj), int(t.runtime_obj)
        if r.random() < 0.5:
            s, t = (InterpObject(serde.loads(serde.dumps(x.runtime_obj)), x.type, it) for x in (s, t))
            check((int(s.runtime_obj), int(t.runtime_obj)) == (a, b), lambda: f"scalars {a}, {b} changed in transport")
        check(a != b and 0 < a < N and 0 < b < N and max(a, b) > 2**200, lambda: f"random scalars {a}, {b}")
        edge = r.choice([0, 1, N - 1, N, N + 1, 2 * N, 2**256 - 1, N // 2, N // 2 + 1, -a, N - a])
        e = InterpObject(edge, s.type, it)
        z = lambda p: crypto.ec_point_to_bytes(p).runtime_obj.unwrap()
        p, q, w = crypto.ec_mul(g, s), crypto.ec_mul(g, t), crypto.ec_mul(g, e)
        mp_, mq, mw = mul(G, a), mul(G, b), mul(G, edge)
        pairs = [
            (p, mp_), (q, mq), (w, mw),
            (crypto.ec_mul(p, t), mul(G, a * b)), (crypto.ec_mul(q, s), mul(G, a * b)),
            (crypto.ec_add(p, q), mul(G, a + b)), (crypto.ec_sub(p, q), mul(G, a - b)),
            (crypto.ec_add(p, w), mul(G, a + edge)), (crypto.ec_sub(w, p), mul(G, edge - a)),
            (crypto.ec_mul(w, s), mul(G, a * edge)),
        ]
        judge([z(x) for x, _ in pairs], [m for _, m in pairs], None, f"laws for scalars {a}, {b}, {edge}")
        # the choice between two points, and their short form
        pick = r.choice([0, 1, 1, 2])
        sel = crypto.select(int_tensor(pick, r.randrange(9)), p, w)
        judge([z(sel)], [mp_ if pick else mw], None, f"choice {pick} of two points")
        short = bytes([2 + mp_[1] % 2]) + mp_[0].to_bytes(32, "big")
        judge([z(crypto.ec_bytes_to_point(tensor.constant(np.frombuffer(short, np.uint8))))], [mp_], None, "short form of a point")
        # bytes that are no point are refused
        good = enc(mp_)
        bad = r.choice([good[:64] + bytes([good[64] ^ 1]), b"\x05" + good[1:], good[:64], good + b"\0", bytes(64), b"\x04" + bytes(64), b"\x04" + FP.to_bytes(32, "big") + good[33:], b""])
        if bad:
            try:
                x = crypto.ec_bytes_to_point(tensor.constant(np.frombuffer(bad, np.uint8)))
                y = z(x)
            except Exception:
                return
            check(False, f"bytes {bad.hex()} were read as point {np.asarray(y).tobytes().hex()}")


elem_case = lambda: st.tuples(st.lists(st.integers(1, 3), min_size=1, max_size=2).map(tuple), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_elements(c):
    shape, how, seed = c
    r = random.Random(seed)
    n = int(np.prod(shape))
    ks = np.array([r.choice([r.choice(INTS), r.randint(-9, 9)]) for _ in range(n)], dtype=np.int64).reshape(shape)
    js = np.array([r.choice([0, 1, -1, 2, int(k), -int(k) if k != -(2**63) else 0]) for k in ks.ravel()], dtype=np.int64).reshape(shape)

    def prog():
        g = crypto.ec_generator()
        k, j = tensor.constant(ks), tensor.constant(js)
        p = tensor.elementwise(lambda a, g: crypto.ec_mul(g, crypto.ec_scalar_from_int(a)), k, g)
        q = tensor.elementwise(lambda a, g: crypto.ec_mul(g, crypto.ec_scalar_from_int(a)), j, g)
        fns = [lambda x, y: crypto.ec_add(x, y), lambda x, y: crypto.ec_sub(x, y)]
        a, b = (tensor.elementwise(f, p, q) for f in fns)
        c = tensor.elementwise(lambda x, g: crypto.ec_add(x, g), a, g)
        i = crypto.ec_sub(g, g)
        d = tensor.elementwise(lambda x, i: crypto.ec_sub(i, x), p, i)
        s = tensor.elementwise(lambda a: crypto.ec_scalar_from_int(a), k)
        e = tensor.elementwise(lambda x, t: crypto.ec_mul(x, t), q, s)
        return [a, b, c, d, e]

    with Interpreter() as it:
        outs = prog() if how == "eager" else mp.evaluate(mp.compile(prog))
        want = [lambda k, j: k + j, lambda k, j: k - j, lambda k, j: k + j + 1, lambda k, j: -k, lambda k, j: k * j]
        for o, w in zip(outs, want):
            arr = o.runtime_obj
            if r.random() < 0.5:
                arr = serde.loads(serde.dumps(arr))
            arr = np.asarray(arr.unwrap())
            check(arr.shape == shape == o.type.shape, lambda: f"tensor of points has shape {arr.shape} instead of {shape}")
            for ix in np.ndindex(shape):
                e = arr[ix]
                if e is not None and not isinstance(e, ECPointValue):
                    check(False, f"element {ix} is {e!r}")
                got = crypto.ec_point_to_bytes(InterpObject(e, crypto.PointType(), it)).runtime_obj.unwrap()
                m = mul(G, w(int(ks[ix]), int(js[ix])))
                check(np.asarray(got).tobytes() == enc(m), lambda: f"element {ix} of scalars {ks[ix]}, {js[ix]}: {np.asarray(got).tobytes().hex()} instead of {enc(m).hex()}")


party_case = lambda: st.tuples(st.integers(2, 4), st.integers(1, 5), st.integers(0, 2**40), st.sampled_from(["eager", "traced", "packed"]), st.sampled_from([False, False, True]))


def run_parties(c):
    P, n, seed, how, over_http = c
    r = random.Random(seed)
    label("http" if over_http else "memory")
    steps = plan(r, n)
    want = model(steps)
    hops = [r.sample(range(P), 2) for _ in steps]

    def prog():
        outs = []
        for i, (a, b) in enumerate(hops):
            sub = steps[: i + 1]
            x = simp.pcall_static((a,), lambda: build(sub)[-1])
            y = simp.shuffle_static(x, {b: a})
            outs.append(simp.pcall_static((b,), crypto.ec_point_to_bytes, y))
        return outs

    with (http if over_http else simulator)(P) as interp:
        _, vals = execute(interp, how, prog, 20, "points between parties")
    for i, v in enumerate(vals):
        check([x is not None for x in v] == [p == hops[i][1] for p in range(P)], lambda: f"point {i} is held by other parties than {hops[i][1]}")
    judge([v[h[1]] for v, h in zip(vals, hops)], want, steps, "between parties")


def nt(c):
    return None in model(plan(random.Random(c[2]), c[0])) and c[0] > 2


SUBS = [
    Sub("group", group_case, run_group, "random chains of additions, subtractions, multiples and conversions, against affine arithmetic; non-trivial = the identity occurs", nt, quick=500, thorough=30000),
    Sub("scalars", scal_case, run_scalars, "the laws for full-size random and edge scalars, and bytes that are no point", lambda c: True, quick=250, thorough=15000),
    Sub("elements", elem_case, run_elements, "the same element by element over tensors of points", lambda c: int(np.prod(c[0])) > 1, quick=200, thorough=8000),
    Sub("parties", party_case, run_parties, "points (the identity too) handed from party to party", lambda c: c[1] > 1, quick=100, thorough=3000),
]
