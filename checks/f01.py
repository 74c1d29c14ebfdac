"""F01: 128-bit binary-field arithmetic, the pseudo-random expansion and sparse sums, on both kernel builds."""

from __future__ import annotations

import random
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import field, simp, tensor
from mplang.runtime.interpreter import Interpreter
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "F01"
ASSUMPTIONS = [
    "the portable pseudo-random expansion is documented to be another generator than the native one; only its own laws are checked",
    "the native kernels are built from the current sources with the compiler of this machine (x86-64 with PCLMUL and AES)",
]

U = np.uint64
ONES = 2**128 - 1


# ---- reference arithmetic on (…, 2) arrays ------------------------------------------------------------
def ref_mul(a, b):
    """Shift-and-add product modulo x^128 + x^7 + x^2 + x + 1, vectorised."""
    a, b = np.broadcast_arrays(a, b)
    shape = a.shape
    a, b = a.reshape(-1, 2).copy(), b.reshape(-1, 2)
    out = np.zeros_like(a)
    for i in range(128):
        bit = (b[:, i // 64] >> U(i % 64)) & U(1)
        out ^= a * bit[:, None]
        carry = a[:, 1] >> U(63)
        a[:, 1] = (a[:, 1] << U(1)) | (a[:, 0] >> U(63))
        a[:, 0] = (a[:, 0] << U(1)) ^ (carry * U(0x87))
    return out.reshape(shape)


def ref_inverse(a):
    """Inverses (0 for 0) by the Euclidean algorithm over polynomials."""
    def one(v):
        if v == 0:
            return 0
        u, w, g, h = v, (1 << 128) | 0x87, 1, 0
        while u != 1:
            j = u.bit_length() - w.bit_length()
            if j < 0:
                u, w, g, h, j = w, u, h, g, -j
            u ^= w << j
            g ^= h << j
        while g.bit_length() > 128:
            g ^= ((1 << 128) | 0x87) << (g.bit_length() - 129)
        return g

    return pack([one(int(x[0]) | int(x[1]) << 64) for x in a.reshape(-1, 2)], a.shape[:-1])


def pack(ints, shape):
    a = np.array([[v & (2**64 - 1), v >> 64] for v in ints], dtype=U)
    return a.reshape((*shape, 2))


def element(r):
    return r.choice([
        lambda: r.getrandbits(128), lambda: r.getrandbits(128), lambda: r.getrandbits(128), lambda: 0, lambda: 1, lambda: ONES,
        lambda: 1 << r.randrange(128), lambda: ONES ^ (1 << r.randrange(128)), lambda: r.getrandbits(64), lambda: r.getrandbits(64) << 64,
        lambda: 0x87, lambda: 1 << 127, lambda: (1 << 127) | 1, lambda: 2, lambda: 1 << 64, lambda: (1 << 64) - 1, lambda: r.getrandbits(8) << r.randrange(121),
    ])()


def array(r, shape):
    n = int(np.prod(shape))
    if n > 64:
        g = np.random.default_rng(r.getrandbits(64))
        a = g.integers(0, 2**64 - 1, size=(n, 2), dtype=U, endpoint=True)
        for _ in range(40):
            a[r.randrange(n)] = pack([element(r)], ())
        return a.reshape((*shape, 2))
    return pack([element(r) for _ in range(n)], shape)


def layout(r, a):
    """The same array laid out differently in memory."""
    k = r.choice(["plain", "plain", "reversed", "fortran", "strided", "frozen", "swapped"])
    if k == "reversed":
        return np.ascontiguousarray(a[::-1])[::-1] if a.ndim > 1 else a
    if k == "fortran":
        return np.asfortranarray(a)
    if k == "strided":
        b = np.zeros((*a.shape[:-1], 3 * a.shape[-1]), dtype=a.dtype)
        b[..., 1::3] = a
        return b[..., 1::3]
    if k == "frozen":
        a = a.copy()
        a.setflags(write=False)
        return a
    if k == "swapped" and a.ndim > 2:
        return np.ascontiguousarray(a.swapaxes(0, 1)).swapaxes(0, 1)
    return a


def shape_of(r, size):
    return {
        "one": lambda: (), "row": lambda: (r.randint(1, 9),), "two": lambda: (r.randint(1, 5), r.randint(1, 5)),
        "three": lambda: (r.randint(1, 3), r.randint(1, 3), r.randint(1, 3)), "pair": lambda: (2,), "pairs": lambda: (2, 2), "big": lambda: r.choice([(r.choice([127, 128, 129, 1000, 1023, 3000]),), (r.choice([127, 128, 129, 1000, 1023, 3000]),), (r.choice([4096, 4097, 10_001, 65_537]),), (r.randint(30, 70), r.randint(20, 70))]),
        "some": lambda: r.choice([(r.randint(60, 140),), (r.choice([255, 256, 257, 513]),), (r.randint(6, 14), r.randint(6, 14))]),
    }[size]()


def val(o):
    v = o.runtime_obj
    return np.asarray(v.unwrap() if hasattr(v, "unwrap") else v)


def same(got, want, what):
    got = np.asarray(got)
    check(got.dtype == U and got.shape == want.shape, lambda: f"{what}: {got.dtype}{got.shape} instead of {want.dtype}{want.shape}")
    if not np.array_equal(got, want):
        bad = np.argwhere((got != want).any(axis=-1))
        ix = tuple(int(i) for i in bad[0])
        check(False, f"{what}: {len(bad)} of {max(1, want.size // 2)} elements differ; element {ix} is {[hex(int(x)) for x in got[ix]]} instead of {[hex(int(x)) for x in want[ix]]}")


def run_all(how, prog):
    with Interpreter():
        outs = prog() if how == "eager" else mp.evaluate(mp.compile(prog))
        return [val(o) for o in outs], [o.type for o in outs]


mul_case = lambda: st.tuples(st.sampled_from(["one", "row", "row", "two", "three", "pair", "pairs", "some"]), st.sampled_from(["eager", "eager", "traced"]), st.integers(0, 2**40))
mul_big = lambda: st.tuples(st.sampled_from(["big", "row", "two", "three", "one", "pair", "pairs"]), st.sampled_from(["eager", "eager", "traced"]), st.integers(0, 2**40))


def run_mul(c):
    size, how, seed = c
    r = random.Random(seed)
    shape = shape_of(r, size)
    a, b, d = (array(r, shape) for _ in range(3))
    la, lb, ld = (layout(r, x) for x in (a, b, d))
    label(how)
    small = a.size <= 64
    inv = ref_inverse(a) if small else None

    def prog():
        x, y, z = (tensor.constant(v) for v in (la, lb, ld))
        xy, yz = field.mul(x, y), field.mul(y, z)
        outs = [
            xy, field.mul(y, x), field.mul(xy, z), field.mul(x, yz),
            field.add(xy, field.mul(x, z)), field.mul(x, field.add(y, z)),
            field.mul(x, x), field.add(x, y), field.add(x, x),
        ]
        if small:
            outs.append(field.mul(x, tensor.constant(inv)))
        if x.type.shape[:-1]:
            outs += [field.sum(x, 0), field.sum(x)]
        return outs

    outs, types = run_all(how, prog)
    ab, abd = ref_mul(a, b), ref_mul(ref_mul(a, b), d)
    dist = ab ^ ref_mul(a, d)
    want = [ab, ab, abd, abd, dist, dist, ref_mul(a, a), a ^ b, np.zeros_like(a)]
    names = ["a*b", "b*a", "(a*b)*d", "a*(b*d)", "a*b + a*d", "a*(b+d)", "a*a", "a+b", "a+a"]
    if small:
        one = np.zeros_like(a)
        one[..., 0] = a.any(axis=-1)
        want.append(one)
        names.append("a/a")
    if shape:
        want += [np.bitwise_xor.reduce(a, axis=0), np.bitwise_xor.reduce(a.reshape(-1, 2), axis=0)]
        names += ["sum over rows", "sum of all"]
    for o, t, w, n in zip(outs, types, want, names, strict=True):
        same(o, w, f"{n} for {how} operands of shape {shape}")
        check(tuple(t.shape) == w.shape, lambda: f"{n} is declared {t}, is {w.shape}")
    # the operands themselves are untouched
    for x, l in ((a, la), (b, lb), (d, ld)):
        check(np.array_equal(x, l), "an operand was changed by a product")


mis_case = lambda: st.tuples(st.sampled_from(["longer", "shorter", "vector", "lanes", "flat", "both", "transposed"]), st.integers(0, 2**40))


def run_mismatch(c):
    """Operands that do not pair up: a correct broadcast product, or a refusal; never other numbers."""
    kind, seed = c
    r = random.Random(seed)
    n = r.randint(2, 6)
    a = array(r, (n,))
    if kind == "longer":
        b = array(r, (n + r.randint(1, 5),))
    elif kind == "shorter":
        b = array(r, (r.randint(1, n - 1),))
    elif kind == "vector":
        b = array(r, ())
    elif kind == "lanes":
        b = np.concatenate([array(r, (n,)), array(r, (n,))], axis=-1)
    elif kind == "flat":
        b = array(r, (n,)).ravel()
    elif kind == "both":
        a, b = a[:, :1].copy(), array(r, (n,))[:, :1].copy()
    else:
        b = array(r, (n,)).T.copy() if n != 2 else array(r, (n,)).ravel()
    if r.random() < 0.5:
        a, b = b, a
    label(kind)
    with Interpreter():
        try:
            o = field.mul(tensor.constant(a), tensor.constant(b))
            got = val(o)
        except Exception:
            return
    ok = a.shape[-1:] == b.shape[-1:] == (2,)
    try:
        want = ref_mul(a, b) if ok else None
    except ValueError:
        want = None
    if ok and b.size >= a.size and got.shape == a.shape:  # a longer second operand: pairs by position
        want = ref_mul(a, b.reshape(-1, 2)[: a.size // 2].reshape(a.shape))
    check(want is not None, lambda: f"product of {a.shape} and {b.shape} gave {got.shape} {got.ravel()[:4]}...")
    same(got, want, f"product of {a.shape} and {b.shape}")
    check(tuple(o.type.shape) == got.shape, lambda: f"product of {a.shape} and {b.shape} is declared {o.type}, is {got.shape}")


# ---- expansion ----------------------------------------------------------------------------------------
KEY = (0x13198A2E03707344).to_bytes(8, "little") + (0x243F6A8885A308D3).to_bytes(8, "little")


def ref_expand(seeds, length):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

    blocks = np.repeat(seeds[:, None, :], length, axis=1)
    blocks[:, :, 0] ^= np.arange(length, dtype=U)[None, :]
    e = Cipher(algorithms.AES(KEY), modes.ECB()).encryptor()  # noqa: S305
    return np.frombuffer(e.update(blocks.tobytes()) + e.finalize(), dtype="<u8").reshape(len(seeds), length, 2)


exp_case = lambda: st.tuples(st.integers(1, 24), st.integers(1, 40), st.sampled_from(["words", "words", "bytes"]), st.sampled_from(["eager", "traced"]), st.integers(0, 2**40))


def run_expand(native, c):
    n, length, form, how, seed = c
    r = random.Random(seed)
    pool = list({element(r) for _ in range(4 * n)})
    r.shuffle(pool)
    n = min(n, len(pool))
    if r.random() < 0.3:  # seeds whose halves hide in one another
        x, y = r.getrandbits(32), r.getrandbits(32)
        more = {x | y << 32, x | y << 64, x << 64 | y, x, x << 32, x << 64, x << 96, y << 32 | x}
        pool = list(dict.fromkeys([*more, *pool]))
        n = min(len(pool), max(n, 8))
    if r.random() < 0.08:  # many seeds
        more = np.random.default_rng(seed).integers(0, 2**63, size=(r.choice([255, 256, 257, 1000, 4097]), 2), dtype=U)
        pool = list(dict.fromkeys([*pool, *(int(x) | int(y) << 64 for x, y in more)]))
        n, length = len(pool), min(length, 4)
    seeds = pack(pool[:n], (n,))
    dup = r.randrange(n)
    arr = np.concatenate([seeds, seeds[dup : dup + 1]])
    if n < 50 and r.random() < 0.1:
        length = r.choice([255, 256, 257, 1000])
    shorter = r.randint(1, length)
    sub = sorted(r.sample(range(n), r.randint(1, n)), key=lambda _: r.random())
    label(f"{form} {how}")

    def prog():
        mk = (lambda a: tensor.constant(layout(r, np.ascontiguousarray(a).view(np.uint8)))) if form == "bytes" else (lambda a: tensor.constant(layout(r, a)))
        s = mk(arr)
        return [field.aes_expand(s, length), field.aes_expand(s, length), field.aes_expand(s, shorter), field.aes_expand(mk(arr[sub]), length), field.aes_expand(tensor.constant(arr), length)]

    (full, again, short, some, words), types = run_all(how, prog)
    for o, t in zip((full, again, short, some, words), types):
        check(o.dtype == U and tuple(t.shape) == o.shape, lambda: f"expansion is {o.dtype}{o.shape}, declared {t}")
    check(full.shape == (n + 1, length, 2), lambda: f"expansion of {n + 1} seeds to {length} has shape {full.shape}")
    check(np.array_equal(full, again), "two expansions of the same seeds differ")
    check(np.array_equal(full, words), "the same seeds as bytes and as words expand differently")
    check(np.array_equal(full[:, :shorter], short), f"an expansion to {shorter} is not the beginning of the expansion to {length}")
    check(np.array_equal(full[sub], some), "a seed's expansion depends on the other seeds")
    check(np.array_equal(full[dup], full[n]), "equal seeds expand differently")
    if native:
        same(full.reshape(-1, 2), ref_expand(arr, length).reshape(-1, 2), f"expansion of {n + 1} seeds to {length}")
    else:
        first = {}
        for i in range(n):
            k = full[i].tobytes()
            check(k not in first, lambda: f"seeds {[hex(int(x)) for x in seeds[i]]} and {[hex(int(x)) for x in seeds[first[k]]]} expand alike")
            first[k] = i
        if n * length >= 16:
            bits = np.unpackbits(full[:n].reshape(-1).view(np.uint8))
            check(abs(bits.mean() - 0.5) < 6 * 0.5 / np.sqrt(bits.size), lambda: f"{bits.mean():.3f} of the expanded bits are set")


bad_seed_case = lambda: st.tuples(st.sampled_from(["flat", "deep", "odd", "wide"]), st.integers(0, 2**40))


def run_bad_seeds(c):
    kind, seed = c
    r = random.Random(seed)
    length = r.randint(1, 4)
    n = r.randint(2, 4)
    a = {"flat": array(r, (n,)).ravel(), "deep": array(r, (n, r.randint(2, 3))), "odd": array(r, (n,)).ravel()[:-1], "wide": array(r, (n, 2)).reshape(n, 4)}[kind]
    label(kind)
    with Interpreter():
        try:
            o = field.aes_expand(tensor.constant(a), length)
            got = val(o)
            rows = val(field.aes_expand(tensor.constant(a.reshape(-1, 2)), length))
        except Exception:
            return
    check(tuple(o.type.shape) == got.shape, lambda: f"expansion of {a.shape} is declared {o.type}, is {got.shape}")
    check(got.size == rows.size and np.array_equal(got.reshape(-1), rows.reshape(-1)), lambda: f"seeds of shape {a.shape} were expanded to {got.shape}: not every seed's own expansion")


# ---- sparse sums --------------------------------------------------------------------------------------
sparse_case = lambda: st.tuples(st.integers(1, 40), st.integers(1, 40), st.sampled_from(["eager", "traced"]), st.sampled_from(["int64", "uint64", "int32", "uint32"]), st.integers(0, 2**40))


def csr(r, m, n):
    rows = []
    for _ in range(m):
        k = r.choice([0, 1, 1, 2, 3, 5, n])
        rows.append(r.sample(range(n), min(k, n)))
    if not any(rows):
        rows[r.randrange(m)] = [r.randrange(n)]
    return rows


def run_sparse(c):
    m, n, how, dtype, seed = c
    r = random.Random(seed)
    if r.random() < 0.08:
        m, n = r.choice([(500, 1000), (1000, 500), (1, 2000), (2100, 4200), (4200, 300)])
    rows = csr(r, m, n)
    x, y = array(r, (n,)), array(r, (n,))
    idx = np.array([j for row in rows for j in row], dtype=dtype)
    ptr = np.cumsum([0, *map(len, rows)]).astype(dtype)
    fault = r.choice([None, None, None, None, "index", "pointers", "order"])
    if fault == "index":
        idx[r.randrange(len(idx))] = r.choice([n, n + 1, n + 1000])
    elif fault == "pointers":
        ptr = ptr[:-1] if m > 1 else None
    elif fault == "order":
        ptr[r.randrange(1, m + 1)] = len(idx) + r.randint(1, 9)
    if ptr is None:
        return
    label(fault or f"{how} {dtype}")

    def prog():
        i, p = tensor.constant(layout(r, idx) if idx.ndim > 1 else idx), tensor.constant(ptr)
        a, b = tensor.constant(layout(r, x)), tensor.constant(layout(r, y))
        return [field.ldpc_encode(a, i, p, m, n), field.add(field.ldpc_encode(a, i, p, m, n), field.ldpc_encode(b, i, p, m, n)), field.ldpc_encode(field.add(a, b), i, p, m, n)]

    if fault:
        try:
            outs, _ = run_all(how, prog)
        except Exception:
            return
        check(False, f"a sparse sum with a damaged {fault} of a {m}x{n} matrix gave {outs[0].shape} numbers")
    outs, types = run_all(how, prog)
    def enc(v):
        out = np.zeros((m, 2), dtype=U)
        np.bitwise_xor.at(out, np.repeat(np.arange(m), [len(row) for row in rows]), v[idx.astype(np.int64)])
        return out

    ex = enc(x)
    same(outs[0], ex, f"{m}x{n} sparse sum")
    both = ex ^ enc(y)
    same(outs[1], both, "sum of sums")
    same(outs[2], both, "sparse sum of sums")
    check(all(tuple(t.shape) == (m, 2) for t in types), "declared shape")


# ---- between parties and at the same time -------------------------------------------------------------
party_case = lambda: st.tuples(st.integers(2, 3), st.integers(1, 40), st.sampled_from(["eager", "traced", "packed"]), st.booleans(), st.integers(0, 2**40))


def run_parties(c):
    P, n, how, over_http, seed = c
    r = random.Random(seed)
    a, b = array(r, (n,)), array(r, (n,))
    s, d = r.sample(range(P), 2)
    length = r.randint(1, 5)

    def prog():
        x = simp.constant((s,), a)
        y = simp.constant((d,), b)
        x2 = simp.shuffle_static(x, {d: s})
        xy = simp.pcall_static((d,), field.mul, x2, y)
        back = simp.shuffle_static(xy, {s: d})
        e1 = simp.pcall_static((s,), lambda v: field.aes_expand(v, length), x)
        e2 = simp.pcall_static((d,), lambda v: field.aes_expand(v, length), x2)
        e12 = simp.shuffle_static(e1, {d: s})
        same_ = simp.pcall_static((d,), lambda u, v: field.add(u, v), e12, e2)
        sq = simp.pcall_static((s,), lambda u, v: field.mul(u, v), back, x)
        return [xy, sq, same_]

    label("http" if over_http else "memory")
    with (http if over_http else simulator)(P) as interp:
        _, vals = execute(interp, how, prog, 30, "field arithmetic between parties")
    ab = ref_mul(a, b)
    same(vals[0][d], ab, "product at the other party")
    same(vals[1][s], ref_mul(ab, a), "product of a product sent back")
    check(not np.asarray(vals[2][d]).any(), "two parties expand the same seeds differently")


conc_case = lambda: st.tuples(st.integers(2, 6), st.integers(0, 2**40))


def run_threads(c):
    """Kernels called from several threads at once."""
    k, seed = c
    r = random.Random(seed)
    jobs = [(array(r, (r.choice([5, 300, 2000]),)), None) for _ in range(k)]
    jobs = [(a, array(r, a.shape[:-1])) for a, _ in jobs]
    from mplang.backends.tensor_impl import TensorValue
    from mplang.runtime.interpreter import InterpObject
    import mplang.edsl.typing as elt

    with Interpreter() as it:
        objs = [tuple(InterpObject(TensorValue(v), elt.TensorType(elt.u64, v.shape), it) for v in j) for j in jobs]
        graphs = [mp.compile(lambda x, y: [field.mul(x, y)], *o) for o in objs]
        # a fresh look at the library, as the first calls of a process have
        import mplang.backends.field_impl as fi

        with ThreadPoolExecutor(k) as ex:
            futs = [ex.submit(lambda g, o: mp.evaluate(g, *o, context=it)[0], g, o) for g, o in zip(graphs, objs)]
            outs = [val(f.result()) for f in futs]
        assert fi is not None
    for (a, b), o in zip(jobs, outs):
        same(o, ref_mul(a, b), "product computed while others were")


def nt(c):
    return c[0] not in ("one",)


RULE = "products, sums and laws of field elements (edge patterns, every shape and memory layout) against shift-and-add arithmetic; non-trivial = more than one element"
SUBS = [
    Sub("native", mul_big, run_mul, RULE + "; compiled kernels", nt, quick=100, thorough=6000, shards_quick=2, native=True, pin=True),
    Sub("portable", mul_case, run_mul, RULE + "; portable kernels", nt, quick=60, thorough=2500, shards_quick=2, pin=True),
    Sub("native_shapes", mis_case, run_mismatch, "operands whose shapes do not pair up: refused or broadcast; compiled kernels", lambda c: True, quick=120, thorough=3000, native=True),
    Sub("portable_shapes", mis_case, run_mismatch, "operands whose shapes do not pair up: refused or broadcast; portable kernels", lambda c: True, quick=120, thorough=3000),
    Sub("native_expand", exp_case, lambda c: run_expand(True, c), "expansions of seeds in both written forms against an AES reference and one another; non-trivial = several seeds and blocks", lambda c: c[0] > 1 and c[1] > 1, quick=150, thorough=6000, native=True),
    Sub("portable_expand", exp_case, lambda c: run_expand(False, c), "expansions of seeds in both written forms against one another; non-trivial = several seeds and blocks", lambda c: c[0] > 1 and c[1] > 1, quick=150, thorough=6000, pin=True),
    Sub("native_seeds", bad_seed_case, run_bad_seeds, "seeds of other shapes than (N, 2): refused or each expanded as itself; compiled kernels", lambda c: True, quick=60, thorough=2000, native=True),
    Sub("portable_seeds", bad_seed_case, run_bad_seeds, "seeds of other shapes than (N, 2): refused or each expanded as itself; portable kernels", lambda c: True, quick=60, thorough=2000),
    Sub("native_sparse", sparse_case, run_sparse, "sparse matrix times vector against the definition, linearity, and damaged matrices that must be refused; compiled kernels", lambda c: c[0] > 1 and c[1] > 1, quick=150, thorough=6000, native=True),
    Sub("portable_sparse", sparse_case, run_sparse, "sparse matrix times vector against the definition, linearity, and damaged matrices that must be refused; portable kernels", lambda c: c[0] > 1 and c[1] > 1, quick=150, thorough=6000, pin=True),
    Sub("parties", party_case, run_parties, "operands and products handed from party to party", lambda c: c[1] > 1, quick=40, thorough=1500, native=True),
    Sub("threads", conc_case, run_threads, "products computed by several threads at once", lambda c: True, quick=30, thorough=1500, native=True),
]
