"""K04: arithmetic on batched (BFV) ciphertexts is slot-wise arithmetic modulo the plaintext modulus."""

from __future__ import annotations

import math
import random

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import bfv, simp, tensor
from mplang.edsl import serde
from mplang.libs.mpc.analytics import aggregation
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.p01 import execute, http, simulator
from vf.core import Sub, check, label

PROPERTY = "K04"
ASSUMPTIONS = [
    "programs stay within the noise budget of their parameters, estimated on the safe side (one full multiplication for the default parameters)",
    "ciphertexts of three components are relinearized before they are rotated or multiplied again (documented)",
]
# degree, modulus, bits of noise budget of a fresh ciphertext
PARAMS = [(4096, 1032193, 44), (4096, 1032193, 44), (4096, 40961, 48), (4096, 65537, 48), (4096, 786433, 44), (8192, 1032193, 143), (8192, 65537, 147), (8192, 1099511922689, 123)]
INTS = [np.int8, np.uint8, np.int16, np.int32, np.uint32, np.int64, np.uint64]


def contents(r, rng, N, t, kind=None):
    dt = r.choice([np.int64, np.int64, np.int64, *INTS])
    n = r.choice([N, N, N, N // 2, N // 2 + 1, 1, r.randint(1, N)])
    i = np.iinfo(dt)
    k = kind or r.choice(["full", "full", "small", "zero", "one", "sparse", "wild", "edge", "const"])
    if k == "full":
        v = rng.integers(0, t, size=n)
        v = v if t - 1 <= i.max else v % (i.max + 1)
    elif k == "small":
        v = rng.integers(max(-9, i.min), 10, size=n)
    elif k == "zero":
        v = np.zeros(n)
    elif k == "one":
        v = np.zeros(n)
        v[r.randrange(n)] = 1
    elif k == "sparse":
        v = np.where(rng.random(n) < 0.01, rng.integers(0, min(t, i.max), size=n), 0)
    elif k == "wild":
        v = rng.integers(i.min, i.max, size=n, dtype=dt, endpoint=True)
    elif k == "edge":
        few = [x for x in (0, 1, -1, t - 1, t, t + 1, -t, t // 2, t // 2 + 1, -(t // 2), i.max, i.min) if i.min <= x <= i.max]
        v = np.array(few, dtype=object)[rng.integers(0, len(few), size=n)]
    else:
        v = np.full(n, r.choice([2, 3, min(t - 1, i.max)]))
    return v.astype(dt)


def slots(v, N, t):
    """Slot contents of a vector: its numbers modulo t, then zeros."""
    out = np.zeros(N, dtype=object)
    out[: len(v)] = [int(x) % t for x in v.tolist()]
    return out


def centered(x, t):
    return np.array([int(v) - t if int(v) > t // 2 else int(v) for v in x % t], dtype=np.int64)


def rot(x, steps):
    a = x.reshape(2, -1)
    return np.roll(a, -steps, axis=1).reshape(-1)


def plan(seed, n, par=None, middle=True):
    """Steps over ciphertexts, and per value its slots, noise budget and number of components."""
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    N, t, fresh = par or r.choice(PARAMS)
    lt = math.log2(t)
    steps, model = [], []

    def enc():
        v = contents(r, rng, N, t)
        steps.append(("enc", v))
        model.append((slots(v, N, t), fresh, 2))

    def plain(kind=None):
        """(how, vector), slots"""
        src = [i for i, m in enumerate(model) if m[1] >= 4]
        how = r.choice(["encode", "encode", "batch", "batch1", *(["decrypted"] if middle and kind is None else [])])
        if how == "decrypted" and src:
            i = r.choice(src)
            return (how, i), model[i][0]
        v = contents(r, rng, N, t, kind)
        return (how if how != "decrypted" else "encode", v), slots(v, N, t)

    enc()
    for _ in range(n):
        i, j = r.randrange(len(model)), r.randrange(len(model))
        (a, ba, sa), (b, bb, sb) = model[i], model[j]
        op = r.choice(["add", "sub", "self", "addp", "padd", "subp", "psub", "mul", "mulp", "mulp", "pmul", "zero", "relin", "rotate", "rotate", "columns", "enc", "square"])
        if op == "enc":
            enc()
            continue
        if op in ("add", "sub"):
            new = (op, i, j), ((a + b if op == "add" else a - b) % t, min(ba, bb) - 1, max(sa, sb))
        elif op == "self":
            new = ("sub", i, i), (a * 0, fresh, sa)
        elif op in ("addp", "padd", "subp", "psub"):
            p, m = plain()
            new = (op, i, p), ((a + m if "add" in op else a - m if op == "subp" else m - a) % t, ba - 1, sa)
        elif op in ("mulp", "pmul", "zero"):
            p, m = plain("zero" if op == "zero" else None)
            new = ("mulp" if op == "zero" else op, i, p), (a * m % t, ba - lt - 6, sa)
        elif op in ("mul", "square"):
            if op == "square":
                j, b, bb, sb = i, a, ba, sa
            if sa > 2 or sb > 2:
                continue
            new = ("mul", i, j), (a * b % t, min(ba, bb) - lt - 13, 3)
        elif op == "relin":
            new = ("relin", i), (a, min(ba, fresh - 4) - 1, 2)
        elif op == "rotate":
            if sa > 2:
                continue
            s = r.choice([0, 1, -1, 2, -3, N // 4, -N // 4, N // 2 - 1, -(N // 2 - 1), r.randint(-(N // 2) + 1, N // 2 - 1)])
            new = ("rotate", i, s), (rot(a, s), min(ba, fresh - 4) - 1, 2)
        else:
            if sa > 2:
                continue
            new = ("columns", i), (rot_columns(a), min(ba, fresh - 4) - 1, 2)
        if new[1][1] < 5:
            continue
        steps.append(new[0])
        model.append(new[1])
    return dict(N=N, t=t, steps=steps), [m[0] for m in model]


def rot_columns(x):
    return x.reshape(2, -1)[::-1].reshape(-1)


def keys(p):
    pk, sk = bfv.keygen(poly_modulus_degree=p["N"], plain_modulus=p["t"])
    return pk, sk, bfv.make_relin_keys(sk), bfv.make_galois_keys(sk), bfv.create_encoder(poly_modulus_degree=p["N"])


def build(p, pk, sk, rk, gk, enc, via=lambda x: x, traced=False, given=None):
    """Ciphertexts of the plan's values. given: input ciphertexts made elsewhere."""
    out = []
    given = list(given or [])
    pad = {}

    def pt(x):
        how, v = x
        if how == "decrypted":
            return via(bfv.decrypt(out[v], sk))
        if how == "encode" or not traced:
            return via(bfv.encode(tensor.constant(v), enc))
        rows = [v] if how == "batch1" else [v * 0, v, v[::-1].copy()]
        got = bfv.batch_encode(tensor.constant(np.stack(rows)), enc, rk)
        return got[0 if how == "batch1" else 1]

    for s in p["steps"]:
        op, a = s[0], out[s[1]] if s[0] != "enc" else None
        if op == "enc":
            x = given.pop(0) if given else bfv.encrypt(bfv.encode(tensor.constant(s[1]), enc), pk)
        elif op in ("add", "sub", "mul"):
            x = getattr(bfv, op)(a, out[s[2]])
        elif op in ("addp", "subp", "mulp"):
            x = getattr(bfv, op[:3])(a, pt(s[2]))
        elif op in ("padd", "psub", "pmul"):
            x = getattr(bfv, op[1:])(pt(s[2]), a)
        elif op == "relin":
            x = bfv.relinearize(a, rk)
        elif op == "rotate":
            x = bfv.rotate(a, s[2], gk)
        else:
            x = bfv.rotate_columns(a, gk)
        out.append(via(x))
    return out


def compare(p, model, outs, what):
    check(len(outs) == len(model), lambda: f"{what}: {len(outs)} results instead of {len(model)}")
    for i, (m, o) in enumerate(zip(model, outs)):
        o = np.asarray(o)
        want = centered(m, p["t"])
        bad = (o != want) if o.shape == want.shape else None
        check(o.dtype == np.int64 and bad is not None and not bad.any(),
              lambda: f"{what}: value {i} ({brief(p['steps'][i])}) is " + (f"of shape {o.shape}, type {o.dtype}" if bad is None or o.dtype != np.int64 else f"wrong in {bad.sum()} slots, first {bad.argmax()}: {o[bad][0]} instead of {want[bad][0]}"))


def brief(s):
    return tuple(f"{x.dtype}[{len(x)}]" if isinstance(x, np.ndarray) else (x[0], brief(x[1:])) if isinstance(x, tuple) else x for x in s)


def copier(it, r):
    def via(x):
        v = x.runtime_obj
        k = r.choice(["", "", "bytes", "text"])
        if k == "bytes":
            v = serde.loads(serde.dumps(v))
        elif k == "text":
            v = serde.loads_b64(serde.dumps_b64(v))
        return x if not k else InterpObject(v, x.type, it)

    return via


def run_local(c):
    seed, n, how = c
    p, model = plan(seed, n)
    what = f"{how} program {[brief(s) for s in p['steps']]} (N={p['N']}, t={p['t']}, seed {seed})"
    with Interpreter() as it:
        if how == "traced":
            def prog():
                pk, sk, rk, gk, enc = keys(p)
                return [bfv.decode(bfv.decrypt(x, sk), enc) for x in build(p, pk, sk, rk, gk, enc, traced=True)]

            got = [o.runtime_obj.unwrap() for o in mp.evaluate(mp.compile(prog))]
        else:
            pk, sk, rk, gk, enc = keys(p)
            r = random.Random(seed)
            via = (lambda x: x) if how == "eager" else copier(it, r)
            w = r.randrange(8 if p["N"] == 4096 else 24) if how == "copied" else None  # the one key that travels (they are large)
            pk, sk, rk, gk = (via(k) if w == q else k for q, k in enumerate((pk, sk, rk, gk)))
            got = [via(bfv.decode(via(bfv.decrypt(x, sk)), enc)).runtime_obj.unwrap() for x in build(p, pk, sk, rk, gk, via(enc), via)]
    compare(p, model, got, what)
    for s in p["steps"]:
        label(s[0])
    label(how)
    label(f"N={p['N']} t={p['t']}")


def nt(c):
    p, _ = plan(c[0], c[1])
    return len({s[0] for s in p["steps"]}) > 2


def run_parties(c):
    seed, n, how, over_http, P = c
    r = random.Random(seed)
    p, model = plan(seed, n, par=r.choice(PARAMS[:5]), middle=False)
    a, b, e = r.randrange(P), r.randrange(P), r.randrange(P)
    what = f"{how} program {[brief(s) for s in p['steps']]} with keys at {a}, inputs of {b}, computed by {e} of {P} (t={p['t']}, seed {seed})"

    def at(rank, fn, *args):
        return simp.pcall_static((rank,), fn, *args)

    def to(x, src, dst):
        return x if src == dst else simp.shuffle_static(x, {dst: src})

    def prog():
        pk, sk, rk, gk, enc = at(a, lambda: keys(p))
        vs = [s[1] for s in p["steps"] if s[0] == "enc"]
        ins = []
        for k, v in enumerate(vs):
            w = (a, b)[k % 2]
            ct = at(w, lambda key, ec, v=v: bfv.encrypt(bfv.encode(tensor.constant(v), ec), key), to(pk, a, w), to(enc, a, w))
            ins.append(to(ct, w, e))
        outs = at(e, lambda key, r_, g_, ec, *cts: tuple(build(p, key, None, r_, g_, ec, traced=True, given=cts)), to(pk, a, e), to(rk, a, e), to(gk, a, e), to(enc, a, e), *ins)
        outs = list(outs) if isinstance(outs, (tuple, list)) else [outs]
        return [at(a, lambda x, s, ec: bfv.decode(bfv.decrypt(x, s), ec), to(x, e, a), sk, enc) for x in outs]

    with (http if over_http else simulator)(P) as interp:
        _, vals = execute(interp, how, prog, 90, what)
    compare(p, model, [v[a] for v in vals], what)
    label("http" if over_http else "memory")
    label(how)


def secret_inside(x, seen=None):
    """Whether a runtime value carries a secret key anywhere."""
    seen = set() if seen is None else seen
    if id(x) in seen or isinstance(x, (str, bytes, int, float, np.ndarray, type(None))):
        return False
    seen.add(id(x))
    if callable(getattr(x, "has_secret_key", None)):
        return bool(x.has_secret_key())
    kids = list(x.values()) if isinstance(x, dict) else list(x) if isinstance(x, (list, tuple, set)) else list(vars(x).values()) if hasattr(x, "__dict__") else []
    return any(secret_inside(k, seen) for k in kids)


def run_keys(c):
    """What may leave the owner of the secret key does not decrypt."""
    seed, travel = c
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    N, t, _ = r.choice(PARAMS)
    v = contents(r, rng, N, t)
    want = centered(slots(v, N, t), t)
    with Interpreter() as it:
        pk, sk, rk, gk, enc = keys(dict(N=N, t=t))
        ct = bfv.encrypt(bfv.encode(tensor.constant(v), enc), pk)
        back = bfv.decode(bfv.decrypt(ct, sk), enc).runtime_obj.unwrap()
        check(np.array_equal(back, want), "decryption differs from the encrypted vector")
        copy = serde.loads(serde.dumps(sk.runtime_obj))
        back = bfv.decode(bfv.decrypt(ct, InterpObject(copy, sk.type, it)), enc).runtime_obj.unwrap()
        check(np.array_equal(back, want), "a copy of the secret key decrypts to something else")
        public = {"public key": pk, "relinearization key": rk, "rotation key": gk, "ciphertext": ct, "relinearized": bfv.relinearize(bfv.mul(ct, ct), rk), "rotated": bfv.rotate(ct, 1, gk), "difference": bfv.sub(ct, ct)}
        if travel:
            public["decrypted plaintext"] = bfv.decrypt(ct, sk)
        for name, x in public.items():
            o = x.runtime_obj
            if travel:
                o = serde.loads(serde.dumps(o))
            check(not secret_inside(o), lambda: f"the {name} {'on its way to another party' if travel else 'value'} contains the secret key")
            if name.endswith("key"):
                try:
                    with_it = bfv.decode(bfv.decrypt(ct, InterpObject(o, sk.type, it)), enc).runtime_obj.unwrap()
                except Exception:  # noqa: BLE001 - it is no secret key
                    continue
                check(not np.array_equal(with_it, want), lambda: f"the {name} decrypts")
        # a plaintext that is never encrypted decodes to the vector
        try:
            got = bfv.decode(bfv.encode(tensor.constant(v), enc), enc)
        except OverflowError:  # the result is declared to consist of int64
            check(any(int(x) >= 2**63 for x in v), lambda: f"decode(encode({v!r})) is refused")
            return
        check(got.type.shape == (N,), "declared shape")
        g = np.asarray(got.runtime_obj.unwrap())
        raw = np.zeros(N, dtype=object)
        raw[: len(v)] = v.tolist()
        check(g.shape == (N,) and g.dtype == np.int64 and all((int(x) - int(y)) % t == 0 for x, y in zip(g, raw)), lambda: f"decode(encode({v!r})) is {g!r}")


def run_threads(c):
    """Ciphertexts and plaintexts sent and received by several threads at once."""
    import sys
    from concurrent.futures import ThreadPoolExecutor

    seed, workers, n = c
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    N, t, _ = r.choice(PARAMS[:5])
    vs = [contents(r, rng, N, t, r.choice(["full", "sparse", "zero", "small"])) for _ in range(workers * n)]
    with Interpreter() as it:
        pk, sk, rk, gk, enc = keys(dict(N=N, t=t))
        cts = [bfv.encrypt(bfv.encode(tensor.constant(v), enc), pk) for v in vs]
        again = bfv.encrypt(bfv.encode(tensor.constant(vs[0]), enc), pk)
        check(serde.dumps(again.runtime_obj) != serde.dumps(cts[0].runtime_obj), "two encryptions of a vector are the same ciphertext")
        kinds = [r.random() < 0.3 for _ in vs]
        objs = [bfv.decrypt(x, sk) if k else x for x, k in zip(cts, kinds)]
        send = r.choice([lambda v: serde.loads(serde.dumps(v)), lambda v: serde.loads_b64(serde.dumps_b64(v))])
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            with ThreadPoolExecutor(workers) as ex:
                got = list(ex.map(lambda o: send(o.runtime_obj), objs))
        finally:
            sys.setswitchinterval(old)
        for i, (v, k, g, o) in enumerate(zip(vs, kinds, got, objs)):
            x = InterpObject(g, o.type, it)
            back = bfv.decode(x if k else bfv.decrypt(x, sk), enc).runtime_obj.unwrap()
            check(np.array_equal(back, centered(slots(v, N, t), t)), lambda: f"{'plaintext' if k else 'ciphertext'} {i} of {len(vs)}, sent by {workers} threads at once, arrived as another (N={N}, t={t}, seed {seed})")


def run_aggregation(c):
    seed, travel = c
    r = random.Random(seed)
    rng = np.random.default_rng(seed)
    N, t, fresh = r.choice(PARAMS)
    row = N // 2
    v = contents(r, rng, N, t, r.choice(["full", "full", "full", "small", "sparse", "zero"]))
    m = slots(v, N, t)
    kind = r.choice(["sum", "sum", "strided", "buckets", "buckets", "sparse", "masked"])
    with Interpreter() as it:
        pk, sk, rk, gk, enc = keys(dict(N=N, t=t))
        via = copier(it, r) if travel else (lambda x: x)
        ct = via(bfv.encrypt(bfv.encode(tensor.constant(v), enc), pk))

        def dec(x):
            return np.asarray(bfv.decode(bfv.decrypt(via(x), sk), enc).runtime_obj.unwrap())

        if kind == "sum":
            k = r.choice([1, 2, 3, 5, 7, row - 1, row, row + 1, N - 1, N, r.randint(1, N), r.randint(1, N), r.randint(1, 60)])
            got, want = dec(aggregation.rotate_and_sum(ct, k, gk, slot_count=N))[:1], [m[:k].sum()]
            what = f"sum of the first {k} of {N} slots"
        elif kind == "strided":
            s = r.choice([1, 2, 64, r.randint(1, row)])
            k = r.randint(1, max(1, (row - 1) // s + 1))
            if r.random() < 0.5:
                k = min(k, r.randint(1, 20))
            kw = {"max_step": r.choice([1024, 256, 64, 2048, 100])} if r.random() < 0.5 else {}
            if (k * s) // kw.get("max_step", 1024) > 40:
                kw = {}
            got, want = dec(aggregation.strided_rotate_and_sum(ct, s, k, gk, **kw))[:1], [m[: s * k : s][:k].sum()]
            what = f"sum of {k} slots {s} apart ({kw})"
        elif kind == "buckets":
            nb = r.choice([1, 2, 3, 5, 8, 9, 16, 17, 64, r.randint(1, 300)])
            s = N // nb
            k = r.choice([1, 2, 3, s, max(1, s - 1), r.randint(1, s), r.randint(1, min(s, 70))])
            what = f"sums of {nb} buckets of {k} of {s} slots"
            crossing = any(b * s < row < b * s + k for b in range(nb))
            try:
                x = aggregation.batch_bucket_aggregate(ct, nb, k, gk, slot_count=N)
            except ValueError:
                check(crossing, lambda: f"{what} are refused")
                label("refused")
                return
            full = dec(x)
            got = np.asarray(aggregation.extract_bucket_results(full, nb, slot_count=N))
            want = [m[b * s : b * s + k].sum() for b in range(nb)]
        elif kind == "sparse":
            size = r.choice([N, N, row, r.randint(2, N)])
            near = r.random() < 0.5
            aggs = []
            for tg in r.sample(range(size), min(size, r.randint(1, 4))):
                src = r.sample(range(size), min(size, r.randint(0 if aggs else 1, 4))) if not near else sorted({(tg + d) % size for d in r.sample(range(9), r.randint(1, 4))})
                aggs.append((tg, src))
            got, want = dec(aggregation.aggregate_sparse(ct, aggs, gk, enc, size)), np.zeros(N, dtype=object)
            for tg, src in aggs:
                want[tg] = m[src].sum() if src else 0
            what = f"sparse sums {aggs} of {size}"
        else:
            k = r.randint(1, 4)
            cts, masks, want = [], [], np.zeros(N, dtype=object)
            for _ in range(k):
                x, y = contents(r, rng, N, t), contents(r, rng, N, t)
                cts.append(via(bfv.encrypt(bfv.encode(tensor.constant(x), enc), pk)))
                masks.append(via(bfv.encode(tensor.constant(y), enc)))
                want = want + slots(x, N, t) * slots(y, N, t)
            got, what = dec(aggregation.masked_aggregate(cts, masks)), f"masked sum of {k}"
        want = centered(np.array(want, dtype=object), t)
        got = np.asarray(got)
        bad = got != want if got.shape == want.shape else None
        check(bad is not None and not bad.any(), lambda: f"{what} (N={N}, t={t}, seed {seed}): " + (f"slot {bad.argmax()} is {got[bad][0]} instead of {want[bad][0]}" if bad is not None else f"shape {got.shape}"))
    label(kind)


SUBS = [
    Sub("programs", lambda: st.tuples(st.integers(0, 2**40), st.integers(1, 14), st.sampled_from(["eager", "copied", "traced"])), run_local,
        "random programs of encryption, sums, differences and products of ciphertexts and encoded, batch-encoded or decrypted plaintexts in either order, relinearization, rotations and row swaps, over all-zero, sparse, extreme, out-of-range and partial slot contents of seven integer types and eight parameter sets, directly, traced, or with values serialized on the way; non-trivial = three kinds of operation",
        nt, quick=45, thorough=1500, shards_quick=8, shards_thorough=8, hang_s=90, pin=True),
    Sub("aggregation", lambda: st.tuples(st.integers(0, 2**40), st.booleans()), run_aggregation,
        "sums of the first k slots, of slots a stride apart, of bucket regions, sparse sums and masked sums by rotations, all other slots filled with other numbers; non-trivial = every case",
        lambda c: True, quick=45, thorough=1500, shards_quick=8, shards_thorough=8, hang_s=90, pin=True),
    Sub("keys", lambda: st.tuples(st.integers(0, 2**40), st.booleans()), run_keys,
        "keys, ciphertexts and plaintexts of random parameters, as values or on their way to another party: none but the secret key contains it or decrypts, copies of the secret key do; non-trivial = values that travel",
        lambda c: c[1], quick=10, thorough=80, shards_quick=2, shards_thorough=4, hang_s=90, pin=True),
    Sub("threads", lambda: st.tuples(st.integers(0, 2**40), st.integers(2, 8), st.integers(2, 6)), run_threads,
        "ciphertexts and plaintexts serialized and read back by two to eight threads at once: each arrives as itself; non-trivial = every case",
        lambda c: True, quick=15, thorough=400, shards_quick=2, shards_thorough=4, hang_s=90),
    Sub("parties", lambda: st.tuples(st.integers(0, 2**40), st.integers(1, 9), st.sampled_from(["eager", "traced", "packed"]), st.sampled_from([False, False, False, True]), st.integers(1, 3)), run_parties,
        "the same programs with keys at one party, inputs encrypted by two, computed by any of one to three parties, in memory or over HTTP; non-trivial = several parties",
        lambda c: c[4] > 1, quick=8, thorough=200, shards_quick=4, shards_thorough=8, hang_s=150),
]
KNOWN = []
