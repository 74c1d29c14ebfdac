"""D01: where a computation is placed does not change what it computes."""

from __future__ import annotations

import contextlib
import itertools
import random
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import mplang as mp
from checks.c01 import together
from mplang.dialects import simp, tensor
from mplang.libs import device as dv
from mplang.libs.device import ClusterSpec, api
from vf import httpc
from vf.core import Sub, check, label

PROPERTY = "D01"
ASSUMPTIONS = ["the secure device computes exactly (stand-in for the spu package: plaintext shares tagged by index, count and content, checked wherever they are used)",
               "no transfer between two secure or two trusted devices, as documented"]
_n = itertools.count()
warnings.filterwarnings("ignore", message="Insecure mock TEE")


# ---------------------------------------------------------------- clusters
def cluster(r, P):
    """Nodes under unrelated names, one to three plain devices per... , secure devices over any ordered subset, trusted devices."""
    names = r.sample(["alice", "bob", "n0", "n1", "Z", "P0", "SP0", "node7"], P)
    devs = {}
    for i in range(P):
        for _ in range(1 + (r.random() < 0.2)):
            devs[f"{r.choice(['P', 'p', 'cpu_'])}{len(devs)}"] = {"kind": r.choice(["PPU", "ppu", "Ppu"]), "members": [names[i]]}
    alike = r.random() < 0.6  # secure devices that differ in their members only
    for _ in range(r.randrange(1, 5) if P > 1 else 0):
        m = r.sample(names, 2 if alike and r.random() < 0.6 else r.randrange(2, P + 1))
        cfg = {"protocol": "SEMI2K" if alike else r.choice(["SEMI2K", "REF2K"]), "field": "FM128" if alike else r.choice(["FM64", "FM128"])}
        devs[f"S{len(devs)}"] = {"kind": r.choice(["SPU", "spu"]), "members": m, "config": cfg}
    for _ in range(r.randrange(0, 3)):
        devs[f"T{len(devs)}"] = {"kind": r.choice(["TEE", "tee"]), "members": [r.choice(names)]}
    items = list(devs.items())
    r.shuffle(items)
    return {"cluster_id": f"d{next(_n)}", "nodes": [{"name": n, "endpoint": f"localhost:{7000 + i}"} for i, n in enumerate(names)], "devices": dict(items)}


@contextlib.contextmanager
def run_on(spec, over_http=False):
    if over_http:
        sim = mp.make_driver(httpc.shared(spec.world_size).endpoints, cluster_spec=spec)
        ok = False
        try:
            yield sim
            ok = True
        finally:
            if ok:
                sim.get_dialect_state("simp").shutdown()
            else:
                httpc.renew(spec.world_size)
        return
    sim = mp.make_simulator(spec.world_size, cluster_spec=spec)
    ok = False
    try:
        yield sim
        ok = True
    finally:
        if ok:
            sim.shutdown()
        else:
            sim._simp_cluster.shutdown(wait=False)


def kinds(spec):
    return {d: x.kind.upper() for d, x in spec.devices.items()}


def can(k, a, b):
    return a == b or (k[a], k[b]) not in (("SPU", "SPU"), ("TEE", "TEE"))


# ---------------------------------------------------------------- functions (numpy and jax alike)
FNS = {
    "same": (1, lambda a: a),
    "add": (2, lambda a, b: a + b),
    "mix": (3, lambda a, b, c: a * b + c),
    "pair": (2, lambda a, b: {"s": a + b, "d": (a * b, a)}),
    "dup": (1, lambda a: (a, a + a, [a])),
    "imm": (2, lambda a, b, k=3: a * k + b),
    "nest": (2, lambda d, k=2: [d["x"] * k, d["y"][0] + d["x"]]),
}


def run_fn(name, style, args):
    """Call arguments for FNS[name] in a structure: (positional, keyword)."""
    if name == "nest":
        return ({"x": args[0], "y": [args[1]]},), ({"k": 5} if style else {})
    if name == "imm":
        return tuple(args), ({"k": 4} if style else {})
    if style and name in ("add", "mix"):
        return tuple(args[:1]), dict(zip("bc", args[1:]))
    return tuple(args), {}


def value(r, dt, shape):
    if dt == "bool":
        return np.array([r.random() < 0.5 for _ in range(int(np.prod(shape)))]).reshape(shape)
    v = np.array([r.randrange(-9, 10) for _ in range(int(np.prod(shape)))]).reshape(shape)
    return (v / 4).astype(dt) if dt.startswith("f") else v.astype(dt)


@st.composite
def programs(draw):
    return draw(st.integers(1, 5)), draw(st.integers(2, 12)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["eager", "traced", "packed", "offline"])), draw(st.integers(0, 6)) == 0


def plan(c):
    """(cluster, statements, [(device, value)])"""
    P, size, seed, *_ = c
    r = random.Random(seed)
    conf = cluster(r, P)
    spec = ClusterSpec.from_dict(conf)
    k = kinds(spec)
    devs = list(spec.devices)
    dt = r.choice(["int64", "int64", "float64", "float32", "int32", "bool"])
    shape = r.choice([(), (2,), (2, 3), (1,)])
    env, stmts = [], []

    def emit(s, outs):
        stmts.append(s)
        env.extend(outs)

    for _ in range(r.randrange(1, 4)):
        d, v = r.choice(devs), value(r, dt, shape)
        emit(("put", d, v), [(d, v)])
    while size > 0:
        size -= 1
        op = r.choice(["put", "move", "move", "run", "run", "run", "infer", "infer", "bad"])
        if op == "put":
            d, v = r.choice(devs), value(r, dt, shape)
            emit(("put", d, v), [(d, v)])
        elif op == "move":
            i, d = r.randrange(len(env)), r.choice(devs)
            if can(k, env[i][0], d):
                emit(("move", i, d), [(d, env[i][1])])
            elif r.random() < 0.5:
                emit(("bad", "move", i, d), [])
        elif op in ("run", "infer"):
            name = r.choice(sorted(FNS))
            args = [r.randrange(len(env)) for _ in range(FNS[name][0])]
            style = r.randrange(2)
            on = {env[i][0] for i in args}
            if op == "infer":
                secure = {d for d in on if k[d] != "PPU"}
                if len(on) > 1 and len(secure) != 1:
                    emit(("bad", "infer", name, args, style), [])
                    continue
                d = on.copy().pop() if len(on) == 1 else secure.pop()
            else:
                d = r.choice(devs)
            if not all(can(k, x, d) for x in on):
                continue
            form = r.choice(["jax", "jax", "raw"])
            if dt == "bool" and name == "imm":
                continue
            pos, kw = run_fn(name, style, [env[i][1] for i in args])
            out = FNS[name][1](*pos, **kw)
            flat = leaves(out)
            emit(("run", None if op == "infer" else d, d, form, name, args, style), [(d, np.asarray(x)) for x in flat])
        else:
            i = r.randrange(len(env))
            emit(("bad", r.choice(["unknown put", "unknown run"]), i, r.choice(["P99", "", "sp0", devs[0] + " "])), [])
    return spec, stmts, env


def leaves(x):
    if isinstance(x, dict):
        return [v for n in sorted(x) for v in leaves(x[n])]
    if isinstance(x, (list, tuple)):
        return [v for y in x for v in leaves(y)]
    return [x]


def refused(errors, fn, what):
    try:
        got = fn()
    except errors:
        return
    check(False, lambda: f"{what} was accepted: {got}")


def build(spec, stmts):
    k = kinds(spec)
    env = []
    for s in stmts:
        if s[0] == "put":
            o = mp.put(s[1], s[2])
            check(dv.get_dev_attr(o) == s[1], "placement of a new value")
            env.append(o)
        elif s[0] == "move":
            o = mp.put(s[2], env[s[1]])
            check(dv.get_dev_attr(o) == s[2], "placement of a moved value")
            env.append(o)
        elif s[0] == "run":
            _, d, on, form, name, args, style = s
            f = FNS[name][1]
            pos, kw = run_fn(name, style, [env[i] for i in args])
            if form == "raw" and k[on] != "SPU":
                g = lambda *a, f=f, **kk: tensor.run_jax(f, *a, **kk)  # noqa: E731
                out = mp.device(d)(g)(*pos, **kw)
            elif form == "raw":
                out = mp.device(d)(f)(*pos, **kw)
            else:
                out = mp.device(d).jax(f)(*pos, **kw)
            flat = leaves(out)
            for o in flat:
                check(dv.get_dev_attr(o) == on, lambda: f"{name} of values at {[dv.get_dev_attr(env[i]) for i in args]} on {d} left its result at {dv.get_dev_attr(o)} instead of {on}")
            env += flat
        else:
            _, what, *x = s
            if what == "move":
                refused(NotImplementedError, lambda: mp.put(x[1], env[x[0]]), f"moving {dv.get_dev_attr(env[x[0]])} to {x[1]}")
            elif what == "infer":
                pos, kw = run_fn(x[0], x[2], [env[i] for i in x[1]])
                refused(api.DeviceInferenceError, lambda: mp.device().jax(FNS[x[0]][1])(*pos, **kw), f"inferring a device from {[dv.get_dev_attr(env[i]) for i in x[1]]}")
            elif what == "unknown put":
                refused(api.DeviceNotFoundError, lambda: mp.put(x[1], env[x[0]]), f"putting on {x[1]!r}")
            else:
                refused(api.DeviceNotFoundError, lambda: mp.device(x[1]).jax(lambda a: a)(env[x[0]]), f"running on {x[1]!r}")
    return env


def where(spec):
    """A plain device and its rank for revealing."""
    d = next(x for x in spec.devices.values() if x.kind.upper() == "PPU")
    return d.name, d.members[0].rank


def run_program(c):
    how, over_http = c[3:]
    spec, stmts, env = plan(c)
    what = f"{how} program {stmts} on {spec.to_dict()}"
    k = kinds(spec)
    home, rank = where(spec)
    box = {}

    def go():
        def fn():
            objs = build(spec, stmts)
            shown = [mp.put(home, o) if k[dv.get_dev_attr(o)] != "PPU" else o for o in objs]
            box["ranks"] = [spec.devices[dv.get_dev_attr(o)].members[0].rank for o in shown]
            return shown

        with run_on(spec, over_http) as sim:
            if how == "eager":
                with sim:
                    outs = fn()
                    box["direct"] = [mp.fetch(o) for o in outs]
            else:
                if how == "offline":  # compiled without any worker
                    t = mp.compile(fn, context=mp.make_compile_context(cluster_spec=spec))
                else:
                    with sim:
                        t = mp.compile(fn)
                if how in ("packed", "offline"):
                    from mplang.tool import program as tool

                    t = tool.unpack(tool.pack(tool.compile_program(t)))
                outs = mp.evaluate(t, context=sim)
            with sim:
                box["vals"] = [mp.fetch(o, follow_device=False) for o in outs]

    together([go], 40, what)
    for i, ((d, want), rk, got) in enumerate(zip(env, box["ranks"], box["vals"], strict=True)):
        got = got if isinstance(got, list) else [got]
        for p, x in enumerate(got):
            if p != rk:
                check(x is None, lambda: f"{what}: party {p} holds value {i} of device {d}")
                continue
            x = np.asarray(x)
            check(x.dtype == want.dtype and x.shape == want.shape and np.array_equal(x, want), lambda: f"{what}: value {i} on {d} is {x!r} instead of {want!r}")
        if how == "eager":
            x = np.asarray(box["direct"][i])
            check(x.dtype == want.dtype and np.array_equal(x, want), lambda: f"{what}: value {i} on {d} fetched as {x!r} instead of {want!r}")
    used = {k[s[2]] for s in stmts if s[0] == "run"}
    if over_http:
        label("http")
    for u in used:
        label(f"ran on {u}")
    for s in stmts:
        if s[0] == "bad":
            label(f"bad {s[1]}")


def nt_program(c):
    spec, stmts, env = plan(c)
    k = kinds(spec)
    return len({k[d] for d, _ in env}) > 1 and any(s[0] == "run" for s in stmts)


# ---------------------------------------------------------------- one value along a chain of devices
@st.composite
def chains(draw):
    return draw(st.integers(1, 5)), draw(st.integers(1, 7)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["eager", "traced"])), draw(st.sampled_from(["array", "array", "scalar", "table", "list"]))


DTYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "float16"]


def chain(c):
    P, n, seed, how, kind = c
    r = random.Random(seed)
    spec = ClusterSpec.from_dict(cluster(r, P))
    k = kinds(spec)
    if kind == "array":
        v = np.frombuffer(r.randbytes(240), dtype=np.uint8)
        dt = r.choice(DTYPES)
        shape = r.choice([(), (1,), (5,), (2, 3), (1, 2, 2), (3, 1)])
        m = int(np.prod(shape))
        v = (v[:m] % 2 == 0).reshape(shape) if dt == "bool" else v[: m * np.dtype(dt).itemsize].view(dt).reshape(shape)
        if dt.startswith("float"):
            v = np.where(np.isfinite(v), v, np.asarray(r.choice([0.0, np.inf, -np.inf, -0.0, np.nan]), dtype=dt))
    elif kind == "scalar":
        v = r.choice([0, -3, 2**62, True, False, 2.5, -0.0, np.float32(1.5), np.int8(-7)])
    elif kind == "list":
        v = [[r.randrange(9) for _ in range(2)] for _ in range(r.randrange(1, 4))]
    else:
        rows = r.randrange(1, 5)
        v = pd.DataFrame({"a": [r.randrange(100) for _ in range(rows)], "b": [r.random() for _ in range(rows)], "name": [r.choice(["", "é", "x" * 50, "0"]) for _ in range(rows)]})
    ok = [d for d in spec.devices if kind != "table" or k[d] != "SPU"]
    path = [r.choice([d for d in ok if kind != "list" or k[d] != "SPU"])]  # a list is put as a tensor on one node only
    for _ in range(n):
        path.append(r.choice([d for d in ok if can(k, path[-1], d)]))
    if k[path[-1]] == "SPU":
        path.append(where(spec)[0])
    return spec, k, v, path


def run_chain(c):
    how, kind = c[3], c[4]
    spec, k, v, path = chain(c)
    what = f"{how} {v!r} along {[(d, k[d]) for d in path]} of {spec.to_dict()}"
    rank = spec.devices[path[-1]].members[0].rank
    box = {}

    def go():
        def fn():
            o = mp.put(path[0], v)
            for d in path[1:]:
                o = mp.put(d, o)
                check(dv.get_dev_attr(o) == d, lambda: f"{what}: placement {dv.get_dev_attr(o)}")
            return o

        with run_on(spec) as sim:
            if how == "eager":
                with sim:
                    o = fn()
                    box["v"] = mp.fetch(o)
            else:
                with sim:
                    o = mp.compile(fn)
                o = mp.evaluate(o, context=sim)
                with sim:
                    x = mp.fetch(o)
                box["v"] = x[rank] if isinstance(x, list) else x

    together([go], 40, what)
    got = box["v"]
    if kind == "table":
        got = got.to_pandas() if hasattr(got, "to_pandas") else got
        check(list(got.columns) == list(v.columns) and got.reset_index(drop=True).equals(v), lambda: f"{what} arrived as {got!r}")
    else:
        want = np.asarray(v)
        got = np.asarray(got)
        check(got.dtype == want.dtype and got.shape == want.shape and got.tobytes() == want.tobytes(), lambda: f"{what} arrived as {got!r}")
    for a, b in itertools.pairwise(path):
        if a != b:
            label(f"{k[a]}>{k[b]}")


def nt_chain(c):
    _, k, _, path = chain(c)
    return len(set(path)) > 2


SUBS = [
    Sub("programs", programs, run_program, "programs that create values on, move them between and compute on plain, secure (any ordered subset of nodes, several at once) and trusted devices, by explicit or inferred placement, with refused placements between; run directly, traced and packed; non-trivial = a computation and values on two kinds of device",
        nt_program, quick=120, thorough=4000, shards_quick=5, shards_thorough=8, hang_s=120),
    Sub("chains", chains, run_chain, "one value of any element type, a table or a python value along a chain of devices; non-trivial = three devices",
        nt_chain, quick=100, thorough=4000, shards_quick=4, shards_thorough=8, hang_s=120),
]
KNOWN = []
