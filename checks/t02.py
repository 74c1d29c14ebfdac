"""T02: reusing compiled code never changes an answer."""

from __future__ import annotations

import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import dtypes, tensor
from mplang.edsl import serde
from mplang.edsl import typing as elt
from mplang.edsl.tracer import trace
from mplang.runtime.interpreter import InterpObject, Interpreter
from vf.core import HarnessError, Sub, check, label
from vf.gen import arrays

PROPERTY = "T02"
ASSUMPTIONS = [
    "numpy readings of the functions are the reference, integers exact, floats to 1e-6 / 1e-12",
    "the external shape-refinement tool is replaced by a stand-in running the same compiler passes",
]

DT = ["int32", "int64", "float32", "float64", "uint8", "bool"]


def ty(a, dyn=()):
    return elt.TensorType(dtypes.from_dtype(a.dtype), tuple(-1 if i in dyn else d for i, d in enumerate(a.shape)))


def big(n, s, dt):
    """A captured array of n elements; variants differ in a single element in the middle or at the end."""
    a = (np.arange(n) % 97).astype(dt)
    if n:
        a[s % n] = np.asarray((int(a[s % n]) + 1 + s // max(n, 1)) % 100).astype(dt)
    return a


def make(spec):
    """(jax function, numpy function) for a description; descriptions are deliberately alike."""
    kind, k, n, perm = spec
    import jax.numpy as jnp

    c = {}

    def fn(np_, xs):
        xs = [xs[i % len(xs)] for i in perm]
        x, y = xs[0], xs[-1]
        if kind == "scale":
            return x * np_.asarray(k).astype(x.dtype)
        if kind == "offset":
            return x + np_.asarray(k).astype(x.dtype)
        if kind == "capture":
            b = c.setdefault("b", big(n, k, "int64"))
            return x.reshape(-1)[:1].astype("int64") + np_.asarray(b)
        if kind == "capsum":
            b = c.setdefault("b", big(n, k, "int64"))
            return np_.asarray(b)[-(k % n) - 1 :]
        if kind == "sub":
            return x.astype("int64") - y.astype("int64")
        if kind == "first":
            return x
        if kind == "both":
            return (x, y)
        if kind == "dict":
            return {"z": x, "a": y}
        if kind == "none":
            return np_.asarray(k)
        if kind == "roll":
            return np_.roll(x.reshape(-1), k)
        if kind == "sum":
            return np_.sum(x.astype("int64")) + k
        raise HarnessError(kind)

    return (lambda *xs: fn(jnp, xs)), (lambda *xs: fn(np, xs))


KINDS = ["scale", "offset", "capture", "capsum", "sub", "first", "both", "dict", "none", "roll", "sum"]


def specs():
    return st.tuples(st.sampled_from(KINDS), st.integers(0, 4), st.sampled_from([3, 3, 40, 1500]), st.sampled_from([(0, 1), (1, 0), (0, 0), (1, 1), (0, 1, 2), (2, 1, 0), (2, 0)]))


@st.composite
def histories(draw, dyn=False, max_calls=8):
    # few distinct functions and inputs, so that the same code meets different arguments and the same arguments different code
    fs = draw(st.lists(specs(), min_size=1, max_size=3))
    base = draw(specs())
    fs += [(base[0], base[1] + i, base[2], base[3]) for i in range(2)] + [(base[0], base[1], base[2], tuple(reversed(base[3])))]
    shp = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
    pool = [draw(arrays([draw(st.sampled_from(DT))], shape=tuple(shp), allow_nan=False))]
    for _ in range(draw(st.integers(1, 3))):
        d = str(pool[0].dtype) if draw(st.booleans()) else draw(st.sampled_from(DT))
        s = tuple(shp) if draw(st.integers(0, 2)) else tuple(draw(st.lists(st.integers(1, 3), min_size=len(shp), max_size=len(shp))))
        pool.append(draw(arrays([d], shape=s, allow_nan=False)))
    calls = draw(st.lists(st.tuples(st.integers(0, len(fs) - 1), st.lists(st.integers(0, len(pool) - 1), min_size=3, max_size=3), st.sampled_from(["eager", "trace", "again", "shipped", "alias"])), min_size=2, max_size=max_calls))
    return fs, pool, calls


def leaves(v):
    if isinstance(v, dict):
        return [x for k in sorted(v) for x in leaves(v[k])]
    if isinstance(v, (tuple, list)):
        return [x for u in v for x in leaves(u)]
    return [np.asarray(v)]


def ok_call(spec, xs):
    kind, _, _, perm = spec
    ys = [xs[i % len(xs)] for i in perm]
    if kind in ("sub",):
        return ys[0].shape == ys[-1].shape and all(a.dtype.kind in "iub" for a in ys)
    if kind == "capture":
        return ys[0].dtype.kind in "iub"
    if kind in ("scale", "offset", "roll"):
        return ys[0].dtype != bool
    if kind == "sum":
        return ys[0].dtype.kind in "iub"
    return True


def same(want, got, how):
    w = leaves(want)
    check(len(w) == len(got), lambda: f"{how}: {len(got)} results instead of {len(w)}")
    for a, b in zip(w, got):
        b = b.unwrap() if isinstance(b, TensorValue) else np.asarray(b)
        check(a.dtype == b.dtype and a.shape == b.shape, lambda: f"{how}: {b.dtype}{b.shape} instead of {a.dtype}{a.shape}")
        ok = np.allclose(a, b, rtol=1e-6 if a.dtype == np.float32 else 1e-12, atol=1e-37 if a.dtype == np.float32 else 1e-307, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)
        check(ok, lambda: f"{how}: {b!r:.200} instead of {a!r:.200}")


def play(case, root):
    fs, pool, calls = case
    made = [make(s) for s in fs]
    traces = {}
    done = 0
    with np.errstate(all="ignore"):
        for n, (fi, ai, how) in enumerate(calls):
            xs = [pool[i] for i in ai]
            if not ok_call(fs[fi], xs):
                continue
            jf, nf = made[fi]
            want = nf(*xs)
            desc = f"call {n} {fs[fi]} ({how})"
            it = Interpreter(root_dir=root)
            vals = [TensorValue(x) for x in xs]
            body = lambda *a: tensor.run_jax(jf, *a)
            if how == "eager":
                with it:
                    r = mp.evaluate(body, *[tensor.constant(x) for x in xs])
                    same(want, leaves(mp.fetch(r)), desc)
            else:
                sig = (fi, tuple((str(x.dtype), x.shape) for x in xs))
                if how == "alias":  # one parameter object in several places
                    o = {i: InterpObject(TensorValue(pool[i]), ty(pool[i]), None) for i in set(ai)}
                    t = trace(lambda: body(*[o[i] for i in ai]))
                    same(want, it.evaluate_graph(t.graph, [c.runtime_obj for c in t.captured]), desc)
                else:
                    if how == "trace" or sig not in traces:
                        traces[sig] = trace(body, *[InterpObject(v, ty(x), None) for v, x in zip(vals, xs)]).graph
                    g = traces[sig]
                    if how == "shipped":
                        g = serde.loads(serde.dumps(g))
                    same(want, it.evaluate_graph(g, vals), desc)
            done += 1
            label(fs[fi][0])
            label(how)
    return done


def run_history(case):
    root = tempfile.mkdtemp(dir=os.getcwd())
    try:
        play(case, root)
    finally:
        shutil.rmtree(root, True)


# ---- separate processes sharing a data directory ----------------------------------------


@st.composite
def restarts(draw):
    a = draw(histories(max_calls=6))
    order = draw(st.permutations(range(len(a[2]))))
    # the second process sees nearly the same functions too
    return a, order, draw(st.sampled_from(["keep", "truncate", "garbage", "empty", "keep", "swap"])), draw(st.integers(0, 10**6))


def run_restart(c):
    case, order, damage, r = c
    root = tempfile.mkdtemp(dir=os.getcwd())
    try:
        for step in range(2):
            fs, pool, calls = case
            if step:
                calls = [calls[i] for i in order]
                fs = fs[1:] + fs[:1]
                calls = [(fi, ai, h) for fi, ai, h in calls] + calls[:1]
                d = os.path.join(root, "cache", "jax")
                names = sorted(os.listdir(d)) if os.path.isdir(d) else []
                for i, n in enumerate(names):
                    p = os.path.join(d, n)
                    if damage in ("truncate", "garbage", "empty") and (r >> (i % 16)) & 1:
                        b = open(p, "rb").read()
                        open(p, "wb").write({"truncate": b[: r % (len(b) + 1)], "garbage": bytes((x * 7 + r) % 256 for x in range(64)), "empty": b""}[damage])
                if names:
                    label("cached executables on disk")
            spec = os.path.join(root, f"case{step}")
            with open(spec, "wb") as f:
                pickle.dump((fs, pool, calls), f)
            p = subprocess.run([sys.executable, "-c", BOOT, spec, root], capture_output=True, text=True, env=os.environ, cwd=root, timeout=200)
            line = next((x for x in p.stdout.splitlines() if x.startswith("RESULT ")), None)
            if line is None:
                check(False, f"process {step} with damage {damage} died: {p.stderr[-600:]}")
            res = json.loads(line[7:])
            check(res["ok"], lambda: f"process {step + 1}, disk cache {damage}: {res['error']}")
        label(damage)
    finally:
        shutil.rmtree(root, True)


BOOT = """
import sys, pickle, json, warnings, logging
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
import jax
jax.config.update("jax_enable_compilation_cache", False); jax.config.update("jax_enable_x64", True)
import mplang, mplang.backends; mplang.backends.load_builtins()
from checks import t02
case = pickle.load(open(sys.argv[1], "rb"))
try:
    t02.play(case, sys.argv[2]); r = {"ok": True}
except Exception as e:
    r = {"ok": False, "error": f"{type(e).__name__}: {e}"}
print("RESULT " + json.dumps(r))
"""


# ---- unknown dimensions: one trace, many shapes --------------------------------------------


@st.composite
def poly(draw):
    kind = draw(st.sampled_from(["scale", "rowsum", "colsum", "iota", "pair", "second", "twosyms", "concat", "center", "shape"]))
    d = draw(st.sampled_from(["int32", "int64", "float32", "float64"]))
    cols = draw(st.integers(1, 3))
    named = draw(st.booleans())
    sizes = draw(st.lists(st.tuples(st.integers(1, 5), st.integers(1, 4)), min_size=2, max_size=4))
    seeds = draw(st.lists(st.integers(0, 1000), min_size=len(sizes), max_size=len(sizes)))
    return kind, d, cols, named, sizes, seeds, draw(st.integers(0, 3)), draw(st.sampled_from(["same interpreter", "new interpreter", "shipped"]))


def run_poly(c):
    import jax.numpy as jnp

    from vf import refine

    refine.start()
    kind, d, cols, named, sizes, seeds, k, how = c

    def f(np_, x, y, z):
        if kind == "scale":
            return x * np_.asarray(k).astype(d) + z
        if kind == "rowsum":
            return np_.sum(x, axis=1, dtype=d)
        if kind == "colsum":
            return np_.sum(x, axis=0, dtype=d) + z[:1]
        if kind == "iota":
            return np_.arange(x.shape[0]).astype(d) * np_.asarray(k).astype(d)
        if kind == "pair":
            return (x + y, y - x)
        if kind == "second":
            return y
        if kind == "twosyms":
            return x.reshape(-1)[:1] + z.astype(d)
        if kind == "concat":
            return np_.concatenate([x, y, x], axis=0)
        if kind == "center":
            return x - np_.max(y, axis=0)
        return np_.asarray(x.shape[0] + k).astype(d)

    free = kind == "twosyms"
    zdyn = (0,) if free else ()
    mk = lambda s, shp: ((np.arange(int(np.prod(shp))) * 7 + s) % 23).astype(d).reshape(shp)
    ins = []
    for (n, m), s in zip(sizes, seeds):
        ins.append([mk(s, (n, cols)), mk(s + 3, (n, cols)), mk(s + 5, (m,) if free else (cols,))])
    objs = [InterpObject(TensorValue(a), ty(a, dyn), None) for a, dyn in zip(ins[0], [(0,), (0,), zdyn])]
    syms = [["r", None], ["r", None], ["q"]] if (named or free) else None

    def body(a, b, e):
        return tensor.run_jax(lambda x, y, z: f(jnp, x, y, z), a, b, e, **({"symbolic_shapes": syms} if syms else {}))

    t = trace(body, *objs)
    g = serde.loads_binary(serde.dumps_binary(t.graph)) if how == "shipped" else t.graph
    root = tempfile.mkdtemp(dir=os.getcwd())
    try:
        it = Interpreter(root_dir=root)
        for xs in [*ins, ins[0]]:
            if how != "same interpreter":
                it = Interpreter(root_dir=root)
            want = f(np, *xs)
            got = it.evaluate_graph(g, [TensorValue(x) for x in xs])
            same(want, got, f"{kind} with {[x.shape for x in xs]} after {[x[0].shape for x in ins]}")
            for o, v in zip(t.graph.outputs, got):
                v = v.unwrap()
                check(len(o.type.shape) == v.ndim and all(a in (-1, b) for a, b in zip(o.type.shape, v.shape)), "declared shape")
    finally:
        shutil.rmtree(root, True)
    label(kind)
    label(how)


# ---- state captured by a function is read when it is traced -----------------------------------


@st.composite
def captured(draw):
    vals = draw(st.lists(st.one_of(st.integers(-9, 9), arrays(["int64"], shape=(2,))), min_size=2, max_size=4))
    return vals, draw(arrays(["int64"], shape=(2,))), draw(st.sampled_from(["cell", "global", "attr", "default"]))


def run_captured(c):
    vals, x, how = c

    class Box:
        v = None

    cell = [None]
    box = Box()

    def f(a):
        if how == "cell":
            return a + cell[0]
        if how == "attr":
            return a + box.v
        return a + g["v"]

    g = {}
    ctx = Interpreter()
    with ctx:
        o = tensor.constant(x)
        ts = []
        for v in vals:
            cell[0] = box.v = g["v"] = v
            fn = (lambda a, v=v: a + v) if how == "default" else f
            same(x + v, leaves(mp.fetch(mp.evaluate(lambda a: tensor.run_jax(fn, a), o))), f"captured {how} changed to {v!r}")
            ts.append(mp.compile(lambda a: tensor.run_jax(fn, a), o))
        for v, t in zip(vals, ts):
            same(x + v, leaves(mp.fetch(mp.evaluate(t, o))), f"trace made when the captured {how} was {v!r}")
    label(how)


def busy(c):
    return len({(fi, tuple(ai)) for fi, ai, h in c[2]}) > 1


SUBS = [
    Sub("history", histories, run_history, "histories of up to 8 calls of look-alike functions over look-alike arguments, in one data directory; non-trivial = two different calls", busy, quick=90, thorough=2500, shards_quick=3, shards_thorough=8),
    Sub("restart", restarts, run_restart, "the same in two processes sharing a data directory, its cached executables kept or damaged between", lambda c: busy(c[0]), quick=7, thorough=120, shards_quick=2, shards_thorough=8),
    Sub("shapes", poly, run_poly, "one function with unknown dimensions run on a sequence of sizes", lambda c: len(set(c[4])) > 1, quick=60, thorough=1500, shards_quick=2, shards_thorough=6),
    Sub("captured", captured, run_captured, "functions whose captured state changes between traces", lambda c: True, quick=40, thorough=600, shards_quick=1, shards_thorough=2),
]
KNOWN = []
