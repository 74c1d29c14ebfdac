"""T01: tensor operations agree with numpy."""

from __future__ import annotations

import functools

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.tensor_impl import TensorValue
from mplang.dialects import dtypes, tensor
from mplang.edsl import serde
from mplang.edsl import typing as elt
from mplang.edsl.tracer import trace
from mplang.runtime.interpreter import InterpObject, Interpreter
from vf import gen
from vf.core import Sub, check, label
from vf.gen import LAYOUTS, arrays, relayout

PROPERTY = "T01"
ASSUMPTIONS = [
    "numpy (structural operations, constants, elementwise) and jax called directly (compiled numeric functions) are the references",
    "floating results of numeric functions are compared to 1e-2 (f16), 1e-5 (f32), 1e-11 (f64) relative",
    "out-of-range gather indices and dimensions of size 0 are outside the statement",
]

ALL = [*gen.NUM_DTYPES, "complex64", "complex128"]


def ty(a):
    return elt.TensorType(dtypes.from_dtype(np.asarray(a).dtype), tuple(np.shape(a)))


def exact(want, got, how):
    want = np.asarray(want)
    got = got.unwrap() if isinstance(got, TensorValue) else np.asarray(got)
    native = lambda a: a.dtype.newbyteorder("=")  # the byte order is no part of the value
    check(native(got) == native(want), lambda: f"{how}: element type {got.dtype} instead of {want.dtype}")
    check(got.shape == want.shape, lambda: f"{how}: shape {got.shape} instead of {want.shape}")
    n = lambda a: np.ascontiguousarray(a.astype(native(a))).tobytes()
    check(n(got) == n(want), lambda: f"{how}: {got!r:.300} instead of {want!r:.300}")


def ways(f, ins, mode):
    """Values of f on the arrays, run in the given way."""
    import jax.numpy as jnp

    if mode == "eager":
        ctx = Interpreter()
        with ctx:
            r = mp.evaluate(f, *[tensor.constant(a) for a in ins])
            return [o.runtime_obj for o in (r if isinstance(r, (tuple, list)) else [r])]
    if mode != "constants":
        ins = [a if a.dtype.isnative else a.astype(a.dtype.newbyteorder("=")) for a in ins]  # only constants take foreign byte orders
    hold = {"jaxarr": lambda a: TensorValue(jnp.asarray(a))}.get(mode, lambda a: a)
    vals = [TensorValue(a) if not isinstance(hold(a), TensorValue) else hold(a) for a in ins]
    objs = [InterpObject(v, ty(a), None) for v, a in zip(vals, ins)]
    t = trace(f, *objs)
    g = t.graph
    if mode == "shipped":
        g = serde.loads_binary(serde.dumps_binary(g))
        vals = [serde.loads_binary(serde.dumps_binary(v)) for v in vals]
    if mode == "constants":
        t = trace(lambda: f(*[tensor.constant(a) for a in ins]))
        return Interpreter().evaluate_graph(t.graph, [])
    return Interpreter().evaluate_graph(g, vals)


MODES = ["eager", "traced", "shipped", "constants", "jaxarr"]

# ---- structural operations -----------------------------------------------------------


@st.composite
def structural(draw):
    op = draw(st.sampled_from(["transpose", "reshape", "concat", "gather", "slice"]))
    x = draw(arrays(ALL, max_rank=4, max_side=4, min_side=1, min_rank=1 if op in ("concat", "gather", "slice") else 0))
    lays = draw(st.lists(st.sampled_from(LAYOUTS), min_size=4, max_size=4))
    mode = draw(st.sampled_from(MODES))
    if op == "transpose":
        p = tuple(draw(st.permutations(range(x.ndim))))
    elif op == "reshape":
        dims, rest = [], x.size
        while rest > 1 and len(dims) < 4:
            d = draw(st.sampled_from([d for d in range(1, rest + 1) if rest % d == 0]))
            dims.append(d)
            rest //= d
        if rest > 1:
            dims.append(rest)
        if dims and draw(st.booleans()):
            dims[draw(st.integers(0, len(dims) - 1))] = -1
        p = tuple(dims)
    elif op == "concat":
        ax = draw(st.integers(-x.ndim, x.ndim - 1))
        others = []
        for _ in range(draw(st.integers(0, 3))):
            shp = list(x.shape)
            shp[ax] = draw(st.integers(1, 3))
            others.append(draw(arrays([str(x.dtype)], shape=tuple(shp))))
        p = (ax, others)
    elif op == "gather":
        ax = draw(st.integers(-x.ndim, x.ndim - 1))
        dt = draw(st.sampled_from(["int32", "int64", "uint32", "uint64"]))
        shp = draw(gen.shapes(max_rank=3, max_side=3, min_side=1))
        n = int(np.prod(shp)) if shp else 1
        lo = 0 if dt.startswith("u") else -x.shape[ax]
        idx = np.array(draw(st.lists(st.integers(lo, x.shape[ax] - 1), min_size=n, max_size=n)), dtype=dt).reshape(shp)
        p = (ax, idx)
    else:
        s, e, t = [], [], []
        for d in x.shape:
            st_ = draw(st.integers(1, 3))
            a = draw(st.integers(0, d - 1))
            b = draw(st.integers(a + 1, d + 2))
            neg = draw(st.integers(0, 3))
            s.append(a - d if neg & 1 else a)
            e.append(b - d if neg & 2 and b < d else b)
            t.append(st_)
        p = (tuple(s), tuple(e), tuple(t) if draw(st.booleans()) else None)
    return op, x, p, lays, mode


def run_structural(c):
    op, x, p, lays, mode = c
    lay = lambda a, i=0: relayout(a, lays[i % 4])
    if op == "transpose":
        f, ins, want = (lambda v: tensor.transpose(v, p)), [lay(x)], np.transpose(x, p)
    elif op == "reshape":
        f, ins, want = (lambda v: tensor.reshape(v, p)), [lay(x)], x.reshape(p)
    elif op == "concat":
        ax, others = p
        xs = [x, *others]
        f, ins, want = (lambda *v: tensor.concat(list(v), axis=ax)), [lay(a, i) for i, a in enumerate(xs)], np.concatenate(xs, axis=ax)
    elif op == "gather":
        ax, idx = p
        f, ins, want = (lambda v, i: tensor.gather(v, i, axis=ax)), [lay(x), lay(idx, 1)], np.take(x, idx.astype(np.int64), axis=ax)
    else:
        s, e, t = p
        f, ins = (lambda v: tensor.slice_tensor(v, s, e, t)), [lay(x)]
        want = x[tuple(slice(a, b, k) for a, b, k in zip(s, e, t or (1,) * x.ndim))]
    before = [a.copy() for a in ins]
    got = ways(f, ins, mode)
    check(len(got) == 1, "one result")
    exact(want, got[0], f"{op} {mode} {lays[0]}")
    for a, b in zip(ins, before):
        check(a.tobytes() == b.tobytes(), f"{op} changed its input")
    label(op)
    label(mode)


# ---- constants --------------------------------------------------------------------------


@st.composite
def constants(draw):
    how = draw(st.sampled_from(["array", "array", "int", "float", "bool", "complex", "npscalar", "list", "nested", "jax", "tuple"]))
    if how == "int":
        v = draw(st.integers(-(2**63), 2**63 - 1))
    elif how == "float":
        v = draw(st.floats())
    elif how == "bool":
        v = draw(st.booleans())
    elif how == "complex":
        v = complex(draw(st.floats(allow_nan=False)), draw(st.floats(allow_nan=False)))
    elif how == "npscalar":
        v = draw(arrays(ALL, shape=()))[()]
    elif how in ("list", "tuple"):
        v = draw(st.one_of(st.lists(st.integers(-99, 99), min_size=1, max_size=5), st.lists(st.floats(allow_nan=False), min_size=1, max_size=5), st.lists(st.booleans(), min_size=1, max_size=5)))
        v = tuple(v) if how == "tuple" else v
    elif how == "nested":
        v = draw(arrays(["int64", "float64", "bool"], max_rank=3, min_side=1)).tolist()
    else:
        v = draw(arrays(ALL, max_rank=4, min_side=1))
    again = draw(st.lists(arrays(ALL, max_rank=2, max_side=2, min_side=1), max_size=3))
    return how, v, draw(st.sampled_from(LAYOUTS)), again


def run_constants(c):
    import jax.numpy as jnp

    how, v, lay, again = c
    want = np.array(v)
    if how == "array":
        v = relayout(v, lay)
    elif how == "jax":
        v = jnp.asarray(v)
    # several constants in one graph, including equal bytes under other types and shapes, each used twice
    alike = [v, *again, want.view(np.uint8 if want.dtype.itemsize == 1 else f"u{want.dtype.itemsize}") if want.dtype.itemsize <= 8 else want, want.reshape(-1), want.reshape(1, *want.shape), v]
    t = trace(lambda: [tensor.constant(a) for a in alike])
    got = Interpreter().evaluate_graph(t.graph, [])
    for a, o, g in zip(alike, t.graph.outputs, got):
        exact(np.array(a), g, f"constant from {how} {lay}")
    got = Interpreter().evaluate_graph(serde.loads_b64(serde.dumps_b64(t.graph)), [])
    for a, g in zip(alike, got):
        exact(np.array(a), g, "constant in a shipped graph")
    ctx = Interpreter()
    with ctx:
        o = mp.evaluate(lambda: tensor.constant(v))
        exact(want, o.runtime_obj, f"eager constant from {how} {lay}")
        o2 = tensor.constant(v)
        exact(want, mp.fetch(o2), "fetched constant")
        if how == "array":  # later writes to the caller's array must not show
            w = want.copy()
            w2 = np.array(w)
            tt = mp.compile(lambda: tensor.constant(w2))
            o3 = tensor.constant(w2)
            w2[...] = np.zeros((), w2.dtype)
            exact(w, mp.fetch(mp.evaluate(tt)), "constant after the source array changed")
            exact(w, mp.fetch(o3), "eager constant after the source array changed")
    label(how)


# ---- elementwise ----------------------------------------------------------------------

EW = {
    "first": (1, lambda a, *r: a),
    "neg": (1, lambda a: -a),
    "sq": (1, lambda a: a * a),
    "add": (2, lambda a, b: a + b),
    "mix": (3, lambda a, b, c: a * b + c),
    "cmp": (2, lambda a, b: a > b),
    "pair": (2, lambda a, b: (a * b, a > b)),
    "nest": (2, lambda a, b: {"x": [a - b], "y": a}),
}


@st.composite
def elementwise(draw):
    name = draw(st.sampled_from(sorted(EW)))
    d = draw(st.sampled_from(["int8", "int32", "int64", "uint8", "uint32", "uint64", "float32", "float64", "float16"]))
    shp = draw(gen.shapes(max_rank=3, max_side=3, min_side=1))
    n = EW[name][0]
    full = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    xs = [draw(arrays([d], shape=shp if k else (), allow_nan=False)) for k in full]
    lays = draw(st.lists(st.sampled_from(LAYOUTS), min_size=n, max_size=n))
    return name, xs, lays, draw(st.sampled_from(MODES)), draw(st.booleans())


def run_elementwise(c):
    name, xs, lays, mode, kw = c
    fn = EW[name][1]

    def body(*a):
        return a[0] if name == "first" else tensor.run_jax(fn, *a)

    def f(*a):
        if kw and len(a) == 2:
            return tensor.elementwise(lambda p, q=None: body(p, q), a[0], q=a[1])
        return tensor.elementwise(body, *a)

    import jax

    shp = np.broadcast_shapes(*[x.shape for x in xs])
    with np.errstate(all="ignore"):
        want = fn(*xs)
    got = ways(f if name not in ("nest",) else (lambda *a: tuple(jax.tree_util.tree_leaves(f(*a)))), [relayout(x, l) for x, l in zip(xs, lays)], mode)
    wl = jax.tree_util.tree_leaves(want)
    check(len(got) == len(wl), "number of results")
    for w, g in zip(wl, got):
        w = np.broadcast_to(np.asarray(w), shp) if name == "first" or np.shape(w) != shp else np.asarray(w)
        how = f"elementwise {name} {mode}"
        if w.dtype.kind != "f":
            exact(w, g, how)
            continue
        # compiled code flushes subnormal numbers and may round a * b + c once
        v = g.unwrap() if isinstance(g, TensorValue) else np.asarray(g)
        check(v.dtype == w.dtype and v.shape == w.shape, lambda: f"{how}: {v.dtype}{v.shape} instead of {w.dtype}{w.shape}")
        with np.errstate(all="ignore"):
            mag = np.broadcast_to(fn(*[abs(x) for x in xs]), shp) if name == "mix" else np.zeros(shp, w.dtype)
            info = np.finfo(w.dtype)
            ok = (abs(v - w) <= 4 * info.eps * mag + info.tiny) | (v == w) | (np.isnan(v) & np.isnan(w)) | ~np.isfinite(mag)
        check(bool(np.all(ok)), lambda: f"{how}: {v!r:.300} instead of {w!r:.300}")
    label(name)
    label(mode)


# ---- compiled numeric functions against jax called directly ------------------------------

def _jnp():
    import jax.numpy as jnp

    return jnp


FN = {
    "matmul": (lambda j, x, y, k: x.reshape(-1, x.shape[-1] if x.ndim else 1) @ y.reshape(x.shape[-1] if x.ndim else 1, -1), lambda x, y: y.size % (x.shape[-1] if x.ndim else 1) == 0 and x.dtype == y.dtype),
    "stats": (lambda j, x, y, k: {"sum": j.sum(x), "max": j.max(x), "arg": j.argmax(x), "mean": j.mean(x)}, lambda x, y: x.dtype.kind != "c"),
    "sort": (lambda j, x, y, k: (j.sort(x, axis=None), j.argsort(x.reshape(-1))), lambda x, y: x.dtype.kind in "iufb"),
    "clip": (lambda j, x, y, k: j.clip(x, k, k + 2), lambda x, y: x.dtype.kind in "iuf"),
    "astype": (lambda j, x, y, k: x.astype(["int32", "float32", "uint8", "float64", "int64"][k % 5]), lambda x, y: x.dtype.kind in "iub"),
    "promote": (lambda j, x, y, k: (x + y, x * 2, y + 1.5), lambda x, y: x.dtype.kind in "iuf" and y.dtype.kind in "iuf" and _bcs(x, y)),
    "div": (lambda j, x, y, k: (x / (j.abs(y) + 1)), lambda x, y: x.dtype.kind in "f" and y.dtype == x.dtype and _bcs(x, y)),
    "bits": (lambda j, x, y, k: (x ^ y, x & y, ~x, x | y), lambda x, y: x.dtype == y.dtype and x.dtype.kind in "iub" and _bcs(x, y)),
    "shift": (lambda j, x, y, k: (x << (k % 8), x >> (k % 8)), lambda x, y: x.dtype.kind in "iu"),
    "where": (lambda j, x, y, k: j.where(x > 0, x, j.zeros_like(x)), lambda x, y: x.dtype.kind in "iuf"),
    "stack": (lambda j, x, y, k: [j.stack([x, x], axis=-1), j.tile(x, (2,) * x.ndim), j.flip(x)], lambda x, y: True),
    "real": (lambda j, x, y, k: (x.real, x.imag, j.conj(x)), lambda x, y: True),
    "noargs": (lambda j, x, y, k: j.arange(k + 1), lambda x, y: True),
    "unused": (lambda j, x, y, k: y, lambda x, y: True),
    "twice": (lambda j, x, y, k: (x, x, [y, x]), lambda x, y: True),
    "index": (lambda j, x, y, k: x[..., 0] if x.ndim else x, lambda x, y: True),
    "trans": (lambda j, x, y, k: (j.exp(x * 0.25), j.tanh(x), j.log1p(j.abs(x))), lambda x, y: x.dtype.kind == "f"),
    "nan": (lambda j, x, y, k: (j.isnan(x), j.nan_to_num(x), j.isinf(x)), lambda x, y: x.dtype.kind == "f"),
}


def _bcs(x, y):
    try:
        np.broadcast_shapes(x.shape, y.shape)
        return True
    except ValueError:
        return False


@st.composite
def numeric(draw):
    x = draw(arrays(ALL, max_rank=3, max_side=3, min_side=1))
    y = draw(st.one_of(arrays([str(x.dtype)], shape=x.shape), arrays(ALL, max_rank=3, max_side=3, min_side=1)))
    names = [n for n in sorted(FN) if FN[n][1](x, y)]
    return draw(st.sampled_from(names)), x, y, draw(st.integers(0, 6)), draw(st.lists(st.sampled_from(LAYOUTS), min_size=2, max_size=2)), draw(st.sampled_from(MODES)), draw(st.sampled_from(["pos", "kw", "static", "pytree", "shared", "str"]))


@st.composite
def casts(draw):
    kinds = [d for d in ALL if d != "bool" and "complex" not in d]
    x = draw(st.one_of(arrays(kinds, max_rank=3, max_side=8, min_side=1), arrays(kinds, shape=draw(st.sampled_from([(8,), (2, 4), (3, 2), (4, 8), (16,)])))))
    return x, draw(st.sampled_from(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"])), draw(st.sampled_from(LAYOUTS)), draw(st.sampled_from(MODES))


def run_cast(c):
    """The same bytes read as another element type, or refused when they do not fit."""
    x, to, lay, mode = c
    try:
        want = np.ascontiguousarray(x).reshape(x.shape).view(to)
    except (ValueError, TypeError):
        want = None
    try:
        (got,) = ways(lambda a: (tensor.bitcast(a, dtypes.from_dtype(np.dtype(to))),), [relayout(x, lay)], mode)
    except Exception as e:
        check(want is None or x.ndim == 0, lambda: f"bitcast of {x.dtype}{x.shape} to {to}: {e!r:.300}")
        label("refused")
        return
    check(want is not None, lambda: f"bitcast of {x.dtype}{x.shape} to {to} is accepted")
    v = got.unwrap()
    check(v.dtype == want.dtype and v.shape == want.shape, lambda: f"bitcast of {x.dtype}{x.shape} gives {v.dtype}{v.shape} instead of {want.dtype}{want.shape}")
    check(np.ascontiguousarray(v).tobytes() == want.tobytes(), lambda: f"bitcast of {x!r} to {to}: {v!r:.300} instead of {want!r:.300}")
    label("wider" if want.dtype.itemsize > x.dtype.itemsize else "narrower" if want.dtype.itemsize < x.dtype.itemsize else "same size")


TOL = {"float16": 1e-2, "float32": 1e-5, "float64": 1e-11, "complex64": 1e-5, "complex128": 1e-11}


def run_numeric(c):
    import jax
    import jax.numpy as jnp

    name, x, y, k, lays, mode, call = c
    fn = FN[name][0]
    if call == "shared":
        y = x
        if not FN[name][1](x, x):
            return
    with np.errstate(all="ignore"):
        want = jax.tree_util.tree_leaves(jax.jit(lambda a, b: fn(jnp, a, b, k))(jnp.asarray(x), jnp.asarray(y)))

    def f(a, b):
        if call == "kw":
            return tensor.run_jax(lambda *, q, p, k: fn(jnp, p, q, k), p=a, q=b, k=k)
        if call == "static":
            return tensor.run_jax(lambda k, p, none, q: fn(jnp, p, q, k), k, a, None, b)
        if call == "pytree":
            return tensor.run_jax(lambda d, t: fn(jnp, d["in"][0], t[1], d["k"]), {"in": [a], "k": k}, (3, b))
        if call == "str":
            return tensor.run_jax(lambda p, mode, q: fn(jnp, p, q, k) if mode == "yes" else p, a, "yes", b)
        return tensor.run_jax(lambda p, q: fn(jnp, p, q, k), a, b)

    g = (lambda a: tuple(jax.tree_util.tree_leaves(f(a, a)))) if call == "shared" else (lambda a, b: tuple(jax.tree_util.tree_leaves(f(a, b))))
    ins = [relayout(x, lays[0])] if call == "shared" else [relayout(x, lays[0]), relayout(y, lays[1])]
    got = ways(g, ins, mode)
    check(len(got) == len(want), "number of results")
    for w, v in zip(want, got):
        w = np.asarray(w)
        v = v.unwrap()
        check(v.dtype == w.dtype and v.shape == w.shape, lambda: f"{name}: {v.dtype}{v.shape} instead of {w.dtype}{w.shape}")
        t = TOL.get(str(w.dtype))
        with np.errstate(all="ignore"):
            ok = np.allclose(v, w, rtol=t, atol=t, equal_nan=True) if t else np.array_equal(v, w)
        check(ok, lambda: f"{name} {mode} {call}: {v!r:.300} instead of {w!r:.300}")
    label(name)
    label(mode)
    label(call)


SUBS = [
    Sub("structural", structural, run_structural, "one structural operation on an array of any type, rank to 4 and memory layout, run five ways, against numpy bit by bit; non-trivial = more than one element", lambda c: c[1].size > 1, quick=900, thorough=20000, shards_quick=2, shards_thorough=6),
    Sub("constants", constants, run_constants, "several constants per graph from every kind of source, equal bytes under other types and shapes included", lambda c: np.size(c[1]) > 1 or len(c[3]) > 0, quick=300, thorough=6000, shards_quick=1, shards_thorough=4),
    Sub("elementwise", elementwise, run_elementwise, "elementwise functions over tensors and scalars, one or several results, against numpy", lambda c: max(x.size for x in c[1]) > 1, quick=220, thorough=4000, shards_quick=2, shards_thorough=6),
    Sub("numeric", numeric, run_numeric, "18 numeric functions in six calling forms against jax called directly", lambda c: c[1].size > 1, quick=350, thorough=6000, shards_quick=3, shards_thorough=8),
    Sub("bitcast", casts, run_cast, "arrays read as another element type, bit by bit; what does not fit is refused; non-trivial = more than one element", lambda c: c[0].size > 1, quick=120, thorough=3000, shards_thorough=4),
]
KNOWN = []
