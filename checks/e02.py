"""E02: declared types describe run-time values; ill-typed programs are refused when built."""

from __future__ import annotations

import datetime as dt

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.tensor_impl import TensorValue
from mplang.backends.table_impl import TableValue
from mplang.dialects import crypto, dtypes, field, func, simp, table, tensor
from mplang.edsl import typing as elt
from mplang.edsl.tracer import trace
from mplang.runtime.interpreter import InterpObject, Interpreter
from mplang.tool import program as tool
from vf import gen, prog
from vf.core import Sub, check, label
from vf.gen import arrays

PROPERTY = "E02"
ASSUMPTIONS = [
    "the result type of a SQL query, of a file read and of a decryption is stated by the caller and not the system's declaration",
    "compiled numeric functions with unknown dimensions need an external tool (stablehlo-opt) that is not installed; only structural operations are run with unknown dimensions",
]


def matches(t, v):
    """None if run-time value v is described by declared type t."""
    if isinstance(v, TensorValue):
        v = v.unwrap()
    if isinstance(v, TableValue):
        v = v.data
        if not isinstance(t, elt.TableType):
            return f"a table declared as {t}"
        names = list(t.schema)
        if v.column_names != names:
            return f"columns {v.column_names} declared as {names}"
        for n in names:
            a = v.schema.field(n).type
            try:
                got = dtypes.from_arrow(a)
            except ValueError:
                return f"column {n!r} of arrow type {a} declared as {t.schema[n]}"
            if got != t.schema[n]:
                return f"column {n!r} of arrow type {a} declared as {t.schema[n]}"
        if t.nrows >= 0 and t.nrows != v.num_rows:
            return f"{v.num_rows} rows declared as {t}"
        return None
    v = np.asarray(v)
    if isinstance(t, elt.ScalarType):
        want, shape = t, ()
    elif isinstance(t, elt.TensorType):
        want, shape = t.element_type, t.shape
    else:
        return f"an array declared as {t}"
    if v.dtype == object:
        return f"an object array declared as {t}"
    if dtypes.from_dtype(v.dtype) != want:
        return f"element type {v.dtype} declared as {t}"
    if len(shape) != v.ndim or any(d != -1 and d != s for d, s in zip(shape, v.shape)):
        return f"shape {v.shape} declared as {t}"
    return None


def agree(t, v, how):
    r = matches(t, v)
    check(r is None, lambda: f"{how}: {r}")


def ty(a, shape=None):
    return elt.TensorType(dtypes.from_dtype(a.dtype), tuple(a.shape if shape is None else shape))


# ---- random programs: every intermediate value --------------------------------------


def run_programs(case):
    plan, vals, out = prog.resolve(case)
    f = prog.function(plan, out, all_values=True)
    nofunc = not prog.has(plan, "func")
    ctx = Interpreter()
    with ctx:
        xs = [tensor.constant(a) for a in case[0]]
        t = mp.compile(f, *xs)
        got = ctx.evaluate_graph(t.graph, [x.runtime_obj for x in xs])
        check(len(got) == len(t.graph.outputs), "number of results")
        for o, v in zip(t.graph.outputs, got):
            agree(o.type, v, "traced program")
        objs = mp.evaluate(t, *xs)
        for o in objs:
            agree(o.type, o.runtime_obj, "result of evaluating a trace")
        if nofunc:
            for o in mp.evaluate(f, *xs):
                agree(o.type, o.runtime_obj, "eager result")
    for s in plan:
        label(s[0])


# ---- unknown dimensions ------------------------------------------------------------------

STRUCT = ["transpose", "reshape", "concat", "gather", "slice", "const"]


def dyn():
    return st.tuples(prog.cases(STRUCT, 6), st.lists(st.integers(0, 255), min_size=3, max_size=3))


def run_dyn(c):
    case, masks = c
    plan, vals, out = prog.resolve(case)
    f = prog.function(plan, out, all_values=True)
    decl = [tuple(-1 if m >> i & 1 else d for i, d in enumerate(a.shape)) for a, m in zip(case[0], masks)]
    objs = [InterpObject(TensorValue(a), ty(a, s), None) for a, s in zip(case[0], decl)]
    t = trace(f, *objs)
    got = Interpreter().evaluate_graph(t.graph, [TensorValue(a) for a in case[0]])
    want = list(vals)
    for o, v, w in zip(t.graph.outputs, got, want):
        agree(o.type, v, f"inputs declared {decl}")
    r = prog.close(want, [v.unwrap() for v in got])
    check(r is None, lambda: f"inputs declared {decl}: {r}")
    label("unknown dims" if any(-1 in s for s in decl) else "static")


# ---- elementwise over scalars and tensors, captured parameters --------------------------------


def elw():
    @st.composite
    def go(draw):
        d = draw(st.sampled_from(prog.DTYPES))
        shp = draw(gen.shapes(max_rank=3, max_side=3, min_side=1))
        kinds = draw(st.lists(st.sampled_from(["tensor", "scalar", "dyn"]), min_size=1, max_size=3))
        xs = [draw(arrays([d], shape=() if k == "scalar" else shp, allow_nan=False)) for k in kinds]
        return xs, kinds, draw(st.sampled_from(["first", "sum", "cmp", "cast", "pair", "nest", "kw"]))

    return go()


def run_elw(c):
    xs, kinds, how = c

    def body(*es, k=None):
        if how == "first":
            return es[0]
        if how == "pair":
            return tensor.run_jax(lambda *v: (v[0], v[-1] > v[0]), *es)
        if how == "nest":
            return {"a": tensor.run_jax(lambda *v: v[0] * v[-1], *es), "b": [es[-1]]}
        if how == "cmp":
            return tensor.run_jax(lambda *v: v[0] == v[-1], *es)
        if how == "cast":
            return tensor.run_jax(lambda *v: v[0].astype("float32"), *es)
        return tensor.run_jax(lambda *v: v[0] + v[-1], *es)

    def f(*a):
        return tensor.elementwise(body, *a)

    objs = [InterpObject(TensorValue(x), ty(x, [-1] * x.ndim if k == "dyn" else None), None) for x, k in zip(xs, kinds)]
    shapes = {o.type.shape for o in objs if o.type.shape}
    try:
        t = trace(f, *objs)
    except ValueError:
        check(len(shapes) > 1, "tensors of one shape refused")
        label("mixed shapes refused")
        return
    got = Interpreter().evaluate_graph(t.graph, [TensorValue(x) for x in xs])
    for o, v in zip(t.graph.outputs, got):
        agree(o.type, v, f"elementwise {how}")
    label(how)


# ---- protocol building blocks ---------------------------------------------------------------


def blocks():
    n = st.integers(1, 6)
    return st.tuples(st.sampled_from(["hash", "hash_batch", "random_tensor", "random_bits", "random_bytes", "aes", "mul", "point", "ldpc", "okvs", "okvs_opt"]), n, n, st.integers(1, 4), st.sampled_from(["u8", "i8", "u16", "i16", "i32", "u32", "i64", "u64", "f32", "f64"]), st.booleans())


def run_blocks(c):
    kind, a, b, k, d, eager = c
    dtype = getattr(elt, d)
    u64 = lambda *s: tensor.constant((np.arange(int(np.prod(s)), dtype=np.uint64) * np.uint64(0x9E3779B97F4A7C15) + np.uint64(7)).reshape(s))

    def f():
        if kind == "hash":
            return crypto.hash_bytes(tensor.constant(np.zeros((a, b), np.uint8)))
        if kind == "hash_batch":
            shp = [(a,), (a, max(b, 1)), (k, a, max(b, 1))][k % 3]
            return crypto.hash_batch(tensor.constant(np.zeros(shp, np.uint8)))
        if kind == "random_tensor":
            return crypto.random_tensor(((max(a, 1), max(b, 1)), (max(a, 1),))[k % 2], dtype)
        if kind == "random_bits":
            return crypto.random_bits(max(1, a * b + k))
        if kind == "random_bytes":
            return crypto.random_bytes(a * b + k)
        if kind == "aes":
            return field.aes_expand(u64(a + 1, 2), k)
        if kind == "mul":
            return field.mul(u64(a + 1, 2), u64(a + 1, 2))
        if kind == "point":
            g = crypto.ec_generator()
            if k % 2:
                g = crypto.ec_mul(g, crypto.ec_random_scalar())
            return crypto.ec_point_to_bytes(crypto.ec_sub(g, g) if k == 4 else crypto.ec_add(g, g))
        if kind == "ldpc":
            n = a + 2
            idx = tensor.constant(np.arange(n, dtype=np.uint64))
            ptr = tensor.constant(np.arange(n + 1, dtype=np.uint64))
            return field.ldpc_encode(u64(n, 2), idx, ptr, n, n)
        n = 10 + a
        keys = tensor.constant(np.arange(1, n + 1, dtype=np.uint64) * np.uint64(77777))
        seed = u64(2)
        m = 128 + 2 * n
        if kind == "okvs":
            s = field.solve_okvs(keys, u64(n, 2), m, seed)
            return s, field.decode_okvs(keys, s, seed)
        m = 4096
        s = field.solve_okvs_opt(keys, u64(n, 2), m, seed)
        return s, field.decode_okvs_opt(keys, s, seed)

    ctx = Interpreter()
    with ctx:
        if eager:
            r = mp.evaluate(f)
            objs = list(r) if isinstance(r, tuple) else [r]
            pairs = [(o.type, o.runtime_obj) for o in objs]
        else:
            t = mp.compile(f)
            pairs = list(zip([o.type for o in t.graph.outputs], ctx.evaluate_graph(t.graph, [])))
    for t_, v in pairs:
        agree(t_, v, kind)
    label(kind)


# ---- tables --------------------------------------------------------------------------------

CELLS = {
    "int": st.integers(-(2**40), 2**40), "float": st.floats(allow_nan=False, width=64), "bool": st.booleans(), "str": st.text(max_size=4),
    "bytes": st.binary(max_size=4), "time": st.datetimes(min_value=dt.datetime(1970, 1, 1), max_value=dt.datetime(2100, 1, 1)).map(lambda d: d.replace(microsecond=0)),
}
NPCOL = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool"]


def tables():
    @st.composite
    def go(draw):
        form = draw(st.sampled_from(["lists", "numpy", "pandas", "arrow"]))
        n = draw(st.integers(1, 4))
        cols = {}
        for i in range(draw(st.integers(1, 4))):
            name = draw(st.sampled_from(["a", "b", "c", "long name", "É", "0"])) + (str(i) if i else "")
            if form == "numpy":
                cols[name] = draw(arrays(NPCOL, shape=(n,), allow_nan=False))
            else:
                k = draw(st.sampled_from(sorted(CELLS)))
                vals = draw(st.lists(st.one_of(CELLS[k], CELLS[k], CELLS[k], st.none()), min_size=n, max_size=n))
                if all(v is None for v in vals):
                    vals[0] = draw(CELLS[k])
                cols[name] = vals
        index = draw(st.sampled_from(["default", "shifted", "named"]))
        return form, cols, index, draw(st.booleans())

    return go()


def run_tables(c):
    import pandas as pd
    import pyarrow as pa

    form, cols, index, eager = c
    if form == "arrow":
        data = pa.table(cols)
    elif form == "pandas":
        data = pd.DataFrame(cols)
        if index != "default":
            data.index = pd.Index([10 * i + 5 for i in range(len(data))], name="row" if index == "named" else None)
    else:
        data = cols
    ctx = Interpreter()
    with ctx:
        if eager:
            o = mp.evaluate(lambda: table.constant(data))
            pair = (o.type, o.runtime_obj)
        else:
            t = mp.compile(lambda: table.constant(data))
            pair = (t.graph.outputs[0].type, ctx.evaluate_graph(t.graph, [])[0])
    agree(*pair, f"table constant from {form}")
    label(form)


def t2t():
    @st.composite
    def go(draw):
        d = draw(st.sampled_from(NPCOL))
        n = draw(st.integers(1, 4))
        k = draw(st.integers(1, 3))
        return [draw(arrays([d], shape=(n,), allow_nan=False)) for _ in range(k)], draw(st.sampled_from([None, "n", -1])), draw(st.booleans())

    return go()


def run_t2t(c):
    cols, rows, back = c
    import pyarrow as pa

    n = len(cols[0])
    data = pa.table({f"c{i}": x for i, x in enumerate(cols)})
    ctx = Interpreter()
    with ctx:
        def f():
            x = table.table2tensor(table.constant(data), number_rows=n if rows == "n" else rows)
            return (x, table.tensor2table(x, column_names=[f"d{i}" for i in range(len(cols))])) if back else (x,)

        t = mp.compile(f)
        for o, v in zip(t.graph.outputs, ctx.evaluate_graph(t.graph, [])):
            agree(o.type, v, "table/tensor conversion")
    label(str(cols[0].dtype))


# ---- ill-typed uses ---------------------------------------------------------------------------


def bad():
    return st.tuples(st.sampled_from(sorted(BAD)), arrays(["int64", "float32", "bool"], max_rank=3, max_side=3, min_side=1, allow_nan=False), st.integers(1, 5), st.integers(0, 10))


def _perm(x, k, j):
    p = list(range(x.ndim))
    return tuple(([*p, 0], p[:-1] or [0, 1], [*p[:-1], x.ndim + k] or [k], [*p[:-1], -1] if x.ndim > 1 else [5], [p[0]] * x.ndim if x.ndim > 1 else [1])[j % 5])


def _ip(x, parties=None):
    t = ty(x)
    return InterpObject(TensorValue(x), elt.MPType(t, parties) if parties is not None else t, None)


def _simp(f):
    return lambda x, k, j: f(_ip(x, (0, 1, 2)), x, k, j)


def ident(v):
    return tensor.run_jax(lambda a: a, v)


def _reuse(x, y, packed):
    with Interpreter():
        f = lambda v: tensor.transpose(v, tuple(range(len(v.type.shape))))
        t = mp.compile(f, tensor.constant(x))
        if packed:
            t = tool.unpack(tool.pack(tool.compile_program(f, tensor.constant(x))))
        mp.evaluate(t, tensor.constant(y))
        return t


BAD = {
    "transpose": lambda x, k, j: trace(lambda v: tensor.transpose(v, _perm(x, k, j)), _ip(x)),
    "reshape size": lambda x, k, j: trace(lambda v: tensor.reshape(v, (x.size + k,)), _ip(x)),
    "reshape two unknown": lambda x, k, j: trace(lambda v: tensor.reshape(v, (-1, -1)), _ip(x)),
    "reshape indivisible": lambda x, k, j: trace(lambda v: tensor.reshape(v, (-1, x.size + k)), _ip(x)),
    "concat axis": lambda x, k, j: trace(lambda v: tensor.concat([v, v], axis=[x.ndim, -x.ndim - 1, x.ndim + k][j % 3]), _ip(x)),
    "concat dtype": lambda x, k, j: trace(lambda v, w: tensor.concat([v, w]), _ip(x), _ip(x.astype("uint8"))),
    "concat rank": lambda x, k, j: trace(lambda v, w: tensor.concat([v, w]), _ip(x), _ip(x[None])),
    "concat shape": lambda x, k, j: trace(lambda v, w: tensor.concat([v, w], axis=0), _ip(np.zeros((2, 3))), _ip(np.zeros((2, 3 + k)))),
    "gather axis": lambda x, k, j: trace(lambda v, i: tensor.gather(v, i, axis=[x.ndim, -x.ndim - 1][j % 2]), _ip(x), _ip(np.zeros(2, np.int64))),
    "gather index type": lambda x, k, j: trace(lambda v, i: tensor.gather(v, i, axis=0), _ip(np.zeros((2, 3))), _ip(np.zeros(k, ["float32", "bool", "float64", "int8", "uint8", "int16"][j % 6]))),
    "slice rank": lambda x, k, j: trace(lambda v: tensor.slice_tensor(v, (0,) * (x.ndim + k), (1,) * (x.ndim + k)), _ip(x)),
    "slice stride": lambda x, k, j: trace(lambda v: tensor.slice_tensor(v, (0,), (1,), (-(j % 3),)), _ip(np.zeros(k))),
    "elementwise shapes": lambda x, k, j: trace(lambda v, w: tensor.elementwise(lambda a, b: a, v, w), _ip(np.zeros((2, k))), _ip(np.zeros((2, k + 1)))),
    "elementwise capture": lambda x, k, j: trace(lambda v, w: tensor.elementwise(lambda a: tensor.run_jax(lambda p, q: p + q, a, w), v), _ip(np.zeros(k)), _ip(np.float64(1))),
    "elementwise constant": lambda x, k, j: trace(lambda v: tensor.elementwise(lambda a: 5, v), _ip(x)),
    "pcall parties": _simp(lambda o, x, k, j: trace(lambda v: simp.pcall_static((j % 3, 2 + k), ident, v), o)),
    "pcall disjoint": lambda x, k, j: trace(lambda v, w: simp.pcall_static((0, 1), lambda a, b: a, v, w), _ip(x, (0,)), _ip(x, (1,))),
    "converge overlap": lambda x, k, j: trace(lambda v, w: simp.converge(v, w), _ip(x, (0, 1)), _ip(x, (1, 2))),
    "converge types": lambda x, k, j: trace(lambda v, w: simp.converge(v, w), _ip(x, (0,)), _ip(x[None], (1,))),
    "shuffle source": _simp(lambda o, x, k, j: trace(lambda v: simp.shuffle_static(v, {0: 2 + k}), o)),
    "cond predicate type": _simp(lambda o, x, k, j: trace(lambda v: simp.uniform_cond(simp.pcall_static((0, 1, 2), lambda a: tensor.constant([True, False]), v), lambda a: a, lambda a: a, v), o)),
    "cond branches": _simp(lambda o, x, k, j: trace(lambda v: simp.uniform_cond(simp.pcall_static((0, 1, 2), lambda a: tensor.constant(True), v), lambda a: a, [lambda a: (a, a), lambda a: simp.pcall_static((0, 1, 2), lambda b: tensor.constant(np.zeros((7, 7))), a)][j % 2], v), o)),
    "loop body": _simp(lambda o, x, k, j: trace(lambda v: simp.while_loop(lambda c: simp.pcall_static((0, 1, 2), lambda a: tensor.constant(False), c), [lambda c: (c, c), lambda c: simp.pcall_static((0, 1, 2), lambda b: tensor.constant(np.zeros((7, 7))), c), lambda c: 3][j % 3], v), o)),
    "loop condition": _simp(lambda o, x, k, j: trace(lambda v: simp.while_loop(lambda c: simp.pcall_static((0, 1, 2), lambda a: tensor.constant([True, True]), c), lambda c: c, v), o)),
    "table mixed": lambda x, k, j: trace(lambda: table.table2tensor(table.constant({"a": [1], "b": [["x", 1.5, True][j % 3]]}))),
    "table rows": lambda x, k, j: trace(lambda: table.table2tensor(table.constant({"a": [1]}), number_rows=[0, -2, -1 - k][j % 2])),
    "table names": lambda x, k, j: trace(lambda v: table.tensor2table(v, column_names=[["a"] * 2, ["a", " "], ["a"], ["a", "b", "c"], []][j % 5]), _ip(np.zeros((k, 2)))),
    "table rank": lambda x, k, j: trace(lambda v: table.tensor2table(v, column_names=["a"]), _ip(np.zeros([(1,), (k, 1, 1), ()][j % 3]))),
    "write columns": lambda x, k, j: trace(lambda: table.write([table.constant({"a": [1]}), table.constant({"a": [2]})], "f")),
    "read schema": lambda x, k, j: trace(lambda: table.read(["f", ""][j % 2], schema=[None, elt.TableType({"a": elt.i64})][j % 2])),
    "hash_batch": lambda x, k, j: trace(lambda: crypto.hash_batch(crypto.ec_generator())),
    "call types": lambda x, k, j: trace(lambda v, w: func.call(func.func(lambda a: a, v), w), _ip(x), _ip([x[None], x.astype("uint16"), np.zeros(x.shape + (k,))][j % 3])),
    "call arity": lambda x, k, j: trace(lambda v: func.call(func.func(lambda *a: a, *[v] * k), *[v] * (k + [1, -1][j % 2])), _ip(x)),
    "reuse types": lambda x, k, j: _reuse(x, [x[None], x.astype("uint16"), x.astype("float64") if x.dtype != np.float64 else x.astype("int64"), np.zeros(x.shape + (k,))][j % 4], j > 5),
    "hkdf": lambda x, k, j: trace(lambda: crypto.hkdf(crypto.random_bytes(8), ["", None, 5][j % 3])),
}


def run_bad(c):
    kind, x, k, j = c
    try:
        t = BAD[kind](x, k, j)
    except Exception:
        label(kind)
        return
    check(False, lambda: f"{kind}: accepted as {t.graph}")


SUBS = [
    Sub("programs", lambda: prog.cases(), run_programs, "random tensor programs; every value of the program compared with its declaration, traced and eager; non-trivial = two operations", prog.interesting, quick=150, thorough=3000, shards_quick=3, shards_thorough=8),
    Sub("dynamic", dyn, run_dyn, "structural programs whose inputs are declared with unknown dimensions", lambda c: prog.interesting(c[0]) and any(c[1]), quick=300, thorough=6000, shards_quick=1, shards_thorough=4),
    Sub("elementwise", elw, run_elw, "elementwise functions over tensors, rank-0 tensors and unknown shapes, with one or several results", lambda c: c[0][0].size > 0, quick=200, thorough=4000, shards_quick=1, shards_thorough=4),
    Sub("blocks", blocks, run_blocks, "hashing, randomness, field and store kernels, curve points, eager and traced", quick=200, thorough=3000, shards_quick=1, shards_thorough=4),
    Sub("tables", tables, run_tables, "table constants from lists, numpy, pandas (any index) and arrow, with nulls", quick=250, thorough=5000, shards_quick=1, shards_thorough=4),
    Sub("convert", t2t, run_t2t, "table to tensor and back for every numeric type and row-count declaration", quick=150, thorough=3000, shards_quick=1, shards_thorough=2),
    Sub("refused", bad, run_bad, "35 classes of ill-typed construction with drawn shapes and parameters", lambda c: c[1].ndim > 0, quick=400, thorough=6000, shards_quick=1, shards_thorough=4),
]
KNOWN = []
