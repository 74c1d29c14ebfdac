"""S01: serialization round-trips in every wire format."""

from __future__ import annotations

import json

import numpy as np
import pyarrow as pa
from hypothesis import strategies as st

import mplang as mp
from mplang.backends.table_impl import TableValue
from mplang.backends.tensor_impl import TensorValue
from mplang.edsl import serde
from vf import prog
from vf.core import Sub, check, label
from vf.gen import LAYOUTS, arrays, relayout, same

PROPERTY = "S01"
ASSUMPTIONS = ["numpy scalars are documented to come back as Python numbers", "dict key order is compared only where the format keeps it"]

# A case is a tree of plain tuples ("kind", payload); build() turns it into the object serialized.

SCALARS = st.one_of(
    st.just(("none", None)),
    st.booleans().map(lambda v: ("py", v)),
    st.integers(-(2**70), 2**70).map(lambda v: ("py", v)),
    st.sampled_from([2**2048 + 1, -(2**63), 2**63, 2**64 - 1, 0]).map(lambda v: ("py", v)),
    st.floats().map(lambda v: ("py", v)),
    st.text(max_size=12).map(lambda v: ("py", v)),
    st.sampled_from(["", "_kind", "é\u2028\x00", "\U0001f600", '"\\']).map(lambda v: ("py", v)),
    st.binary(max_size=20).map(lambda v: ("py", v)),
    st.sampled_from([b"", b"\x00" * 9, b"\xff\xfe", bytes(range(256))]).map(lambda v: ("py", v)),
)


@st.composite
def ndarrays(draw):
    a = draw(arrays(dtypes=["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"] if draw(st.integers(0, 3)) == 0 else ["bool", "int32", "int64", "uint8", "uint64", "float16", "float32", "float64"]))
    return ("np", a, draw(st.sampled_from(LAYOUTS)))


@st.composite
def npscalars(draw):
    a = draw(arrays(dtypes=["int8", "int64", "uint64", "float32", "float64"], shape=(1,)))
    return ("npscalar", a)


COLS = {
    "int64": st.integers(-(2**63), 2**63 - 1), "int32": st.integers(-5, 5), "float64": st.floats(), "bool": st.booleans(),
    "string": st.text(max_size=5), "binary": st.binary(max_size=5),
}
PA = {"int64": pa.int64(), "int32": pa.int32(), "float64": pa.float64(), "bool": pa.bool_(), "string": pa.string(), "binary": pa.binary()}


@st.composite
def tables(draw):
    names = draw(st.lists(st.text("abcXYZ_0 é", min_size=1, max_size=4), min_size=1, max_size=4, unique=True))
    n = draw(st.integers(0, 6))
    cols = []
    for nm in names:
        t = draw(st.sampled_from(sorted(COLS)))
        cols.append((nm, t, draw(st.lists(st.one_of(st.none(), COLS[t]), min_size=n, max_size=n))))
    return ("table", cols, draw(st.integers(0, 3)), draw(st.booleans()))


def build_table(cols, cut):
    t = pa.table({n: pa.array(v, type=PA[k]) for n, k, v in cols})
    if cut and t.num_rows > 1:  # several chunks
        k = min(cut, t.num_rows - 1)
        t = pa.concat_tables([t.slice(0, k), t.slice(k)])
    return t


LEAF = st.one_of(SCALARS, ndarrays(), npscalars(), tables(), ndarrays().map(lambda a: ("tv", a)), tables().map(lambda a: ("tabv", a)),
                 ndarrays().map(lambda a: ("jax", a)))
HASHABLE = st.one_of(st.text(max_size=4), st.integers(-5, 5), st.booleans(), st.tuples(st.integers(0, 3), st.text(max_size=2)), st.binary(max_size=3))


def tree():
    return st.recursive(
        LEAF,
        lambda c: st.one_of(
            st.lists(c, max_size=4).map(lambda v: ("list", v)),
            st.lists(c, max_size=4).map(lambda v: ("tuple", v)),
            st.lists(st.tuples(st.one_of(st.text(max_size=5), st.sampled_from(["_kind", "items", "v", "bref", ""])), c), max_size=4, unique_by=lambda kv: kv[0]).map(lambda v: ("dict", v)),
            st.lists(st.tuples(HASHABLE, c), max_size=4, unique_by=lambda kv: repr(kv[0])).map(lambda v: ("dict", v)),
            st.lists(c, min_size=1, max_size=4).map(lambda v: ("objarr", v)),
            st.lists(c, min_size=1, max_size=4).map(lambda v: ("tvobj", v)),
        ),
        max_leaves=8,
    )


def build(c):
    k = c[0]
    if k == "none":
        return None
    if k == "py":
        return c[1]
    if k == "np":
        return relayout(c[1], c[2])
    if k == "npscalar":
        return c[1][0]
    if k == "jax":
        import jax.numpy as jnp

        return jnp.asarray(c[1][1])
    if k == "table":
        t = build_table(c[1], c[2])
        if c[3] and all(kk != "binary" for _, kk, _ in c[1]) and all(v is not None for _, _, vs in c[1] for v in vs):
            return t.to_pandas()
        return t
    if k == "tv":
        return TensorValue.wrap(relayout(c[1][1], c[1][2]))
    if k == "tabv":
        return TableValue.wrap(build_table(c[1][1], c[1][2]))
    if k == "list":
        return [build(x) for x in c[1]]
    if k == "tuple":
        return tuple(build(x) for x in c[1])
    if k == "dict":
        return {kk: build(v) for kk, v in c[1]}
    arr = np.empty(len(c[1]), dtype=object)
    for i, x in enumerate(c[1]):
        arr[i] = build(x)
    if len(arr) % 2 == 0 and len(arr) > 2:
        arr = arr.reshape(2, -1)
    if k == "objarr":
        return arr
    if k == "tvobj":
        return TensorValue.wrap(arr)
    raise AssertionError(k)


FORMATS = {
    "dumps": lambda o: serde.loads(serde.dumps(o)),
    "dumps-raw": lambda o: serde.loads(serde.dumps(o, compress=False), compressed=False),
    "b64": lambda o: serde.loads_b64(serde.dumps_b64(o)),
    "b64-raw": lambda o: serde.loads_b64(serde.dumps_b64(o, compress=False), compressed=False),
    "binary": lambda o: serde.loads_binary(serde.dumps_binary(o)),
    "json": lambda o: serde.from_json(json.loads(json.dumps(serde.to_json(o)))),
    "json-direct": lambda o: serde.from_json(serde.to_json(o)),
}


def expect(x):
    """What reading back is documented to give: numpy scalars become Python numbers."""
    if isinstance(x, np.bool_):
        return np.asarray(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    if isinstance(x, list):
        return [expect(v) for v in x]
    if isinstance(x, tuple):
        return tuple(expect(v) for v in x)
    if isinstance(x, dict):
        return {k: expect(v) for k, v in x.items()}
    if isinstance(x, np.ndarray) and x.dtype == object:
        y = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            y[i] = expect(x[i])
        return y
    if isinstance(x, TensorValue) and np.asarray(x.unwrap()).dtype == object:
        return TensorValue.wrap(expect(np.asarray(x.unwrap())))
    return x


def run_tree(case):
    obj = build(case)
    want = expect(build(case))
    label(case[0])
    for name, f in FORMATS.items():
        got = f(obj)
        r = same(want, got)
        check(r is None, f"{name}: {r}")
    # a second reading of the same bytes is equal and independent of the first
    blob = serde.dumps_binary(obj)
    a, b = serde.loads_binary(blob), serde.loads_binary(blob)
    check(same(a, b) is None, "two readings differ")
    r = same(expect(build(case)), expect(obj))
    check(r is None, f"serializing changed the original: {r}")


def depth(c):
    if c[0] in ("list", "tuple", "objarr", "tvobj"):
        return 1 + max([depth(x) for x in c[1]], default=0)
    if c[0] == "dict":
        return 1 + max([depth(x) for _, x in c[1]], default=0)
    return 0


def nt_tree(c):
    return depth(c) >= 1 or c[0] in ("np", "table", "tv", "tabv")


# ---- values of the dialects --------------------------------------------------


@st.composite
def dom(draw):
    k = draw(st.sampled_from(["ecpoint", "kem", "sym", "ct", "bfv", "quote", "share", "bytes", "config"]))
    return (k, draw(st.integers(0, 2**64)), draw(arrays(dtypes=["int64", "float64", "int32"], max_rank=2, max_side=3, min_side=1, allow_nan=False)))


def run_dom(case):
    from mplang.dialects import bfv, crypto, spu, tee, tensor

    kind, k, arr = case
    label(kind)
    val = lambda o: o.runtime_obj
    with mp.Interpreter():
        if kind == "ecpoint":
            vals = [val(crypto.ec_mul(crypto.ec_generator(), crypto.ec_scalar_from_int(tensor.constant(np.int64(k % 2**62 + 1)))))]
        elif kind == "kem":
            sk, pk = crypto.kem_keygen("x25519")
            vals = [val(sk), val(pk)]
        elif kind in ("sym", "ct"):
            sk, _ = crypto.kem_keygen("x25519")
            _, pk = crypto.kem_keygen("x25519")
            key = crypto.hkdf(crypto.kem_derive(sk, pk), str(k))
            vals = [val(key)] if kind == "sym" else [val(crypto.sym_encrypt(key, tensor.constant(arr)))]
        elif kind == "bfv":
            pk, sk = bfv.keygen(poly_modulus_degree=4096)
            vals = [val(pk), val(sk)]
        elif kind == "quote":
            _, pk = crypto.kem_keygen("x25519")
            vals = [val(tee.quote_gen(pk))]
        elif kind == "share":
            vals = [val(s) for s in spu.make_shares(spu.SPUConfig(), tensor.constant(arr), count=2 + k % 3)]
        elif kind == "bytes":
            vals = [val(crypto.random_bytes(1 + k % 40))]
        else:
            vals = [spu.SPUConfig(fxp_fraction_bits=1 + k % 30, enable_hal_profile=bool(k % 2), link_desc=spu.SPULinkDesc(recv_timeout_ms=k % 100000) if k % 3 else None)]
    # (the keys of bfv are large)
    for v in [{"a": tuple(vals)}] if kind == "bfv" else [*vals, list(vals), {"a": tuple(vals)}]:
        want = json.dumps(serde.to_json(v), sort_keys=True)
        for name, f in FORMATS.items():
            got = f(v)
            check(type(got) is type(v), f"{name}: {type(v)} became {type(got)}")
            check(json.dumps(serde.to_json(got), sort_keys=True) == want, f"{name}: {kind} changed")


def fns():
    return st.tuples(prog.cases([o for o in prog.OPS if o != "func"], 5), st.text(max_size=6), st.lists(st.one_of(st.none(), st.text(max_size=5), st.integers(-9, 9)), max_size=5))


def run_fn(case):
    """Values that stand for a function, or for one value at every party."""
    from mplang.backends.func_impl import FunctionValue
    from mplang.backends.simp_driver.values import DriverVar
    from mplang.dialects import dtypes
    from mplang.edsl import typing as elt
    from mplang.edsl.tracer import trace
    from mplang.runtime.interpreter import InterpObject, Interpreter

    c, name, held = case
    plan, vals, out = prog.resolve(c)
    ins = [InterpObject(TensorValue(a), elt.TensorType(dtypes.from_dtype(a.dtype), tuple(a.shape)), None) for a in c[0]]
    g = trace(prog.function(plan, out), *ins).graph
    want = Interpreter().evaluate_graph(g, [TensorValue(a) for a in c[0]])
    for fmt, f in FORMATS.items():
        got = f({"f": FunctionValue(g, name), "d": [DriverVar(list(held))]})
        fn, dv = got["f"], got["d"][0]
        check(isinstance(fn, FunctionValue) and fn.name == name, lambda: f"{fmt}: function {name!r} became {fn!r}")
        check([v.type for v in fn.graph.inputs] == [v.type for v in g.inputs] and [v.type for v in fn.graph.outputs] == [v.type for v in g.outputs], f"{fmt}: types of a function changed")
        r = Interpreter().evaluate_graph(fn.graph, [TensorValue(a) for a in c[0]])
        e = prog.close([v.unwrap() for v in want], [v.unwrap() for v in r])
        check(e is None, lambda: f"{fmt}: a function read back computes {e}")
        check(isinstance(dv, DriverVar) and dv.values == held and dv.world_size == len(held) and all(dv[i] == v for i, v in enumerate(held)), lambda: f"{fmt}: {held} became {dv!r}")
    label("function")


SUBS = [
    Sub("values", tree, run_tree, "nested containers of scalars, bytes, arrays in seven memory layouts, object arrays, tables and run-time values through seven encodings; non-trivial = nested or array/table valued", nt_tree, quick=900, thorough=20000, shards_quick=3, shards_thorough=8),
    Sub("dialect", dom, run_dom, "keys, points, ciphertexts, quotes, shares and configs produced by the real operations; all non-trivial", quick=100, thorough=1000, shards_quick=2, shards_thorough=4),
]
SUBS.append(Sub("functions", fns, run_fn, "functions as values (their graphs) and values of several parties; non-trivial = two operations or more", lambda c: prog.interesting(c[0]), quick=60, thorough=1500))
KNOWN = []
