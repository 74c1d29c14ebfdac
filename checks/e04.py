"""E04: type identity, hashing, printing, serialization and validation."""

from __future__ import annotations

import json

import numpy as np
from hypothesis import strategies as st

from mplang.dialects import bfv, crypto, dtypes, phe, tee
from mplang.edsl import serde
from mplang.edsl import typing as elt
from vf.core import Sub, check, label

PROPERTY = "E04"
ASSUMPTIONS = ["whether tables differing only in column order are equal types is left open; equal ones must hash alike",
               "PHE types have no wire form in this codebase and are only compared and hashed"]

NAMES = ["a", "b", "id", "", "Z", "é", "a b", "10", "9", "_kind", "items", "columns", "schema", "a'"]

SCALARS = st.one_of(
    st.tuples(st.just("int"), st.sampled_from([2**k for k in range(0, 13)]), st.booleans()),
    st.tuples(st.just("float"), st.sampled_from([16, 32, 64, 128])),
    st.tuples(st.just("complex"), st.sampled_from([16, 32, 64, 128])),
)
VEC = st.tuples(st.just("vec"), SCALARS, st.one_of(st.integers(1, 5), st.sampled_from([4096, 2**40])))
LEAF = st.one_of(
    SCALARS, SCALARS,
    st.tuples(st.just("custom"), st.sampled_from(["string", "date", "x", "Custom[x]", " y", "i32", "数"])),
    st.tuples(st.sampled_from(["point", "escalar", "priv", "pub", "sym", "att"]), st.sampled_from(["secp256k1", "x25519", "", "p"])),
    st.tuples(st.sampled_from(["quote", "meas"])),
    st.tuples(st.just("bkey"), st.sampled_from(["Public", "Private", "Relin", "Galois", "public"]), st.sampled_from([4096, 8192])),
    st.tuples(st.just("benc"), st.sampled_from([4096, 8192, 16384])),
    st.tuples(st.sampled_from(["bpt", "bct"]), VEC),
    VEC,
    st.tuples(st.just("pkey"), st.sampled_from(["paillier", "elgamal"]), st.booleans()),
    st.tuples(st.just("ppt"), st.sampled_from([64, 128])),
    st.tuples(st.just("pct"), st.sampled_from(["paillier", "elgamal"])),
)
DIM = st.one_of(st.just(-1), st.integers(1, 4), st.just(2**33))


def grow(c):
    return st.one_of(
        st.tuples(st.just("tensor"), c, st.lists(DIM, max_size=4).map(tuple)),
        st.tuples(st.just("table"), st.lists(st.tuples(st.sampled_from(NAMES), c), max_size=4, unique_by=lambda p: p[0]).map(tuple), st.one_of(st.just(-1), st.integers(1, 3))),
        st.tuples(st.just("ss"), c, st.sampled_from(["ss", "spu", "", "aby3"])),
        st.tuples(st.just("mp"), c, st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=4, unique=True).map(tuple))),
    )


SPEC = st.recursive(LEAF, grow, max_leaves=6)


def build(s):
    k = s[0]
    if k == "int":
        return elt.IntegerType(bitwidth=s[1], signed=s[2])
    if k == "float":
        return elt.FloatType(bitwidth=s[1])
    if k == "complex":
        return elt.ComplexType(inner_type=elt.FloatType(bitwidth=s[1]))
    if k == "vec":
        return elt.VectorType(build(s[1]), s[2])
    if k == "custom":
        return elt.CustomType(s[1])
    if k in ("point", "escalar", "priv", "pub", "sym", "att"):
        return {"point": crypto.PointType, "escalar": crypto.ScalarType, "priv": crypto.PrivateKeyType, "pub": crypto.PublicKeyType, "sym": crypto.SymmetricKeyType, "att": tee.AttestedKeyType}[k](s[1])
    if k == "quote":
        return tee.QuoteType()
    if k == "meas":
        return tee.MeasurementType()
    if k == "bkey":
        return bfv.KeyType(s[1], s[2])
    if k == "benc":
        return bfv.EncoderType(s[1])
    if k in ("bpt", "bct"):
        return (bfv.PlaintextType if k == "bpt" else bfv.CiphertextType)(build(s[1]))
    if k == "pkey":
        return phe.KeyType(s[1], s[2])
    if k == "ppt":
        return phe.PlaintextType(s[1])
    if k == "pct":
        return phe.CiphertextType(s[1])
    if k == "tensor":
        return elt.TensorType(build(s[1]), tuple(s[2]))
    if k == "table":
        return elt.TableType({n: build(c) for n, c in s[1]}, s[2])
    if k == "ss":
        return elt.SSType(build(s[1]), s[2])
    if k == "mp":
        return elt.MPType(build(s[1]), s[2])
    raise AssertionError(k)


def canon(s):
    """Specs with equal canon must be equal types; specs with equal `meaning` but another column order are left open."""
    if isinstance(s, tuple) and s and s[0] == "table":
        return ("table", tuple(sorted((n, canon(c)) for n, c in s[1])), s[2])
    if isinstance(s, tuple):
        return tuple(canon(x) for x in s)
    if isinstance(s, bool):
        return f"b{s}"
    return repr(s)


def wired(s):
    return not (isinstance(s, tuple) and (s[:1] in (("pkey",), ("ppt",), ("pct",)) or any(wired(x) is False for x in s if isinstance(x, tuple))))


def mutate(draw, s):
    """A spec one parameter away from s."""
    if s[0] in ("tensor", "ss", "mp", "table", "vec", "bpt", "bct") and draw(st.booleans()):
        kids = [i for i, x in enumerate(s) if isinstance(x, tuple) and x and isinstance(x[0], str)]
        if s[0] == "table" and s[1]:
            i = draw(st.integers(0, len(s[1]) - 1))
            cols = list(s[1])
            cols[i] = (cols[i][0], mutate(draw, cols[i][1]))
            return ("table", tuple(cols), s[2])
        if kids:
            i = draw(st.sampled_from(kids))
            if s[0] == "vec":
                return ("vec", draw(SCALARS), s[2])
            if s[0] in ("bpt", "bct"):
                return (s[0], draw(VEC))
            return (*s[:i], mutate(draw, s[i]), *s[i + 1:])
    return draw(LEAF if s[0] not in ("tensor", "ss", "mp", "table") else st.one_of(
        st.tuples(st.just("tensor"), st.just(s[1]), st.lists(DIM, max_size=3).map(tuple)) if s[0] != "table" else st.just(("table", s[1], 7)),
        st.tuples(st.just("ss"), st.just(s[1]), st.sampled_from(["ss", "spu"])) if s[0] != "table" else st.just(("table", s[1][:-1], s[2])),
        st.tuples(st.just("mp"), st.just(s[1]), st.sampled_from([None, (), (0,), (0, 1), (1, 0)])) if s[0] != "table" else st.just(("table", s[1][::-1], s[2])),
    )) if s[0] != "vec" else draw(VEC)


@st.composite
def pairs(draw):
    a = draw(SPEC)
    r = draw(st.integers(0, 3))
    b = a if r == 0 else mutate(draw, a) if r < 3 else draw(SPEC)
    return a, b


def run_pairs(case):
    sa, sb = case
    a, a2, b = build(sa), build(sa), build(sb)
    check(a == a2 and not (a != a2), f"two {a} built alike differ")
    check(hash(a) == hash(a2), f"{a}: equal types hash apart")
    check(str(a) == str(a2) and repr(a) == repr(a2), f"{a} prints in two ways")
    check((a == b) == (b == a), f"== is not symmetric for {a} and {b}")
    check((a == b) != (a != b), f"== and != agree for {a} and {b}")
    if canon(sa) != canon(sb):
        label("different")
        check(a != b, f"{sa} and {sb} are different types but compare equal")
        check(len({a, b}) == 2, f"{a} and {b} share a set slot")
    elif sa == sb:
        label("same")
        check(a == b)
    else:
        label("column order")
    if a == b:
        check(hash(a) == hash(b), f"equal types {a} and {b} hash apart")
        check({a: 1}.get(b) == 1, "not interchangeable as a key")
    check(a != None and a != str(a) and a != 3, f"{a} equals a non-type")  # noqa: E711


FORMS = {
    "json": lambda t: serde.from_json(serde.to_json(t)),
    "sorted text": lambda t: serde.from_json(json.loads(json.dumps(serde.to_json(t), sort_keys=True))),
    "bytes": lambda t: serde.loads(serde.dumps(t)),
    "raw": lambda t: serde.loads(serde.dumps(t, compress=False), compressed=False),
    "b64": lambda t: serde.loads_b64(serde.dumps_b64(t)),
    "binary": lambda t: serde.loads_binary(serde.dumps_binary(t)),
    "in a list": lambda t: serde.loads(serde.dumps([t, {"k": t}]))[1]["k"],
}


def run_wire(spec):
    t = build(spec)
    s0, h0 = str(t), hash(t)
    for n, f in FORMS.items():
        u = f(t)
        check(type(u) is type(t), f"{n}: {t} became a {type(u).__name__}")
        check(u == t and t == u, f"{n}: {t} became {u}")
        check(hash(u) == hash(t) and {t: 1}.get(u) == 1, f"{n}: {t} hashes apart after the trip")
        check(str(u) == s0 and repr(u) == repr(t), f"{n}: {s0} prints {u} after the trip")
        for attr in ("parties", "shape", "enc_schema", "nrows", "bitwidth", "signed", "size", "kind", "curve", "suite", "poly_modulus_degree"):
            if hasattr(t, attr):
                x, y = getattr(t, attr), getattr(u, attr)
                check(type(x) is type(y) and x == y, f"{n}: {attr} {x!r} became {y!r}")
        if isinstance(t, elt.TableType):
            check(list(u.schema) == list(t.schema), f"{n}: columns reordered")
    check(str(t) == s0 and hash(t) == h0, "serializing changed the type")
    label(spec[0])


BAD = st.one_of(
    st.tuples(st.just("int"), st.integers(-9, 4096).filter(lambda b: b <= 0 or b & (b - 1)), st.booleans()),
    st.tuples(st.just("float"), st.integers(-3, 300).filter(lambda b: b not in (16, 32, 64, 128))),
    st.tuples(st.just("tensor"), LEAF, st.lists(DIM, max_size=3).flatmap(lambda l: st.tuples(st.integers(0, len(l)), st.sampled_from([0, -2, -7, 1.0, 2.5, "3", None])).map(lambda p: (*l[:p[0]], p[1], *l[p[0]:])))),
    st.tuples(st.just("table"), st.just((("a", ("int", 32, True)),)), st.sampled_from([0, -2, -5, 1.0, "1", None])),
    st.tuples(st.just("vec"), SCALARS, st.sampled_from([0, -1, -3, 1.5, "2"])),
    st.tuples(st.just("vec"), LEAF.filter(lambda s: s[0] not in ("int", "float", "complex", "ppt", "pct")), st.just(3)),
    st.tuples(st.just("custom"), st.sampled_from(["", " ", "\t\n", None, 3, b"x"])),
    st.tuples(st.sampled_from(["listshape", "noelem", "intinner"])),
)


def run_bad(s):
    try:
        if s[0] == "listshape":
            t = elt.TensorType(elt.i32, [2])
        elif s[0] == "noelem":
            t = elt.TensorType("i32", (2,))
        elif s[0] == "intinner":
            t = elt.ComplexType(inner_type=elt.i32)
        else:
            t = build(s)
    except (ValueError, TypeError):
        label(s[0])
        return
    check(False, f"invalid parameters {s} accepted as {t}")


NP = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64", "complex64", "complex128"]


def dts():
    return st.tuples(st.sampled_from(NP), st.sampled_from(["dtype", "class", "name", "jax", "big", "jaxarr"]))


def run_dts(c):
    import jax.numpy as jnp

    n, how = c
    d = np.dtype(n)
    x = {"dtype": d, "class": d.type, "name": n, "jax": getattr(jnp, n if n != "bool" else "bool_"), "big": d.newbyteorder(">"), "jaxarr": jnp.zeros(1, d).dtype}[how]
    t = dtypes.from_dtype(x)
    want = elt.bool_ if n == "bool" else elt.ComplexType(inner_type=elt.FloatType(bitwidth=d.itemsize * 4)) if d.kind == "c" else elt.FloatType(bitwidth=d.itemsize * 8) if d.kind == "f" else elt.IntegerType(bitwidth=d.itemsize * 8, signed=d.kind == "i")
    check(t == want, f"{how} {n} is read as {t}")
    check(dtypes.to_numpy(t) == d, f"{t} is written as {dtypes.to_numpy(t)}, not {d}")
    check(np.dtype(dtypes.to_jax(t)) == d, "to_jax differs")
    if d.kind != "c":
        import pandas as pd
        import pyarrow as pa

        check(dtypes.from_arrow(pa.from_numpy_dtype(d)) == want, f"arrow {n}")
        check(dtypes.from_pandas(pd.Series(np.zeros(1, d)).dtype) == want, f"pandas {n}")


def deep(s):
    return isinstance(s, tuple) and len(s) > 2


SUBS = [
    Sub("identity", pairs, run_pairs, "pairs of type expressions: equal, one parameter apart, or independent; non-trivial = composite", lambda c: deep(c[0]), quick=3000, thorough=60000, shards_thorough=4),
    Sub("wire", lambda: SPEC.filter(wired), run_wire, "type expressions through seven encodings; non-trivial = composite", deep, quick=1500, thorough=30000, shards_thorough=4),
    Sub("invalid", lambda: BAD, run_bad, "constructor arguments outside the documented ranges", quick=600, thorough=5000, shards_thorough=1),
    Sub("dtypes", dts, run_dts, "every numpy/jax element type in every spelling to a type and back", quick=300, thorough=300, shards_thorough=1),
]
KNOWN = []
