"""Strategies of plain data and strict comparison shared by the checks."""

from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

NUM_DTYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float16", "float32", "float64"]
INT_DTYPES = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"]


def edge_int(dtype):
    i = np.iinfo(dtype)
    pool = [0, 1, i.max, i.min, i.max - 1, i.max // 2]
    return st.one_of(st.sampled_from([int(x) for x in pool]), st.integers(int(i.min), int(i.max)), st.integers(max(int(i.min), -9), 9))


def elements(dtype, allow_nan=True):
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return st.booleans()
    if dt.kind in "iu":
        return edge_int(dt)
    if dt.kind == "c":
        f = elements(np.dtype(f"float{dt.itemsize * 4}"), allow_nan)
        return st.tuples(f, f).map(lambda p: complex(*p))
    w = dt.itemsize * 8
    return st.one_of(
        st.sampled_from([0.0, -0.0, 1.0, -1.5, 0.25] + ([float("nan"), float("inf"), float("-inf")] if allow_nan else [])),
        # (numbers to compute with: compiled code treats subnormal ones as zero)
        st.floats(width=w, allow_nan=allow_nan, allow_infinity=allow_nan, allow_subnormal=None if allow_nan else False),
    )


def shapes(max_rank=3, max_side=4, min_side=0, min_rank=0):
    return st.lists(st.integers(min_side, max_side), min_size=min_rank, max_size=max_rank).map(tuple)


@st.composite
def arrays(draw, dtypes=NUM_DTYPES, shape=None, max_rank=3, max_side=4, min_side=0, allow_nan=True, min_rank=0):
    """A numpy array (C order); built from one drawn seed list so that big arrays stay cheap."""
    dt = np.dtype(draw(st.sampled_from(list(dtypes))))
    shp = draw(shapes(max_rank, max_side, min_side, min_rank)) if shape is None else shape
    n = int(np.prod(shp)) if shp else 1
    vals = draw(st.lists(elements(dt, allow_nan), min_size=n, max_size=n))
    return np.array(vals, dtype=dt).reshape(shp)


LAYOUTS = ["C", "F", "strided", "reversed", "broadcast", "readonly", "bigendian"]


def relayout(a: np.ndarray, how: str) -> np.ndarray:
    """The same values in another memory layout."""
    if how == "F":
        return np.asarray(a, order="F")
    if how == "strided" and a.ndim:
        b = np.zeros((*a.shape[:-1], a.shape[-1] * 2 + 1), dtype=a.dtype)
        b[..., : a.shape[-1] * 2 : 2] = a
        return b[..., : a.shape[-1] * 2 : 2]
    if how == "reversed" and a.ndim:
        return np.ascontiguousarray(a[::-1])[::-1]
    if how == "readonly":
        b = a.copy()
        b.flags.writeable = False
        return b
    if how == "bigendian" and a.dtype.itemsize > 1:
        return a.astype(a.dtype.newbyteorder(">"))
    return a


def f_same(x: float, y: float) -> bool:
    return (math.isnan(x) and math.isnan(y)) or (x == y and math.copysign(1, x) == math.copysign(1, y))


def same(a, b, path="value") -> str | None:
    """None if equal in kind, type, bits and nesting; else where they differ."""
    import jax
    import pandas as pd
    import pyarrow as pa

    if isinstance(a, jax.Array):
        a = np.asarray(a)
    if isinstance(b, jax.Array):
        b = np.asarray(b)
    if isinstance(a, pd.DataFrame):
        a = pa.Table.from_pandas(a, preserve_index=False)
        if isinstance(b, pd.DataFrame):
            b = pa.Table.from_pandas(b, preserve_index=False)
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray):
            return f"{path}: array became {type(b).__name__}"
        if a.dtype != b.dtype and a.dtype.newbyteorder("=") != b.dtype.newbyteorder("="):
            return f"{path}: dtype {a.dtype} became {b.dtype}"
        if a.shape != b.shape:
            return f"{path}: shape {a.shape} became {b.shape}"
        if a.dtype == object:
            for i, (x, y) in enumerate(zip(a.flat, b.flat)):
                r = same(x, y, f"{path}.flat[{i}]")
                if r:
                    return r
            return None
        if a.astype(a.dtype.newbyteorder("=")).tobytes() != b.astype(b.dtype.newbyteorder("=")).tobytes():
            return f"{path}: contents {a!r} became {b!r}"
        return None
    if isinstance(a, pa.Table):
        if not isinstance(b, pa.Table):
            return f"{path}: table became {type(b).__name__}"
        if a.schema.names != b.schema.names or a.schema.types != b.schema.types:
            return f"{path}: schema {a.schema} became {b.schema}"
        if a.num_rows != b.num_rows:
            return f"{path}: {a.num_rows} rows became {b.num_rows}"
        return same(a.to_pydict(), b.to_pydict(), path)
    if isinstance(a, np.generic):
        a = a.item() if not isinstance(b, np.ndarray) else a
        if isinstance(b, np.ndarray):
            return same(np.asarray(a), b, path)
    if isinstance(a, float) and isinstance(b, float):
        return None if f_same(a, b) else f"{path}: {a!r} became {b!r}"
    if type(a) is not type(b):
        return f"{path}: {type(a).__name__} {a!r} became {type(b).__name__} {b!r}"
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: length {len(a)} became {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, dict):
        if len(a) != len(b):
            return f"{path}: {len(a)} keys became {len(b)}"
        kb = {_hk(k): k for k in b}
        for k in a:
            if _hk(k) not in kb:
                return f"{path}: key {k!r} lost (have {list(b)!r})"
            r = same(a[k], b[kb[_hk(k)]], f"{path}[{k!r}]")
            if r:
                return r
        return None
    if hasattr(a, "_serde_kind") and hasattr(a, "data") and type(a).__name__ in ("TensorValue", "TableValue", "BytesValue"):
        return same(_payload(a), _payload(b), path + ".data")
    if hasattr(a, "_serde_kind"):
        return same(a.to_json(), b.to_json(), path + ".json")
    return None if a == b else f"{path}: {a!r} became {b!r}"


def _payload(v):
    d = v.unwrap() if type(v).__name__ != "TableValue" else v.data
    return d


def _hk(k):
    return (type(k).__name__, repr(k))
