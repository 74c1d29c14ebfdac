"""B03: conversions between tables, tensors and vector columns keep every cell."""

from __future__ import annotations

import os
import random

import numpy as np
import pandas as pd
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.ipc
import pyarrow.parquet as pq
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.backends.table_impl import TableValue
from mplang.dialects import table, tensor
from mplang.edsl import serde
from mplang.extend.arrow import compute as vcompute
from mplang.extend.arrow import vector
from mplang.runtime.interpreter import InterpObject, Interpreter
from checks.b02 import chunked, scratch
from vf.core import Sub, check, label

PROPERTY = "B03"
ASSUMPTIONS = [
    "columns of one tensor share one element type (others are refused when traced)",
    "a missing number becomes NaN in a floating tensor and is refused in any other",
    "a missing sparse or one-hot vector, and a one-hot position outside the vector, is the zero vector; a missing dense vector is all missing",
]

PA = {"i8": pa.int8(), "i16": pa.int16(), "i32": pa.int32(), "i64": pa.int64(), "u8": pa.uint8(), "u16": pa.uint16(), "u32": pa.uint32(), "u64": pa.uint64(), "f16": pa.float16(), "f32": pa.float32(), "f64": pa.float64(), "bool": pa.bool_()}
EL = {"i8": elt.i8, "i16": elt.i16, "i32": elt.i32, "i64": elt.i64, "u8": elt.u8, "u16": elt.u16, "u32": elt.u32, "u64": elt.u64, "f16": elt.f16, "f32": elt.f32, "f64": elt.f64, "bool": elt.bool_}
NP = {k: np.dtype({"i": "int", "u": "uint", "f": "float"}[k[0]] + k[1:]) if k != "bool" else np.dtype(bool) for k in PA}


def cell(kind, r):
    dt = NP[kind]
    if kind == "bool":
        return r.random() < 0.5
    if dt.kind in "iu":
        i = np.iinfo(dt)
        return r.choice([0, 1, int(i.min), int(i.max), r.randint(int(i.min), int(i.max)), r.randint(0, 9)])
    # (float(dt.type(v)) is exactly representable)
    f = np.finfo(dt)
    return r.choice([0.0, -0.0, 1.5, float("inf"), float("-inf"), float("nan"), float(f.max), float(f.tiny), float(dt.type(r.uniform(-9, 9)))])


def bits(a):
    """Equality up to the bit pattern of NaNs."""
    a = np.asarray(a)
    if a.dtype.kind != "f":
        return a
    a = a.copy()
    a[np.isnan(a)] = np.nan
    return a.view("u%d" % a.dtype.itemsize)


def equal(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    check(got.dtype == want.dtype, f"{what}: dtype {got.dtype} instead of {want.dtype}")
    check(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
    bad = np.argwhere(bits(got) != bits(want))
    check(len(bad) == 0, lambda: f"{what}: cell {tuple(bad[0])} is {got[tuple(bad[0])]!r} instead of {want[tuple(bad[0])]!r}")


# ---------------------------------------------------------------- tables <-> tensors

tab_case = lambda: st.tuples(st.sampled_from(list(PA)), st.integers(0, 4), st.integers(1, 4), st.sampled_from([1, 2, 3, 7, 40, 1023, 1025]), st.sampled_from(["exact", "any", "exact", "any", "wrong"]), st.integers(0, 2**32))


def nt_tab(c):
    return c[3] > 1


def run_tab(c):
    kind, nulls, F, n, rows, seed = c
    r = random.Random(seed)
    names = r.sample(["a", "b", "A", "x y", "__index_level_0__", "index", "0", "é"], F)
    cols = [[cell(kind, r) for _ in range(n)] for _ in range(F)]
    missing = nulls == 1
    if missing:
        for col in cols:
            for i in range(n):
                if r.random() < 0.3:
                    col[i] = None
    hasnull = any(v is None for col in cols for v in col)
    how = r.choice(["arrow", "arrow", "pandas", *(["indexed"] if kind not in ("f16", "bool") else []), "dict", "sliced"])
    dt = NP[kind]
    if how in ("pandas", "indexed"):
        nullable = missing
        df = pd.DataFrame({a: (pd.array(v, dtype={"bool": "boolean"}.get(kind, "Int" + kind[1:] if kind[0] == "i" else "UInt" + kind[1:])) if nullable and dt.kind != "f" else np.array([np.nan if x is None else x for x in v], dtype=dt)) for a, v in zip(names, cols)})
        if how == "indexed" and F > 1:
            df = df.set_index(names[0])
            names, cols = [*names[1:], names[0]], [*cols[1:], cols[0]]  # pandas' own column order: the index comes last
        t = pa.Table.from_pandas(df, preserve_index=True if how == "indexed" and F > 1 else False)
        if dt.kind == "f":
            hasnull = False
            cols = [[float("nan") if v is None else v for v in col] for col in cols]
    else:
        t = pa.table({a: pa.array([None if v is None else dt.type(v) for v in col], PA[kind]) for a, col in zip(names, cols)})
        t = chunked(t, seed)
        if how == "sliced":
            extra = t.slice(0, 1)
            t = pa.concat_tables([extra, t, extra]).slice(1, n)
    label(how)
    label(kind)
    schema = elt.TableType({a: EL[kind] for a in names})
    want_rows = {"exact": n, "any": -1, "wrong": n + 1}[rows]
    refused = rows == "wrong" or (hasnull and dt.kind != "f")
    with Interpreter():
        src = table.constant(t)
        check(src.type == schema, lambda: f"type of a constant table: {src.type} instead of {schema}")
        try:
            x = table.table2tensor(src, number_rows=want_rows)
        except (ValueError, TypeError) as e:
            check(refused, lambda: f"table2tensor of {t.schema} refused: {e}")
            label("refused")
            return
        check(not refused, lambda: "table2tensor accepted a table it cannot represent")
        arr = np.asarray(x.runtime_obj.unwrap())
        want = np.array([[np.nan if v is None else v for v in col] for col in cols], dtype=dt).T
        equal(arr, want, "table2tensor")
        check(x.type.element_type == EL[kind] and x.type.shape == (want_rows, F), lambda: f"tensor type {x.type}")
        # and back, under other names, after a transport and a pass through other layouts
        order = r.choice(["same", "fortran", "strided", "serde"])
        if order != "same":
            src2 = arr
            if order == "fortran":
                src2 = np.asfortranarray(arr)
            elif order == "strided":
                big = np.empty((2 * n, 2 * F), dtype=dt)
                big[::2, ::2] = arr
                src2 = big[::2, ::2]
            else:
                src2 = np.asarray(serde.loads(serde.dumps(x.runtime_obj)).unwrap())
            x = tensor.constant(src2)
        label(order)
        news = r.sample(["p", "q", "Q", "v w", "index", "1", "ß"], F)
        back = table.tensor2table(x, column_names=news)
        check(list(back.type.schema.items()) == [(a, EL[kind]) for a in news], lambda: f"type of a converted tensor: {back.type}")
        val = back.runtime_obj
        if r.random() < 0.5:
            val = serde.loads(serde.dumps(val)) if r.random() < 0.5 else serde.loads_b64(serde.dumps_b64(val)) if hasattr(serde, "loads_b64") else val
        bt = val.data
        check(bt.column_names == news, lambda: f"columns {bt.column_names} instead of {news}")
        for j, a in enumerate(news):
            col = bt.column(a)
            check(col.type == PA[kind], lambda: f"column {a} is {col.type} instead of {PA[kind]}")
            check(col.null_count == 0 or dt.kind == "f", lambda: f"column {a} has {col.null_count} missing values")
            equal(np.array([np.nan if v is None else v for v in col.to_pylist()], dtype=dt), want[:, j], f"column {a} of tensor2table")


# ---------------------------------------------------------------- vector columns

VK = ["dense", "sparse", "onehot"]
vec_case = lambda: st.tuples(st.sampled_from(VK), st.sampled_from(["i8", "i32", "i64", "u8", "u64", "f32", "f64", "f16"]), st.sampled_from(["i8", "i32", "i64", "u8", "u32"]), st.integers(1, 6), st.sampled_from([0, 1, 2, 5, 9]), st.booleans(), st.integers(0, 2**32))


def make_vec(kind, vt, it, size, n, nulls, r):
    """(array, dense rows with None for missing rows/elements)"""
    dt = NP[vt]
    v = lambda: dt.type(cell(vt, r))
    if kind == "dense":
        rows = [None if nulls and r.random() < 0.3 else [None if nulls and r.random() < 0.15 else v() for _ in range(size)] for _ in range(n)]
        t = vector.dense_vector(size, PA[vt])
        storage = pa.array(rows, t.storage_type)
        if nulls and r.random() < 0.5:  # a missing row may hide any contents
            flat = pa.array([x for row in rows for x in ([v() for _ in range(size)] if row is None else row)], PA[vt])
            storage = pa.FixedSizeListArray.from_arrays(flat, type=t.storage_type, mask=pa.array([row is None for row in rows], pa.bool_()))
        want = [[None] * size if row is None else row for row in rows]
    elif kind == "sparse":
        rows, want = [], []
        for _ in range(n):
            if nulls and r.random() < 0.3:
                rows.append(None)
                want.append([0] * size)
                continue
            idx = r.sample(range(size), r.randint(0, size))
            vals = [v() for _ in idx]
            rows.append({"indices": idx, "values": vals})
            w = [0] * size
            for i, x in zip(idx, vals):
                w[i] = x
            want.append(w)
        t = vector.sparse_vector(size, PA[vt], PA[it])
        storage = pa.array(rows, t.storage_type)
        if nulls and r.random() < 0.5:  # a missing row may hide any contents
            full = [row or {"indices": (i := r.sample(range(size), r.randint(0, size))), "values": [v() for _ in i]} for row in rows]
            kids = [pa.array([x[f.name] for x in full], f.type) for f in t.storage_type]
            storage = pa.StructArray.from_arrays(kids, fields=list(t.storage_type), mask=pa.array([row is None for row in rows], pa.bool_()))
    else:
        rows = [None if nulls and r.random() < 0.3 else r.choice([r.randrange(size), r.randrange(size), size, 0] if nulls else [r.randrange(size)]) for _ in range(n)]
        want = [[0] * size for _ in rows]
        for w, i in zip(want, rows):
            if i is not None and i < size:
                w[i] = 1
        t = vector.one_hot_vector(size, PA[vt], PA[it])
        storage = pa.array(rows, t.storage_type)
    return pa.ExtensionArray.from_storage(t, storage), t, want


def dense(want, size, dt, n):
    hole = any(x is None for w in want for x in w)
    if dt.kind != "f" and hole:
        return None
    return np.array([[np.nan if x is None else x for x in w] for w in want], dtype=dt).reshape(n, size)


def near(got, want, size, dt, n, what):
    """Compare up to the type a missing integer forces (floating)."""
    w = dense(want, size, dt, n)
    if w is None:
        got = np.asarray(got, dtype=object)
        check(got.shape == (n, size), f"{what}: shape {got.shape}")
        for i in range(n):
            for j in range(size):
                g, x = got[i, j], want[i][j]
                miss = g is None or g != g
                check(miss == (x is None) and (miss or abs(float(g) - float(x)) <= abs(float(x)) * 2.0**-52), f"{what}: cell {(i, j)} is {g!r} instead of {x!r}")
    else:
        equal(got, w, what)


def run_vec(c):
    kind, vt, it, size, n, nulls, seed = c
    r = random.Random(seed)
    dt = NP[vt]
    label(kind)
    arr, t, want = make_vec(kind, vt, it, size, n, nulls, r)
    check(len(arr) == n and arr.type == t and arr.type.size == size and arr.type.value_type == PA[vt], "type of a vector column")
    same = lambda a, b: a is b if a is None or b is None else bool(np.array_equal(bits(np.array(a, dt)), bits(np.array(b, dt))))

    def look(a, w, what):
        m = len(w)
        near(a.to_numpy(), w, size, dt, m, f"{what}.to_numpy()")
        near(a.to_numpy(zero_copy_only=False, writable=True), w, size, dt, m, f"{what}.to_numpy(writable)")
        if kind != "dense":
            pl = a.to_pylist()
            check(len(pl) == m, f"{what}.to_pylist() has {len(pl)} rows instead of {m}")
            for i in range(m):
                check(len(pl[i]) == size and all(same(x, y) for x, y in zip(pl[i], w[i])), lambda: f"{what}.to_pylist()[{i}] is {pl[i]} instead of {w[i]}")
                item = a[i]
                ap = item.as_py()
                check(len(ap) == size and all(same(x, y) for x, y in zip(ap, w[i])), lambda: f"{what}[{i}] is {ap} instead of {w[i]}")
                j = r.randrange(size)
                check(same(item[j], w[i][j]), lambda: f"{what}[{i}][{j}] is {item[j]!r} instead of {w[i][j]!r}")
                for out in (size, -1, size + 3):
                    try:
                        item[out]
                    except IndexError:
                        continue
                    check(False, f"{what}[{i}][{out}] beyond the vector was answered")

    look(arr, want, f"{kind}")
    cur, w = arr, want
    for _ in range(r.randint(0, 3)):
        op = r.choice([o for o in ("slice", "ipc", "parquet", "concat", "take", "table", "serde", "filter") if o != "parquet" or not (kind == "dense" and cur.null_count)])  # (no missing lists of fixed size in Parquet)
        label(op)
        m = len(w)
        if op == "slice":
            lo = r.randint(0, m)
            k = r.randint(0, m - lo)
            cur, w = cur.slice(lo, k), w[lo : lo + k]
        elif op in ("take", "filter"):
            if op == "take":
                idx = [r.randrange(m) for _ in range(r.randint(0, 4))] if m else []
                st_ = cur.storage.take(pa.array(idx, pa.int64()))
                w = [w[i] for i in idx]
            else:
                keep = [r.random() < 0.6 for _ in range(m)]
                st_ = cur.storage.filter(pa.array(keep, pa.bool_()))
                w = [x for x, k in zip(w, keep) if k]
            cur = pa.ExtensionArray.from_storage(t, st_)
        elif op == "concat":
            other, _, w2 = make_vec(kind, vt, it, size, r.randint(0, 3), nulls, r)
            cur = pa.chunked_array([cur, other, cur.slice(0, 1)], t).combine_chunks()
            if isinstance(cur, pa.ChunkedArray):
                cur = cur.chunk(0)
            w = w + w2 + w[:1]
        else:
            src = pa.table({"k": pa.array(range(m), pa.int64()), "v": cur})
            if op == "ipc":
                sink = pa.BufferOutputStream()
                with pa.ipc.new_stream(sink, src.schema) as wr:
                    wr.write_table(src)
                got = pa.ipc.open_stream(sink.getvalue()).read_all()
            elif op == "serde":
                got = serde.loads(serde.dumps(TableValue.wrap(src))).data
            elif op == "table":
                got = pa.concat_tables([src.slice(0, m // 2), src.slice(m // 2)])
            else:
                with scratch() as d:
                    f = os.path.join(d, "v.parquet")
                    try:
                        pq.write_table(src, f)
                    except pa.ArrowNotImplementedError:  # (nor missing rows with hidden contents)
                        check(cur.null_count, "a column without missing rows cannot be written")
                        continue
                    got = pq.read_table(f)
            check(got.schema.field("v").type == t, lambda: f"vector column came back as {got.schema.field('v').type} instead of {t}")
            check(got.column("k").to_pylist() == list(range(m)), "rows moved")
            cur = got.column("v").combine_chunks()
            if isinstance(cur, pa.ChunkedArray):
                cur = cur.chunk(0) if cur.num_chunks else pa.ExtensionArray.from_storage(t, pa.array([], t.storage_type))
        check(isinstance(cur, vector.VectorArray), lambda: f"after {op} the column is {type(cur)}")
        look(cur, w, f"{kind} after {op}")


mix_case = lambda: st.tuples(st.sampled_from(["i32", "i64", "u8", "f32", "f64"]), st.lists(st.sampled_from([*VK, "plain", "plain"]), min_size=1, max_size=4), st.integers(1, 6), st.booleans(), st.integers(0, 2**32))


def run_mix(c):
    vt, kinds, n, nulls, seed = c
    r = random.Random(seed)
    dt = NP[vt]
    cols, parts = {}, []
    for i, k in enumerate(kinds):
        if k == "plain":
            v = [dt.type(cell(vt, r)) for _ in range(n)]
            if nulls and dt.kind == "f":
                v = [None if r.random() < 0.2 else x for x in v]
            a = pa.array(v, PA[vt])
            parts.append(np.array([[np.nan if x is None else x] for x in v], dtype=dt))
        else:
            a, _, w = make_vec(k, vt, "i32", r.randint(1, 4), n, nulls and dt.kind == "f", r)
            parts.append(dense(w, a.type.size, dt, n))
        cut = r.randint(0, n)
        cols[f"c{i}"] = pa.chunked_array([a.slice(0, cut), a.slice(cut)], a.type) if r.random() < 0.6 else a
    t = pa.table(cols)
    want = np.concatenate(parts, axis=1)
    equal(vector.table_to_numpy(t), want, f"table_to_numpy of {kinds}")
    # the traced route: the declared type says where the vectors are, with their size
    decl = elt.TableType({f"c{i}": EL[vt] if k == "plain" else elt.VectorType(EL[vt], t.schema.field(i).type.size) for i, k in enumerate(kinds)})
    with Interpreter() as it:
        src = InterpObject(TableValue.wrap(t), decl, it)
        x = table.table2tensor(src, number_rows=r.choice([-1, n]))
        check(x.type.shape[1] == want.shape[1], lambda: f"declared width {x.type.shape[1]} instead of {want.shape[1]}")
        equal(np.asarray(x.runtime_obj.unwrap()), want, f"table2tensor of {kinds}")


# ---------------------------------------------------------------- one_hot

hot_case = lambda: st.tuples(st.sampled_from([k for k in PA if k[0] in "iu"]), st.sampled_from(["float32", "float64", "int8", "int64", "uint16", "float16"]), st.sampled_from(["", "", "int8", "int32", "int64", "uint64"]), st.integers(1, 8), st.lists(st.integers(0, 7) | st.none(), max_size=8), st.sampled_from(["call", "two", "three", "four", "bad"]))
vcompute.register_functions()


def run_hot(c):
    kind, dtype, itype, classes, vals, how = c
    label(how)
    arr = pa.array(vals, PA[kind])
    if how == "bad":
        for bad in (lambda: vcompute.one_hot(pa.array([0.0, 1.0]), classes), lambda: vcompute.one_hot(arr, classes, itype="float32"), lambda: vcompute.one_hot(arr, 0), lambda: vcompute.one_hot(arr, -classes)):
            try:
                bad()
            except (TypeError, ValueError, KeyError):
                continue
            check(False, "one_hot accepted indices, sizes or types it must refuse")
        return
    name = f"one_hot_{PA[kind]}"
    if how == "call":
        got = vcompute.one_hot(arr, classes, dtype=dtype, itype=itype)
        check(got.type == vector.one_hot_vector(classes, pa.type_for_alias(dtype), PA[kind] if not itype else pa.type_for_alias(itype)), lambda: f"one_hot has type {got.type}")
        w = np.zeros((len(vals), classes), dtype=dtype)
        for i, v in enumerate(vals):
            if v is not None and v < classes:
                w[i, v] = 1
        equal(got.to_numpy(), w, "one_hot")
        check(got.to_pylist() == w.astype(int).tolist(), "one_hot().to_pylist()")
        return
    # registered functions answer the stored positions
    args = [arr, pa.scalar(classes, pa.int64())]
    if how == "two":
        got = pc.call_function(name, args)
    elif how == "three":
        got = pc.call_function(name + "_3", [*args, pa.scalar(dtype)])
    else:
        got = pc.call_function(name + "_4", [*args, pa.scalar(dtype), pa.scalar(itype)])
    check(got.to_pylist() == vals, lambda: f"{name} ({how}) answered {got.to_pylist()} instead of {vals}")


SUBS = [
    Sub("tensors", tab_case, run_tab, "tables of every numeric type, chunking and pandas index to tensors and back", nt_tab, quick=1200, thorough=60000),
    Sub("vectors", vec_case, run_vec, "dense, sparse and one-hot columns through slices, chunks, files and messages, against a model", lambda c: c[4] > 1, quick=1200, thorough=60000),
    Sub("mixed", mix_case, run_mix, "tables mixing plain and vector columns, as one matrix", lambda c: len(c[1]) > 1, quick=800, thorough=30000),
    Sub("one_hot", hot_case, run_hot, "one-hot encoding directly and as registered compute function", lambda c: len(c[4]) > 1, quick=600, thorough=20000),
]
