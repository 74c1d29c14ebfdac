"""B02: tables written to files and read back lose nothing."""

from __future__ import annotations

import contextlib
import datetime
import decimal
import os
import random
import shutil
import tempfile

import duckdb
import numpy as np
import pyarrow as pa
import pyarrow.csv as pa_csv
import pyarrow.parquet as pq
from hypothesis import strategies as st

import mplang.edsl.typing as elt
from mplang.backends.table_impl import FileTableSource, TableReader, TableValue
from mplang.dialects import table
from mplang.runtime.interpreter import Interpreter
from mplang.runtime.object_store import FileSystemBackend, ObjectStore
from vf import gen
from vf.core import Sub, check, label

PROPERTY = "B02"
ASSUMPTIONS = [
    "comma-separated text cannot tell a missing text from an empty one, nor a not-a-number from a missing number; JSON has no not-a-number and no infinity",
    "TIME has no JSON form, float16 no SQL form: refused, outside the round trip",
]

TYPES = {
    "bool": (elt.bool_, pa.bool_()), "i8": (elt.i8, pa.int8()), "i16": (elt.i16, pa.int16()), "i32": (elt.i32, pa.int32()), "i64": (elt.i64, pa.int64()),
    "u8": (elt.u8, pa.uint8()), "u16": (elt.u16, pa.uint16()), "u32": (elt.u32, pa.uint32()), "u64": (elt.u64, pa.uint64()),
    "f16": (elt.f16, pa.float16()), "f32": (elt.f32, pa.float32()), "f64": (elt.f64, pa.float64()),
    "str": (elt.STRING, pa.string()), "date": (elt.DATE, pa.date64()), "time": (elt.TIME, pa.time32("ms")), "ts": (elt.TIMESTAMP, pa.timestamp("ms")),
    "dec": (elt.DECIMAL, pa.decimal128(38, 10)), "bin": (elt.BINARY, pa.binary()),
}
NP = {"bool": "bool", "i8": "int8", "i16": "int16", "i32": "int32", "i64": "int64", "u8": "uint8", "u16": "uint16", "u32": "uint32", "u64": "uint64", "f16": "float16", "f32": "float32", "f64": "float64"}
FORMATS = {"parquet": ["parquet", "pq"], "csv": ["csv", "CSV"], "json": ["json", "jsonl"]}
UNSUPPORTED = {"csv": set(), "json": {"time"}, "parquet": set()}
TEXTS = ["", "a", "007", "1e5", "true", "NA", "null", "nan", "2020-01-01", "2020-01-01 10:00:00", "a,b", "a;b|c\td", 'say "x"', "'q'", "two\nlines\n\n", "\r\n", " pad ", "é漢😀", "\\x41\\n", "#c", "x" * 300, "NULL", "-", "[1]", "{}"]


def cells(kind):
    if kind in NP:
        return gen.elements(NP[kind])
    day = 86_400_000
    if kind == "str":
        return st.one_of(st.sampled_from(TEXTS), st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=8))
    if kind == "date":
        return st.integers(-60_000, 60_000).map(lambda d: datetime.date(1970, 1, 1) + datetime.timedelta(days=d))
    if kind == "time":
        return st.integers(0, day - 1).map(lambda m: (datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=m)).time())
    if kind == "ts":
        return st.one_of(st.sampled_from([0, 1, 999, day, -1]), st.integers(-60_000 * day, 60_000 * day)).map(lambda m: datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=m))
    if kind == "dec":
        return st.integers(-(10**30), 10**30).map(lambda i: decimal.Decimal(i).scaleb(-10, decimal.Context(prec=60)))
    return st.one_of(st.sampled_from([b"", b"a", b"a,\n\"", b"\\x"]), st.text(st.characters(exclude_categories=["Cs"], exclude_characters="\0"), max_size=6).map(lambda s: s.encode()))


LOOKS = [["2020-01-01", "1969-12-31"], ["2020-01-01 10:00:00", "1999-12-31T23:59:59"], ["1", "007", "-5"], ["1e5", "2.50"], ["true", "false"], ["12:30:00", "00:00:01"]]
NAMES = ["x", "y", "z", "a b", "c,d", 'q"t', "select", "é", "0", "X_1", "a;b", "n'm", "line", "w.v", "u"]


@st.composite
def column(draw, kinds, null=True):
    kind = draw(st.sampled_from(kinds))
    if kind == "str" and draw(st.booleans()):  # every cell looks like something else
        look = st.sampled_from(draw(st.sampled_from(LOOKS)))
        return kind, draw(st.lists(look if not null else st.one_of(look, look, st.none()), min_size=1, max_size=4)), draw(st.integers(0, 2**32))
    pool = draw(st.lists(cells(kind) if not null else st.one_of(cells(kind), cells(kind), st.none()), min_size=1, max_size=6))
    return kind, pool, draw(st.integers(0, 2**32))


SIZES = st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 12), st.sampled_from([100, 2047, 2048, 2049, 4096]), st.sampled_from([65535, 65536, 65537, 131073]))


def build(kind, pool, seed, n):
    """A column of n cells picked from the pool (each cell of the pool first, in order)."""
    r = np.random.default_rng(seed)
    idx = np.concatenate([np.arange(min(len(pool), n)), r.integers(0, len(pool), max(0, n - len(pool)))]).astype(np.int64)
    vals = [v if v is None else np.dtype(NP[kind]).type(v) for v in pool] if kind == "f16" else pool
    return pa.array(vals, TYPES[kind][1]).take(pa.array(idx))


def chunked(t, seed):
    """The same table in other chunks, every column split in its own places."""
    r = random.Random(seed)
    if r.random() < 0.2:
        return t
    cols = []
    for c in t.columns:
        cuts = sorted(r.choices(range(t.num_rows + 1), k=r.choice([0, 1, 2, 4]))) if t.num_rows else []
        ends = [0, *cuts, t.num_rows]
        whole = c.combine_chunks() if c.num_chunks != 1 else c.chunk(0)
        whole = pa.concat_arrays(whole.chunks) if isinstance(whole, pa.ChunkedArray) and whole.num_chunks else whole
        cols.append(pa.chunked_array([whole.slice(a, b - a) for a, b in zip(ends, ends[1:])], c.type))
    return pa.table(cols, names=t.column_names)


def schema_of(cols):
    return elt.TableType({n: TYPES[k][0] for n, k in cols})


def arrow_schema(cols):
    return pa.schema([(n, TYPES[k][1]) for n, k in cols])


def after(t, fmt):
    """What the format can hold of the table."""
    cols = []
    for c in t.columns:
        if fmt == "csv" and (pa.types.is_string(c.type) or pa.types.is_binary(c.type)):
            c = c.fill_null("" if pa.types.is_string(c.type) else b"")
        if pa.types.is_floating(c.type) and fmt != "parquet":
            c = pa.chunked_array([pa.array([None if v is None or v != v or (fmt == "json" and abs(v) == float("inf")) else v for v in (c.to_pylist() if c.type != pa.float16() else map(lambda v: None if v is None else float(v), c.to_pylist()))], pa.float64()).cast(c.type)], c.type) if len(c) < 5000 else big_floats(c, fmt)
        cols.append(c)
    return pa.table(cols, names=t.column_names)


def big_floats(c, fmt):
    import pyarrow.compute as pc

    d = c.cast(pa.float64())
    bad = pc.is_nan(d) if fmt == "csv" else pc.invert(pc.is_finite(d))
    return pc.if_else(bad, pa.scalar(None, pa.float64()), d).cast(c.type)


def differ(want, got, ordered_types=True):
    """None, or where two tables differ (bits of floats included)."""
    if want.column_names != got.column_names:
        return f"columns {want.column_names} became {got.column_names}"
    if ordered_types and want.schema.types != got.schema.types:
        return f"types {want.schema.types} became {got.schema.types}"
    if want.num_rows != got.num_rows:
        return f"{want.num_rows} rows became {got.num_rows}"
    for name in want.column_names:
        a, b = want[name], got[name]
        if a.type != b.type:
            try:
                b = b.cast(a.type)
            except pa.ArrowInvalid as e:
                return f"column {name!r}: {b.type} cannot be {a.type}: {e}"
        if len(a) > 3000:
            import pyarrow.compute as pc

            if a.null_count != b.null_count:
                return f"column {name!r}: {a.null_count} missing became {b.null_count}"
            if pa.types.is_floating(a.type):
                av, bv = (np.asarray(x.cast(pa.float64()).fill_null(0.0)) for x in (a, b))
                ok = ((av == bv) | (np.isnan(av) & np.isnan(bv))).all() and (np.asarray(a.is_null()) == np.asarray(b.is_null())).all()
            else:
                ok = a.equals(b) or pc.all(pc.or_(pc.fill_null(pc.equal(a, b), False), pc.and_(a.is_null(), b.is_null()))).as_py() is not False
            if not ok:
                bad = [i for i, (x, y) in enumerate(zip(a.to_pylist(), b.to_pylist())) if gen.same(x, y)]
                if bad:
                    return f"column {name!r} from row {bad[0]}: {a[bad[0]]!r} became {b[bad[0]]!r} ({len(bad)} rows)"
        else:
            r = gen.same(a.to_pylist(), b.to_pylist(), f"column {name!r}")
            if r:
                return r
    return None


def runtime(obj):
    v = obj.runtime_obj if hasattr(obj, "runtime_obj") else obj
    return v


def full(obj):
    return runtime(obj).data


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="b02-")
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def sql_name(s):
    return '"' + s.replace('"', '""') + '"'


def select(cols):
    return ", ".join(sql_name(n) for n, _ in cols)


def sources(parts, seed, d):
    """Make the tables, from memory, files or queries; returns objects, and the in-memory tables as given."""
    r = random.Random(seed)
    objs, kept = [], []
    base = None
    for i, (cols, t) in enumerate(parts):
        kinds = {k for _, k in cols}
        how = r.choice(["memory", "memory", "parquet", "csv", "query", "shared"])
        if how == "csv" and (kinds & {"f16", "bin", "str"} or any(pa.types.is_floating(c.type) for c in t.columns)):
            how = "memory"
        if how in ("query", "shared") and kinds & {"f16", "time"}:
            how = "parquet"
        if how == "memory":
            m = chunked(t, r.random())
            kept.append((m, m.slice(0)))
            o = table.constant(m)
        elif how == "parquet":
            pq.write_table(t, f"{d}/src{i}.parquet", row_group_size=r.choice([1, 3, 1000, 70000]) if t.num_rows < 5000 else 70000)
            o = table.read(f"{d}/src{i}.parquet", schema=schema_of(cols))
        elif how == "csv":
            pa_csv.write_csv(t, f"{d}/src{i}.csv") if len(cols) > 1 else pa_csv.write_csv(t.append_column("pad", pa.array([1] * t.num_rows)), f"{d}/src{i}.csv")
            o = table.read(f"{d}/src{i}.csv", schema=schema_of(cols))
        elif how == "query":
            o = table.run_sql(f"SELECT {select(cols)} FROM t", out_type=schema_of(cols), t=table.constant(chunked(t, r.random())))
        else:
            if base is None:
                base = table.run_sql("SELECT * FROM seed", out_type=elt.TableType({"one": elt.i64}), seed=table.constant({"one": [1]}))
            o = table.run_sql(f"SELECT {select(cols)} FROM t{i}", out_type=schema_of(cols), **{f"t{i}": table.constant(t), "base": base})
        label(f"from {how}")
        objs.append(o)
    return objs, kept


@st.composite
def case(draw):
    fmt = draw(st.sampled_from(sorted(FORMATS)))
    kinds = sorted(set(TYPES) - UNSUPPORTED[fmt])
    k = draw(st.sampled_from([1, 1, 2, 3]))
    names = draw(st.permutations(NAMES))
    parts, at = [], 0
    for _ in range(k):
        w = draw(st.sampled_from([1, 1, 2, 3]))
        parts.append([(names[at + j], *draw(column(kinds))) for j in range(w)])
        at += w
    n = draw(SIZES if fmt != "json" else st.one_of(st.integers(0, 12), st.sampled_from([2049, 70000])))
    return fmt, draw(st.sampled_from(FORMATS[fmt])), parts, n, draw(st.integers(0, 2**32)), draw(st.sampled_from([1, 2, 3, 7, 1000, 65536, 10**6]))


@st.composite
def alike(draw):
    """Small text files whose columns are easily taken for something else."""
    fmt = draw(st.sampled_from(["json", "json", "csv"]))
    names = draw(st.permutations(NAMES))
    kinds = ["str", "str", "date", "date", "u64", "ts", "i64", "bool", "dec", "f16", "f64"]
    w = draw(st.integers(2, 4))
    cols = [(names[j], *draw(column(kinds))) for j in range(w)]
    cut = draw(st.integers(1, w))
    return fmt, draw(st.sampled_from(FORMATS[fmt])), [p for p in (cols[:cut], cols[cut:]) if p], draw(st.integers(1, 5)), draw(st.integers(0, 2**32)), draw(st.sampled_from([1, 2, 3, 7, 1000]))


def materialize(parts, n):
    return [([(name, kind) for name, kind, _, _ in p], pa.table([build(kind, pool, seed, n) for _, kind, pool, seed in p], names=[c[0] for c in p])) for p in parts]


def run_roundtrip(c):
    fmt, ext, parts, n, seed, bs = c
    r = random.Random(seed)
    tabs = materialize(parts, n)
    cols = [x for cs, _ in tabs for x in cs]
    if fmt == "csv":
        tabs = [(cs, t) for cs, t in tabs]
    whole = pa.table([col for _, t in tabs for col in t.columns], names=[x[0] for x in cols])
    with scratch() as d, Interpreter():
        objs, kept = sources(tabs, seed, d)
        os.mkdir("out")
        path = f"{d}/out/t.{ext}"
        given = list(objs)
        back = table.write(objs if len(objs) > 1 or r.random() < 0.5 else objs[0], path, format=r.choice(["auto", fmt]))
        check(objs == given, "writing changed the list it was given")
        check(os.listdir("out") == [f"t.{ext}"], lambda: f"files left beside the written one: {os.listdir('out')}")
        for m, before in kept:
            check(m.equals(before) or not differ(before, m), "writing changed its input")
        pick = r.sample(cols, r.randint(1, len(cols))) if r.random() < 0.4 else cols
        want = after(whole, fmt).select([x[0] for x in pick])
        typ = schema_of(pick)
        auto = fmt == "json" or r.random() < 0.5
        # the type of TIME and DATE cells through SQL is the engine's; declared when read
        got = full(table.read(path, schema=typ, format="auto" if auto else fmt))
        bad = differ(want, got)
        check(not bad, lambda: f"{fmt} read back: {bad}")
        src = FileTableSource(path, fmt, arrow_schema(pick))
        if n < 5000 or bs > 100:
            with src.open(bs) as reader:
                sizes, batches = [], []
                for b in reader:
                    sizes.append(b.num_rows)
                    batches.append(b)
            check(sizes == [bs] * (n // bs) + ([n % bs] if n % bs else []), lambda: f"{n} rows read by {bs} came as {sizes[:20]}")
            bad = differ(want, pa.Table.from_batches(batches, schema=arrow_schema(pick)))
            check(not bad, lambda: f"{fmt} read by {bs}: {bad}")
        if not {k for _, k in pick} & ({"f16"} | ({"bin"} if fmt == "csv" else set())) and len({x[0].lower() for x in cols}) == len(cols):
            got = full(table.run_sql("SELECT * FROM t", out_type=typ, t=table.read(path, schema=typ)))
            bad = differ(want, got, ordered_types=False)
            check(not bad, lambda: f"{fmt} read by a query: {bad}")
        if back is not None and r.random() < 0.3:
            bad = differ(whole, full(back), ordered_types=False)
            check(not bad, lambda: f"the table that write returned: {bad}")
        label(fmt), label(f"{len(tabs)} tables"), label("rows " + ("0" if n == 0 else "small" if n < 50 else "thousands" if n < 10000 else "over a batch"))


def nt(c):
    return c[3] > 0


# ---------------------------------------------------------------- regrouping readers

@st.composite
def reader_case(draw):
    n = draw(st.integers(0, 30))
    return n, draw(st.sampled_from(["table", "batches", "parquet"])), draw(st.lists(st.integers(0, n), max_size=6)), draw(st.sampled_from([-1, 1, 2, 3, 5, 8, 40])), draw(st.integers(0, 12)), draw(st.booleans())


def run_reader(c):
    n, how, cuts, bs, reads, rest = c
    t = pa.table({"i": pa.array(range(n), pa.int64()), "s": pa.array([None if i % 3 == 0 else str(i) for i in range(n)], pa.string())})
    ends = [0, *sorted(cuts), n]
    pieces = [t.slice(a, b - a) for a, b in zip(ends, ends[1:])]
    with scratch():
        if how == "table":
            data = TableReader(pa.concat_tables(pieces), batch_size=bs)
        elif how == "batches":
            data = TableReader(pa.RecordBatchReader.from_batches(t.schema, [b for p in pieces for b in (p.to_batches() or [pa.RecordBatch.from_pylist([], t.schema)])]), batch_size=bs)
        else:
            with pq.ParquetWriter("t.parquet", t.schema) as w:
                for p in pieces:
                    w.write_table(p)
            data = FileTableSource("t.parquet", "parquet", t.schema).open(bs)
        got = []
        with data as reader:
            ended = False
            for _ in range(reads):
                try:
                    b = reader.read_next_batch()
                except StopIteration:
                    ended = True
                    break
                if bs > 0:
                    check(b.num_rows == min(bs, n - sum(x.num_rows for x in got)), lambda: f"a batch of {b.num_rows} rows, asked for {bs}")
                got.append(b)
            if rest and not ended:
                got += reader.read_all().to_batches()
            elif not ended:
                got += list(reader)
        bad = differ(t, pa.Table.from_batches(got, schema=t.schema))
        check(not bad, lambda: f"read by {bs} after {reads}: {bad}")
        label(how), label("read_all after batches" if rest and reads else "batches")


# ---------------------------------------------------------------- failing writes

@st.composite
def fail_case(draw):
    return (draw(st.sampled_from(["lengths", "lengths", "file", "query", "type", "format"])), draw(st.sampled_from(sorted(FORMATS))), draw(st.sampled_from([1, 2, 5, 30, 70000])),
            draw(st.integers(1, 40)), draw(st.booleans()), draw(st.integers(0, 2**32)))


def run_failing(c):
    why, fmt, n, more, existing, seed = c
    r = random.Random(seed)
    with scratch() as d, Interpreter():
        os.mkdir("out")
        path = f"{d}/out/t.{fmt}"
        old = pa.table({"old": [1, 2, 3]})
        if existing:
            table.write(table.constant(old), path, format=fmt)
        before = {f: open(f"out/{f}", "rb").read() for f in os.listdir("out")}
        good = pa.table({"g": pa.array(range(n))})
        objs = [table.constant(chunked(good, r.random()))]
        use = fmt
        if why == "lengths":
            m = n + more
            objs.append(sources([([("h", "i64")], pa.table({"h": pa.array(range(m))}))], seed, d)[0][0])
        elif why == "file":
            m = r.choice([n, 150_000])
            with open("bad.csv", "w") as f:
                f.write("h,i\n" + "".join(f"{i},{'broken' if i == m - 1 else i}\n" for i in range(m)))
            objs = [table.read("bad.csv", schema=elt.TableType({"h": elt.i64, "i": elt.i64}))] if m != n or r.random() < 0.5 else [*objs, table.read("bad.csv", schema=elt.TableType({"h": elt.i64, "i": elt.i64}))]
        elif why == "query":
            objs = [table.run_sql(f"SELECT CASE WHEN g = {n - 1} THEN CAST('x' || g AS BIGINT) ELSE g END AS h FROM t", out_type=elt.TableType({"h": elt.i64}), t=objs[0])]
        elif why == "type":
            objs.append(table.constant(pa.table({"h": pa.array([b"\xff\xfe"] * n)})) if fmt == "json" else table.constant(pa.table({"h": pa.array(range(n + 1))})))
        else:
            path = f"{d}/out/none/t.{fmt}"  # no such directory
        r.shuffle(objs)
        try:
            table.write(objs, path, format=use)
        except Exception as e:  # noqa: BLE001
            label(f"{why}: {type(e).__name__}")
        else:
            check(False, f"a write that cannot be whole was accepted ({why})")
        now = {f: open(f"out/{f}", "rb").read() for f in os.listdir("out")}
        check(sorted(now) == sorted(before), lambda: f"a failed write ({why}) left {sorted(now)}, there was {sorted(before)}")
        check(now == before, f"a failed write ({why}) changed the file that was there")


# ---------------------------------------------------------------- reading and writing one path

@st.composite
def self_case(draw):
    fmt = draw(st.sampled_from(["parquet", "csv", "json"]))
    return fmt, draw(st.sampled_from([0, 1, 5, 3000, 200_000 if fmt != "json" else 20_000])), draw(st.booleans()), draw(st.booleans())


def run_self(c):
    fmt, n, query, extra = c
    t = pa.table({"a": pa.array(range(n), pa.int64()), "s": pa.array([f"v{i}" for i in range(n)], pa.string())})
    typ = elt.TableType({"a": elt.i64, "s": elt.STRING})
    with scratch() as d, Interpreter():
        path = f"{d}/t.{fmt}"
        table.write(table.constant(t), path, format=fmt)
        o = table.read(path, schema=typ)
        if query:
            o = table.run_sql("SELECT a, s FROM t", out_type=typ, t=o)
        want, wtyp = t, typ
        if extra:
            want = t.append_column("b", pa.array(range(n, 2 * n), pa.int64()))
            wtyp = elt.TableType({"a": elt.i64, "s": elt.STRING, "b": elt.i64})
            table.write([o, table.constant(want.select(["b"]))], path, format=fmt)
        else:
            table.write(o, path, format=fmt)
        got = full(table.read(path, schema=wtyp))
        bad = differ(want, got)
        check(not bad, lambda: f"rewriting {fmt} in place: {bad}")


# ---------------------------------------------------------------- stores of several parties

PATHS = ["x.parquet", "x.csv", "dir/x.parquet", "dir/y.csv"]


@st.composite
def store_case(draw):
    P = draw(st.sampled_from([1, 2, 3]))
    ops = st.one_of(st.tuples(st.just("write"), st.integers(0, P - 1), st.sampled_from(PATHS), st.integers(0, 4)),
                    st.tuples(st.just("copy"), st.integers(0, P - 1), st.sampled_from(PATHS), st.integers(0, 9)),
                    st.tuples(st.just("read"), st.integers(0, P - 1), st.sampled_from(PATHS), st.just(0)),
                    st.tuples(st.just("look"), st.integers(0, P - 1), st.sampled_from(PATHS), st.integers(0, 9)))
    return P, draw(st.lists(ops, min_size=2, max_size=14)), draw(st.booleans())


def run_store(c):
    P, ops, rel = c
    typ = elt.TableType({"a": elt.i64, "p": elt.i64})
    with scratch() as d:
        roots = [f"{d}/party{p}" for p in range(P)]
        interps = [Interpreter(store=ObjectStore(persistent=FileSystemBackend(root_path=r))) for r in roots]
        held, files = [], {}

        def data(p, v):
            return pa.table({"a": pa.array(range(v), pa.int64()), "p": pa.array([p] * v, pa.int64())})

        def write(p, path, obj, want, fresh):
            with interps[p]:
                try:
                    table.write(obj, path, format="auto")
                except FileExistsError:
                    label("overwrite refused")
                    check((p, path) in files, f"party {p} could not write {path}, which it does not have")
                    return
            check((p, path) not in files or files[p, path].equals(want), f"party {p} overwrote {path}")
            files[p, path] = want

        def look(k):
            p, path, obj, want = held[k]
            with interps[p]:
                got = full(obj)
            bad = differ(want, got)
            check(not bad, lambda: f"party {p} read of {path}: {bad}; {got.to_pydict()} for {want.to_pydict()}")

        for what, p, path, v in ops:
            if what == "write":
                with interps[p]:
                    o = table.constant(data(p, v))
                write(p, path, o, data(p, v), True)
            elif what == "read":
                with interps[p]:
                    try:
                        o = table.read(path, schema=typ)
                    except FileNotFoundError:
                        check((p, path) not in files, f"party {p} cannot read {path}, which it wrote")
                        continue
                check((p, path) in files, lambda: f"party {p} reads {path}, which it never wrote")
                held.append((p, path, o, files[p, path]))
            elif held:
                k = v % len(held)
                if what == "look":
                    look(k)
                else:
                    q, _, o, want = held[k]
                    write(q, path, o, want, False)
        for k in range(len(held)):
            look(k)
        for p in range(P):
            mine = {os.path.relpath(os.path.join(r, f), roots[p]) for r, _, fs in os.walk(roots[p]) for f in fs}
            check(mine == {path for q, path in files if q == p}, lambda: f"party {p} has files {sorted(mine)}")
            for q, path in files:
                if q == p:
                    full_path = os.path.join(roots[p], path)
                    check(not os.path.islink(full_path), f"{path} of party {p} is a link")
                    got = pq.read_table(full_path) if path.endswith("parquet") else pa_csv.read_csv(full_path, convert_options=pa_csv.ConvertOptions(column_types=pa.schema([("a", pa.int64()), ("p", pa.int64())])))
                    bad = differ(files[q, path], got)
                    check(not bad, lambda: f"the file {path} of party {p}: {bad}")


# ---------------------------------------------------------------- over a million rows

@st.composite
def big_case(draw):
    return draw(st.sampled_from(["parquet", "parquet", "csv"])), draw(st.sampled_from([999_999, 1_000_000, 1_000_001, 1_100_000, 2_000_001])), draw(st.sampled_from([1, 2, 3])), draw(st.integers(0, 2**32))


def run_big(c):
    fmt, n, k, seed = c
    r = np.random.default_rng(seed)
    parts = [([(f"c{i}", "i64")], pa.table({f"c{i}": pa.array(r.integers(-2**62, 2**62, n))})) for i in range(k)]
    with scratch() as d, Interpreter():
        objs, _ = sources(parts, seed, d)
        path = f"{d}/t.{fmt}"
        table.write(objs, path, format=fmt)
        want = pa.table([t.column(0) for _, t in parts], names=[f"c{i}" for i in range(k)])
        bad = differ(want, full(table.read(path, schema=elt.TableType({f"c{i}": elt.i64 for i in range(k)}))))
        check(not bad, lambda: f"{fmt} of {n} rows: {bad}")
        label(fmt)


SUBS = [
    Sub("roundtrip", case, run_roundtrip, "1-3 tables of any columns, from memory, files or queries, written together and read back whole, by batches and by a query", nt, quick=800, thorough=12000, hang_s=120),
    Sub("alike", alike, run_roundtrip, "small text files whose columns look like other types, two to four together", nt, quick=500, thorough=12000, hang_s=120),
    Sub("reader", reader_case, run_reader, "regrouping any chunks into batches of any size, also reading the rest at once", lambda c: c[0] > 0, quick=1200, thorough=30000),
    Sub("failing", fail_case, run_failing, "writes that cannot be whole are refused and leave the directory as it was", lambda c: True, quick=300, thorough=5000, hang_s=120),
    Sub("in_place", self_case, run_self, "a file read lazily is rewritten under its own path", lambda c: c[1] > 0, quick=150, thorough=2000, hang_s=120),
    Sub("stores", store_case, run_store, "histories of reads and writes of the same paths by several parties in one directory", lambda c: len(c[1]) > 3, quick=600, thorough=12000),
    Sub("million", big_case, run_big, "tables around the streaming batch of a million rows", lambda c: True, quick=12, thorough=200, hang_s=200),
]
