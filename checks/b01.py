"""B01: table queries return the relational answer."""

from __future__ import annotations

import os
import random
import sqlite3

import pyarrow as pa
import pyarrow.csv as pa_csv
import pyarrow.parquet as pq
from hypothesis import strategies as st

import mplang as mp
import mplang.edsl.typing as elt
from mplang.dialects import table
from mplang.runtime.interpreter import Interpreter
from checks.b02 import chunked, differ, full, scratch
from vf.core import Sub, check, label

PROPERTY = "B01"
ASSUMPTIONS = [
    "row order is only required where the query orders by every column",
    "a name already given to another table may be refused (as the existing tests require), never answered from the wrong table",
    "queries keep to what every SQL engine defines alike: 64-bit integers without overflow, quarters as reals, byte-ordered text, explicit order of nulls",
]

KIND = {"int": (elt.i64, pa.int64(), "BIGINT"), "real": (elt.f64, pa.float64(), "DOUBLE"), "text": (elt.STRING, pa.string(), "TEXT")}
CELLS = {"int": [0, 1, 2, 3, -1, 7, 100, None, None], "real": [0.0, 0.25, -1.5, 2.0, 100.75, None], "text": ["a", "b", "ab", "A", "z z", "é", "7", "07", None]}
COLS = ["k", "v", "s", "w", "my col", "from", "x1"]
NAMES = ["t", "T", "data", "Data", "my t", "tbl", "state"]


def q(s):
    return '"' + s.replace('"', '""') + '"'


def lit(kind, r):
    v = r.choice([c for c in CELLS[kind] if c is not None])
    return f"'{v}'" if kind == "text" else str(v)


class Query:
    """Random SQL over the given tables; every random choice comes from r."""

    def __init__(self, r, tabs):
        self.r, self.tabs = r, tabs  # tabs: [(name, cols)]

    def cols(self, t, kind=None):
        name, cols = t
        return [(f"{q(name)}.{q(c)}", k) for c, k in cols if kind in (None, k)]

    def expr(self, scope, kind, depth=0):
        r = self.r
        have = [e for e, k in scope if k == kind]
        pick = r.random()
        if depth > 2 or pick < 0.45:
            return r.choice(have) if have and r.random() < 0.9 else lit(kind, r)
        a, b = self.expr(scope, kind, depth + 1), self.expr(scope, kind, depth + 1)
        if pick < 0.6:
            return f"COALESCE({a}, {b})"
        if pick < 0.75:
            return f"CASE WHEN {self.pred(scope, depth + 1)} THEN {a} ELSE {b} END"
        if pick < 0.8:
            return f"NULLIF({a}, {b})"
        if kind == "text":
            return f"({a} || {b})"
        return f"({a} {r.choice(['+', '-'])} {b})" if depth < 2 else a

    def pred(self, scope, depth=0):
        r = self.r
        x = r.random()
        if depth < 3 and x < 0.3:
            return f"({self.pred(scope, depth + 1)} {r.choice(['AND', 'OR'])} {self.pred(scope, depth + 1)})"
        if depth < 3 and x < 0.4:
            return f"(NOT {self.pred(scope, depth + 1)})"
        kind = r.choice([k for _, k in scope])
        a = self.expr(scope, kind, 2)
        if x < 0.55:
            return f"({a} IS {'NOT ' if r.random() < 0.5 else ''}NULL)"
        if x < 0.65:
            return f"({a} {'NOT ' if r.random() < 0.4 else ''}IN ({', '.join(lit(kind, r) for _ in range(r.randint(1, 3)))}{', NULL' if r.random() < 0.2 else ''}))"
        if x < 0.72:
            return f"({a} BETWEEN {self.expr(scope, kind, 2)} AND {lit(kind, r)})"
        return f"({a} {r.choice(['=', '<>', '<', '<=', '>', '>='])} {self.expr(scope, kind, 2)})"

    def outs(self, scope, n=None):
        """Output columns: (sql, name, kind)."""
        r = self.r
        names = r.sample(COLS, n or r.randint(1, 4))
        return [(f"CAST({self.expr(scope, k, 0)} AS {KIND[k][2]}) AS {q(c)}", c, k) for c in names for k in [r.choice(["int", "real", "text"])]]

    def select(self, scope, frm, tail="", distinct=False):
        o = self.outs(scope)
        return f"SELECT {'DISTINCT ' if distinct else ''}{', '.join(x[0] for x in o)} FROM {frm}{tail}", [(c, k) for _, c, k in o], False

    def make(self):
        r = self.r
        t, u = self.tabs[0], self.tabs[-1]
        ft = q(t[0])
        what = r.choice(["project", "filter", "order", "group", "join", "join", "set", "distinct", "in", "exists", "number", "with", "aggregate"])
        label(what)
        sc = self.cols(t)
        if what == "project":
            return self.select(sc, ft)
        if what == "filter":
            return f"SELECT * FROM {ft} WHERE {self.pred(sc)}", list(t[1]), False
        if what == "distinct":
            return self.select(sc, ft, distinct=True)
        if what == "order":
            cs = r.sample(t[1], len(t[1]))
            by = ", ".join(f"{q(c)} {r.choice(['ASC', 'DESC'])} NULLS {r.choice(['FIRST', 'LAST'])}" for c, _ in cs)
            lim = f" LIMIT {r.choice([0, 1, 2, 5, 3000])}" + (f" OFFSET {r.choice([0, 1, 3])}" if r.random() < 0.5 else "") if r.random() < 0.6 else ""
            return f"SELECT * FROM {ft} WHERE {self.pred(sc)} ORDER BY {by}{lim}", list(t[1]), True
        if what in ("group", "aggregate"):
            gs = [] if what == "aggregate" else r.sample(sc, r.randint(1, min(2, len(sc))))
            outs, names = [], iter(r.sample(COLS, len(COLS)))
            for e, k in gs:
                n = next(names)
                outs.append((f"{e} AS {q(n)}", n, k))
            for _ in range(r.randint(1, 3)):
                f = r.choice(["COUNT(*)", "COUNT", "SUM", "MIN", "MAX", "CD"])
                k = r.choice(["int", "real", "text"]) if f in ("MIN", "MAX") else r.choice(["int", "real"]) if f == "SUM" else "int"
                n = next(names)
                e = self.expr(sc, r.choice(["int", "text"]) if f in ("COUNT", "CD") else k, 2)
                sql = "COUNT(*)" if f == "COUNT(*)" else f"COUNT(DISTINCT {e})" if f == "CD" else f"{f}({e})"
                outs.append((f"CAST({sql} AS {KIND[k][2]}) AS {q(n)}", n, k))
            tail = (f" WHERE {self.pred(sc)}" if r.random() < 0.4 else "") + (f" GROUP BY {', '.join(e for e, _ in gs)}" if gs else "") + (f" HAVING COUNT(*) > {r.randint(0, 2)}" if gs and r.random() < 0.4 else "")
            return f"SELECT {', '.join(o[0] for o in outs)} FROM {ft}{tail}", [(c, k) for _, c, k in outs], False
        if what == "join":
            if u is t:
                return self.select(self.cols(("l", t[1])) + self.cols(("r", t[1])), f"{ft} AS l {r.choice(['JOIN', 'LEFT JOIN'])} {ft} AS r ON {self.on(('l', t[1]), ('r', t[1]))}")
            return self.select(sc + self.cols(u), f"{ft} {r.choice(['JOIN', 'LEFT JOIN', 'JOIN'])} {q(u[0])} ON {self.on(t, u)}", f" WHERE {self.pred(sc + self.cols(u))}" if r.random() < 0.3 else "")
        if what == "set":
            kinds = [r.choice(["int", "real", "text"]) for _ in range(r.randint(1, 3))]
            names = r.sample(COLS, len(kinds))
            side = lambda t: "SELECT " + ", ".join(f"CAST({self.expr(self.cols(t), k, 1)} AS {KIND[k][2]}) AS {q(n)}" for k, n in zip(kinds, names)) + f" FROM {q(t[0])}"
            return f"{side(t)} {r.choice(['UNION ALL', 'UNION', 'EXCEPT', 'INTERSECT'])} {side(u)}", list(zip(names, kinds)), False
        if what in ("in", "exists"):
            k = r.choice(["int", "text", "real"])
            neg = "NOT " if r.random() < 0.5 else ""
            if what == "in":
                inner = self.expr([(f"u.{q(c)}", kk) for c, kk in u[1]], k, 1)
                return f"SELECT * FROM {ft} WHERE {self.expr(sc, k, 1)} {neg}IN (SELECT {inner} FROM {q(u[0])} AS u)", list(t[1]), False
            us = [(f"u.{q(c)}", kk) for c, kk in u[1]]
            a, b = self.expr(sc, k, 2), self.expr(us, k, 2)
            return f"SELECT * FROM {ft} WHERE {neg}EXISTS (SELECT 1 FROM {q(u[0])} AS u WHERE {a} = {b})", list(t[1]), False
        if what == "number":
            by = ", ".join(f"{e} ASC NULLS FIRST" for e, _ in sc)
            free = next(c for c in COLS + ["rn"] if c.lower() not in [x.lower() for x, _ in t[1]])
            return f"SELECT *, CAST(ROW_NUMBER() OVER (ORDER BY {by}) AS BIGINT) AS {q(free)} FROM {ft}", [*t[1], (free, "int")], False
        inner, cols, _ = Query(r, [t]).make()
        return Query(r, [("w0", cols)]).wrap(inner)

    def wrap(self, inner):
        body, cols, ordered = self.select(self.cols(("w0", self.tabs[0][1])), "w0")
        return f"WITH w0 AS ({inner}) {body}", cols, ordered

    def on(self, t, u):
        r = self.r
        shared = [k for k in ("int", "text", "real") if self.cols(t, k) and self.cols(u, k)]
        if not shared:
            return "1 = 1"
        k = r.choice(shared)
        c = f"{r.choice(self.cols(t, k))[0]} = {r.choice(self.cols(u, k))[0]}"
        return c + (f" AND {self.pred(self.cols(t) + self.cols(u), 2)}" if r.random() < 0.3 else "")


def reference(tabs, sql):
    """The rows another engine returns, or None if it cannot answer within bounds."""
    con = sqlite3.connect(":memory:")
    try:
        aff = {"int": "INTEGER", "real": "REAL", "text": "TEXT"}
        for name, cols, rows in tabs:
            con.execute(f"CREATE TABLE {q(name)} ({', '.join(f'{q(c)} {aff[k]}' for c, k in cols)})")
            con.executemany(f"INSERT INTO {q(name)} VALUES ({', '.join('?' * len(cols))})", rows)
        rows = con.execute(sql.replace(" AS DOUBLE)", " AS REAL)").replace(" AS BIGINT)", " AS INTEGER)")).fetchmany(20001)
    finally:
        con.close()
    return rows if len(rows) <= 20000 and all(v is None or isinstance(v, str) or abs(v) < 2**40 for row in rows for v in row) else None


def typ(cols):
    return elt.TableType({c: KIND[k][0] for c, k in cols})


def arrow(cols, rows):
    return pa.table([pa.array([row[i] for row in rows], KIND[k][1]) for i, (_, k) in enumerate(cols)], names=[c for c, _ in cols])


def key(row):
    return tuple((v is not None, "" if v is None else v) for v in row)


def compare(cols, rows, ordered, got, what):
    want = arrow(cols, rows)
    if not ordered:
        got = arrow_sorted(got)
        want = arrow_sorted(want)
    bad = differ(want, got)
    check(not bad, lambda: f"{what}: {bad}\nexpected {want.to_pydict() if want.num_rows < 12 else ''}\ngot      {got.to_pydict() if got.num_rows < 12 else ''}")


def arrow_sorted(t):
    rows = sorted(zip(*[c.to_pylist() for c in t.columns]), key=key) if t.num_columns else []
    return pa.table([pa.array([r[i] for r in rows], f.type) for i, f in enumerate(t.schema)], names=t.column_names)


@st.composite
def case(draw):
    bases = []
    for _ in range(draw(st.integers(1, 3))):
        names = draw(st.permutations(COLS))[: draw(st.integers(1, 4))]
        cols = [(c, draw(st.sampled_from(["int", "real", "text"]))) for c in names]
        rows = draw(st.lists(st.tuples(*[st.sampled_from(CELLS[k]) for _, k in cols]), max_size=7))
        bases.append((cols, rows, draw(st.sampled_from([1, 1, 1, 1, 1, 900])), draw(st.sampled_from(["memory", "memory", "parquet", "csv"]))))
    steps = draw(st.lists(st.tuples(st.sampled_from(["query", "query", "query", "look", "write"]), st.integers(0, 2**32)), min_size=1, max_size=7))
    return bases, steps, draw(st.booleans()), draw(st.integers(0, 2**32))


def run_case(c):
    bases, steps, traced, seed = c
    r0 = random.Random(seed)
    with scratch() as d:
        held = []  # dict(cols, rows, ordered, obj)
        plan = []  # construction, replayed in a trace or run at once
        kept, files = [], []
        for i, (cols, rows, times, how) in enumerate(bases):
            rows = list(rows) * times
            t = arrow(cols, rows)
            if how == "csv":
                t = pa.table([x.fill_null("-") if pa.types.is_string(x.type) else x for x in t.columns], names=t.column_names)
                if len(cols) == 1:
                    how = "parquet"
                rows = [tuple(x) for x in zip(*[x.to_pylist() for x in t.columns])] if t.num_rows else []
            held.append({"cols": cols, "rows": rows, "ordered": True, "what": f"{how} table {i}"})
            if how == "memory":
                m = chunked(t, r0.random())
                kept.append((m, t))
                plan.append(lambda objs, m=m: table.constant(m))
            else:
                path = f"{d}/base{i}.{how}"
                pq.write_table(t, path, row_group_size=r0.choice([1, 2, 5000])) if how == "parquet" else pa_csv.write_csv(t, path)
                files.append((path, open(path, "rb").read()))
                plan.append(lambda objs, path=path, cols=cols: table.read(path, schema=typ(cols)))
        used = {}  # name in lower case -> set of tables
        ctx = Interpreter()
        objs = []

        def look(k):
            h = held[k]
            compare(h["cols"], h["rows"], h["ordered"], full(objs[k]), h["what"])

        def step(make, h):
            """Adds the table; tells whether it was answered."""
            if traced:
                plan.append(make)
                held.append(h)
                return
            with ctx:
                try:
                    o = make(objs)
                except RuntimeError as e:
                    if "has been registered" in str(e.__cause__) and any(len(used[n]) > 1 for n in h["names"]):
                        label("refused: name taken")
                        return
                    raise
            objs.append(o)
            held.append(h)

        if not traced:
            with ctx:
                for mk in plan:
                    objs.append(mk(objs))
        for what, s in steps:
            r = random.Random(s)
            if what == "look" and not traced:
                with ctx:
                    look(r.randrange(len(objs)))
                continue
            k = [r.randrange(len(held)) for _ in range(r.choice([1, 1, 2]))]
            k = list(dict.fromkeys(k))
            if what == "write":
                src = held[k[0]]
                fmt = r.choice(["parquet", "json"])
                path = f"{d}/w{len(os.listdir(d))}-{len(held)}-{s}.{fmt}"
                if not src["ordered"] or (fmt == "json" and not src["rows"]):
                    fmt, path = "parquet", path.replace(".json", ".parquet")
                def wr(objs, i=k[0], path=path, cols=src["cols"]):
                    back = table.write(objs[i], path, format="auto")
                    return back if traced else table.read(path, schema=typ(cols))
                step(wr, {**src, "names": [], "what": f"{path} written from {src['what']}"})
                continue
            names = []
            for i in k:
                n = f"t{i}" if traced or r.random() < 0.6 else r.choice(NAMES)
                while n.lower() in [x.lower() for x in names]:
                    n += "_"
                names.append(n)
                used.setdefault(n.lower(), set()).add(i)
            sql, cols, ordered = Query(r, [(n, held[i]["cols"]) for n, i in zip(names, k)]).make()
            rows = reference([(n, held[i]["cols"], held[i]["rows"]) for n, i in zip(names, k)], sql)
            if rows is None:
                continue
            rows = [tuple(float(v) if kk == "real" and v is not None else v for v, (_, kk) in zip(row, cols)) for row in rows]
            step(lambda objs, sql=sql, cols=cols, kw=dict(zip(names, k)): table.run_sql(sql, out_type=typ(cols), **{n: objs[i] for n, i in kw.items()}),
                 {"cols": cols, "rows": rows, "ordered": ordered, "names": [n.lower() for n in names], "what": sql})
        if traced:
            def program():
                objs = []
                for mk in plan:
                    objs.append(mk(objs))
                return objs
            objs += mp.evaluate(mp.compile(program, context=ctx), context=ctx)
        with ctx:
            for k in r0.sample(range(len(objs)), len(objs)):
                look(k)
                if r0.random() < 0.2:
                    look(k)
        for m, t in kept:
            bad = differ(t, m)
            check(not bad, lambda: f"a query changed its input: {bad}")
        for path, was in files:
            check(open(path, "rb").read() == was, f"a query changed {path}")
        label("traced" if traced else "eager"), label(f"{len(held) - len(bases)} derived tables")


def nt(c):
    return any(w == "query" for w, _ in c[1]) and any(b[1] for b in c[0])


SUBS = [
    Sub("history", case, run_case, "histories of random queries over memory, files, earlier queries and written tables, looked at in any order, against another SQL engine", nt, quick=600, thorough=60000, shards_quick=4, hang_s=60),
]
