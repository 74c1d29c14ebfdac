"""O01: traces, profiles, statistics and printed graphs tell what happened and change nothing."""

from __future__ import annotations

import contextlib
import dataclasses
import glob
import http.server
import io
import itertools
import json
import os
import pathlib
import random
import shutil
import tempfile
import threading
import time
from collections import Counter
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks.c01 import together
from checks.p01 import judge
from mplang.backends.simp_worker.http import CommConfig, CommStats, HttpCommunicator
from mplang.edsl import format_graph
from mplang.edsl import registry, typing as elt
from mplang.edsl.graph import Graph
from mplang.edsl.tracer import trace
from mplang.runtime.interpreter import ExecutionTracer, Interpreter
from vf import mpprog, prog
from vf.core import Sub, check, label

PROPERTY = "O01"
ASSUMPTIONS = ["the files of a trace are only written for at least 100 events, as documented in the code",
               "received bytes are counted for byte messages only, as documented in the code"]
_n = itertools.count()


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.getcwd())
    try:
        yield pathlib.Path(d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- printed graphs

TYPES = [elt.TensorType(elt.f32, (2,)), elt.TensorType(elt.i64, (1, 3)), elt.TensorType(elt.f32, ()), elt.MPType(elt.TensorType(elt.f32, (2,)), (0, 2)),
         elt.MPType(elt.TensorType(elt.f32, (2,)), (0, 1)), elt.TableType({"a": elt.i64, "b": elt.f32}), elt.CustomType("Key"), elt.TensorType(elt.f32, (3,))]
ATTRS = [0, 1, -5, 2.5, "x", "a}{ = b", "", None, True, (0, 1), [1, [2]], {"p": 1}, "two\nlines", b"\x00"]
CODES = ["tensor.add", "simp.pcall_static", "x.y", "func.call", "a.b_c"]


def build(r, depth, taken):
    """A random graph as plain facts: (inputs, ops, outputs); values are numbered by order of definition."""
    n_in = r.randrange(0, 4)
    inputs = [r.randrange(len(TYPES)) for _ in range(n_in)]
    ops, n = [], n_in
    for _ in range(r.randrange(0, 5)):
        args = [r.randrange(n) for _ in range(r.randrange(0, 4))] if n else []
        attrs = {k: r.randrange(len(ATTRS)) for k in r.sample(["axis", "b", "fn_name", "zz"], r.randrange(0, 4))}
        outs = [r.randrange(len(TYPES)) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        regions = [build(r, depth - 1, taken) for _ in range(r.choice([0, 0, 1, 2]))] if depth else []
        ops.append([r.choice(CODES), args, attrs, outs, regions])
        n += len(outs)
    return [inputs, ops, [r.randrange(n) for _ in range(r.randrange(0, 4))] if n else []]


def graph_of(facts):
    inputs, ops, outs = facts
    g = Graph()
    vals = [g.add_input(f"%arg{i}", TYPES[t]) for i, t in enumerate(inputs)]
    for code, args, attrs, os_, regions in ops:
        vals += g.add_op(opcode=code, inputs=[vals[i] for i in args], output_types=[TYPES[t] for t in os_],
                         attrs={k: ATTRS[v] for k, v in attrs.items()}, regions=[graph_of(x) for x in regions])
    g.outputs = [vals[i] for i in outs]
    return g


def edit(r, facts):
    """The same facts but for one of them, or None."""
    import copy

    f = copy.deepcopy(facts)
    at = f
    while True:
        inner = [x for op in at[1] for x in op[4]]
        if not inner or r.randrange(2):
            break
        at = r.choice(inner)
    if not at[1]:
        if not at[0]:
            return None
        i = r.randrange(len(at[0]))
        at[0][i] = (at[0][i] + 1) % len(TYPES)
        return f, "input type"
    op = r.choice(at[1])
    k = r.randrange(6)
    if k == 0:
        op[0] += "2"
        return f, "operation"
    if k == 1 and op[1]:
        n = len(at[0]) + sum(len(o[3]) for o in at[1][:at[1].index(op)])
        if n < 2:
            return None
        i = r.randrange(len(op[1]))
        op[1][i] = (op[1][i] + r.randrange(1, n)) % n
        return f, "operand"
    if k == 2 and op[2]:
        a = r.choice(sorted(op[2]))
        op[2][a] = (op[2][a] + r.randrange(1, len(ATTRS))) % len(ATTRS)
        return f, "attribute"
    if k == 3 and op[3]:
        i = r.randrange(len(op[3]))
        op[3][i] = (op[3][i] + r.randrange(1, len(TYPES))) % len(TYPES)
        return f, "result type"
    if k == 4 and op[4]:
        op[4].pop()
        return f, "region"
    if k == 5 and at[2]:
        n = len(at[0]) + sum(len(o[3]) for o in at[1])
        if n < 2:
            return None
        i = r.randrange(len(at[2]))
        at[2][i] = (at[2][i] + r.randrange(1, n)) % n
        return f, "output"
    return None


def read(lines, g, types, attrs, where="graph"):
    """Walks the printed lines of g, in the order of its operations; every fact must be on its line."""
    def has(line, parts, what):
        pos = 0
        for x in parts:
            i = line.find(x, pos)
            check(i >= 0, lambda: f"{where}: {what} is printed as {line!r}, which lacks {x!r}")
            pos = i + len(x)

    def take(what):
        check(lines, f"{where}: the text ends before {what}")
        return lines.pop(0)

    has(take("its inputs"), [x for v in g.inputs for x in ([v.name, str(v.type)] if types else [v.name])] + ["{"], "the input list")
    for i, op in enumerate(g.operations):
        line = take(f"operation {i}")
        what = f"operation {i} {op.opcode}"
        has(line, [v.name for v in op.outputs] + ["=", op.opcode + "(", *(v.name for v in op.inputs), ")"], what)
        if attrs:
            for k, v in op.attrs.items():
                has(line, [f"{k}={v!r}"], f"{what} attribute {k}")
        if types:
            has(line, [str(v.type) for v in op.outputs], what)
        if op.regions:
            for j, reg in enumerate(op.regions):
                read(lines, reg, types, attrs, f"{where}/{i}.{j}")
            check(take("}").strip() == "}", f"{where}: {what} is not closed")
    if g.outputs:
        has(take("return"), ["return", *(v.name for v in g.outputs)], "the result list")
    check(take("}").strip() == "}", f"{where}: not closed")


def run_print(c):
    seed, depth, types, attrs = c
    r = random.Random(seed)
    facts = build(r, depth, set())
    g = graph_of(facts)
    opts = {} if types and attrs else {"show_types": types, "show_attrs": attrs}
    text = format_graph(g, **opts)
    lines = text.split("\n")
    read(lines, g, types, attrs)
    check(not lines, lambda: f"{len(lines)} lines too many: {lines[:3]}")
    check(format_graph(graph_of(facts), **opts) == text, "the same graph is printed differently")
    # the flat listing
    for verbose in (False, True):
        flat = g.to_string(verbose=verbose)
        pos = 0
        for v in g.inputs:
            line = f"{v.name} = input" + (f" : {v.type}" if verbose else "")
            check(line in flat[pos:], lambda: f"listing lacks {line!r}")
            pos = flat.index(line, pos) + len(line)
        for op in g.operations:
            pat = f"{op.opcode}({', '.join(v.name for v in op.inputs)})"
            check(pat in flat[pos:], lambda: f"listing lacks {pat!r}")
            pos = flat.index(pat, pos) + len(pat)
    e = edit(r, facts)
    if e:
        other, what = e
        g2 = graph_of(other)
        if types and attrs:
            check(format_graph(g2) != text, lambda: f"two graphs that differ in one {what} are printed alike:\n{text}")
            label(f"differs in {what}")
    if any(op[4] for op in facts[1]):
        label("with regions")


# ---------------------------------------------------------------- tracing one interpreter

FAST = ["const", "transpose", "reshape", "concat", "gather", "slice", "func", "ew"]


class Tap:
    """Counts what an interpreter executes, by wrapping every implementation."""

    def __init__(self):
        self.seen = Counter()
        self.lock = threading.Lock()

    def handlers(self, base=None, fail=None):
        out = {}
        for code, fn in {**registry._IMPL_REGISTRY, **(base or {})}.items():
            def wrap(interp, op, *args, code=code, fn=fn):
                with self.lock:
                    self.seen[code, interp.trace_pid] += 1
                    k = sum(self.seen.values())
                if fail is not None and k == fail:
                    raise ZeroDivisionError("planned")
                return fn(interp, op, *args)

            out[code] = wrap
        return out


def events(tracer, cat="op"):
    return Counter((e["args"]["opcode"], e["pid"]) for e in tracer.trace_events if e["cat"] == cat)


def sane(evs, t0, t1):
    for e in evs:
        check(e["ph"] == "X" and e["dur"] >= 0 and t0 * 1e6 - 1e5 <= e["ts"] and e["ts"] + e["dur"] <= t1 * 1e6 + 1e5, lambda: f"event {e} outside of the run {t0 * 1e6}..{t1 * 1e6}")


@st.composite
def observed(draw):
    return draw(prog.cases(ops=FAST, max_stmts=7)), draw(st.sampled_from(["sync", "async", "async all"])), draw(st.sampled_from([1, 2, 40])), draw(st.sampled_from([None, None, None, 1, 2, 4])), draw(st.booleans())


def run_observed(c):
    case, how, times, fail, job = c
    plan, vals, out = prog.resolve(case)
    g = trace(prog.function(plan, out), *prog_inputs(case)).graph
    if not g.operations:
        return
    t_exp, ins = {}, [prog_value(a) for a in case[0]]
    n_ops = len(g.operations)
    from concurrent.futures import ThreadPoolExecutor

    with scratch() as d:
        for mode in ("plain", "traced", "off"):
            tap = Tap()
            ex = ThreadPoolExecutor(4) if how != "sync" else None
            tracer = None if mode == "plain" else ExecutionTracer(enabled=mode == "traced", trace_dir=d / mode)
            if tracer:
                tracer.start()
            it = Interpreter(executor=ex, tracer=tracer, trace_pid=3, handlers=tap.handlers(fail=fail))
            if ex:
                it.async_ops = {op.opcode for op in g.operations if how == "async all" or len(op.opcode) % 2} - {"func.call", "tensor.elementwise"}
            t0 = time.time()
            try:
                for i in range(times):
                    try:
                        res = it.evaluate_graph(g, list(ins), *([f"job{i}"] if job else []))
                    except ZeroDivisionError:
                        res = "failed"
            finally:
                if ex:
                    ex.shutdown(wait=True)
            t1 = time.time()
            if mode == "plain":
                t_exp = {"res": res, "seen": Counter(tap.seen) if fail is None else None}
                continue
            if fail is None or times == 1:
                check((res == "failed") == (t_exp["res"] == "failed"), f"{mode}: the program failed only with or without observation")
            if res != "failed" and t_exp["res"] != "failed":
                e = prog.close([unwrap(x) for x in t_exp["res"]], [unwrap(x) for x in res])
                check(e is None, lambda: f"{mode}: {e}")
            if fail is None:
                check(tap.seen == t_exp["seen"], lambda: f"{mode}: executes {tap.seen} instead of {t_exp['seen']}")
            got = events(tracer)
            if mode == "off":
                check(not tracer.trace_events and not (d / "off").exists(), "events are recorded though tracing is off")
                continue
            want = Counter(tap.seen)
            if fail is not None and t_exp["res"] == "failed" or fail is not None:
                extra = got - want
                check(not extra, lambda: f"events for operations that did not run: {extra}")
                label("failing")
                continue
            check(got == want, lambda: f"executed {dict(want)} but traced {dict(got)}")
            sane(tracer.trace_events, t0, t1)
            files = sorted(glob.glob(str(d / "traced" / "*")))
            if job:
                check(bool(files) == (len(tracer.trace_events) >= 100), f"{len(files)} files for {len(tracer.trace_events)} events")
                if files:
                    last = d / "traced" / f"trace_job{times - 1}_rank_3.json"
                    check(last.exists(), lambda: f"the last of {times} runs wrote no file: {files}")
                    data = json.loads(last.read_text())
                    check(data["traceEvents"] == tracer.trace_events, "the file does not hold the events")
                    label("file written")
            else:
                tracer.stop("done")
                files = sorted(glob.glob(str(d / "traced" / "done_*")))
                check(bool(files) == (len(tracer.trace_events) >= 100), f"{len(files)} files for {len(tracer.trace_events)} events")
                for f in files:
                    check(json.loads(pathlib.Path(f).read_text())["traceEvents"] == tracer.trace_events, "the file does not hold the events")
            label(how)
            if prog.has(plan, "func"):
                label("nested")
    _ = n_ops


@st.composite
def crowds(draw):
    return draw(prog.cases(ops=FAST, max_stmts=6)), draw(st.integers(2, 4)), draw(st.integers(1, 3)), draw(st.sampled_from([1, 1, 2, 5])), draw(st.booleans())


def run_crowd(c):
    """Interpreters of several ranks share a graph, a tracer and an executor with few threads."""
    case, ranks, threads, times, all_async = c
    from concurrent.futures import ThreadPoolExecutor

    plan, vals, out = prog.resolve(case)
    g = trace(prog.function(plan, out), *prog_inputs(case)).graph
    if not g.operations:
        return
    ins = [prog_value(a) for a in case[0]]
    want = [unwrap(x) for x in Interpreter().evaluate_graph(g, list(ins))]
    with scratch() as d, ThreadPoolExecutor(threads) as ex:
        tap = Tap()
        tracer = ExecutionTracer(enabled=True, trace_dir=d)
        tracer.start()
        t0 = time.time()

        def work(rank):
            it = Interpreter(executor=ex, tracer=tracer, trace_pid=rank, handlers=tap.handlers())
            # (a nested program runs on the thread of its call, so it must not wait for the same threads)
            it.async_ops = {op.opcode for op in g.operations if all_async or len(op.opcode) % 2} - {"func.call", "tensor.elementwise"}
            for _ in range(times):
                e = prog.close(want, [unwrap(x) for x in it.evaluate_graph(g, list(ins))])
                check(e is None, lambda: f"rank {rank}: {e}")

        together([lambda r=r: work(r) for r in range(ranks)], 60, "traced ranks")
        evs = list(tracer.trace_events)
        t1 = time.time()
        got = events(tracer)
        check(got == tap.seen, lambda: f"executed {dict(tap.seen)} but traced {dict(got)}")
        queued = Counter((e["name"], e["pid"]) for e in evs if e["cat"] == "scheduler")
        check(queued == Counter({(f"Queue: {code}", rank): n for (code, rank), n in tap.seen.items()}), lambda: f"scheduled {dict(tap.seen)} but traced {dict(queued)}")
        sane(evs, t0, t1)


def prog_inputs(case):
    from mplang.runtime.interpreter import InterpObject

    out = []
    for a in case[0]:
        v = prog_value(a)
        out.append(InterpObject(v, elt.TensorType(dtype_of(a), np.asarray(a).shape), None))
    return out


def dtype_of(a):
    from mplang.dialects import dtypes

    return dtypes.from_dtype(np.asarray(a).dtype)


def prog_value(a):
    from mplang.backends.tensor_impl import TensorValue

    return TensorValue(np.asarray(a))


def unwrap(v):
    return v.unwrap() if hasattr(v, "unwrap") else v


# ---------------------------------------------------------------- profiles of operations


@st.composite
def profiles(draw):
    return draw(st.lists(prog.cases(ops=[o for o in FAST if o not in ("func", "ew")], max_stmts=6), min_size=1, max_size=3)), draw(st.sampled_from([1, 1, 3])), draw(st.integers(1, 4)), draw(st.booleans())


def run_profile(c):
    cases, threads, times, again = c
    todo = []
    for case in cases:
        plan, vals, out = prog.resolve(case)
        g = trace(prog.function(plan, out), *prog_inputs(case)).graph
        todo.append((g, [prog_value(a) for a in case[0]], Interpreter().evaluate_graph(g, [prog_value(a) for a in case[0]])))
    prof = registry.get_profiler()
    before = prof.summary()
    check(not prof.enabled, "profiling is on by itself")
    for g, ins, _ in todo:
        Interpreter().evaluate_graph(g, ins)
    check(prof.summary() == before, "operations are recorded though profiling is off")

    def work():
        for _ in range(times):
            for g, ins, want in todo:
                e = prog.close([unwrap(x) for x in want], [unwrap(x) for x in Interpreter().evaluate_graph(g, ins)])
                check(e is None, lambda: f"with profiling on: {e}")

    registry.enable_profiling()
    t0 = time.perf_counter()
    try:
        together([work] * threads, 60, "profiled programs")
        if again:
            got = {k: v["count"] for k, v in prof.summary().items()}
    finally:
        registry.disable_profiling()
    took = time.perf_counter() - t0
    s = prof.summary()
    want = Counter(op.opcode for g, _, _ in todo for op in g.operations)
    want = {k: v * times * threads for k, v in want.items()}
    check({k: v["count"] for k, v in s.items()} == want, lambda: f"executed {want}, profile says { {k: v['count'] for k, v in s.items()} }")
    if again:
        check(got == want, "the counts change when profiling is switched off")
    for k, v in s.items():
        check(0 <= v["min"] <= v["mean"] * (1 + 1e-9) and v["mean"] <= v["max"] * (1 + 1e-9) and abs(v["total"] - v["mean"] * v["count"]) < 1e-6 and v["max"] <= took, lambda: f"impossible times for {k}: {v}")
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        prof.print_summary()
        prof.print_leaf_summary()
    for k, n in want.items():
        rows = [ln.split() for ln in buf.getvalue().split("\n") if ln.split()[:1] == [k]]
        check(len(rows) == 2 and all(r[1] == str(n) for r in rows), lambda: f"{k} ran {n} times, printed {rows}")
    for g, ins, _ in todo:
        Interpreter().evaluate_graph(g, ins)
    check(prof.summary() == s, "operations are recorded after profiling ended")
    registry.enable_profiling()
    registry.disable_profiling()
    check(prof.summary() == {}, "enabling keeps the old times")
    if threads > 1:
        label("threads")


# ---------------------------------------------------------------- tracing the parties of a simulator


@st.composite
def sims(draw):
    return draw(st.integers(1, 5)), draw(st.integers(2, 12)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["eager", "traced", "traced"]))


def run_sim(c):
    P, size, seed, how = c
    from checks.p01 import execute
    from mplang.libs.device import ClusterSpec

    stmts, desc = mpprog.Gen(seed, P, size=size).program()
    model = mpprog.ev(stmts, [], {})
    what = f"{how} program {stmts} on {P} parties, traced"
    with scratch() as d:
        old = os.environ.get("MPLANG_DATA_ROOT")
        os.environ["MPLANG_DATA_ROOT"] = str(d)
        ok, buf = False, io.StringIO()
        try:
            name = f"o{next(_n)}"
            sim = mp.make_simulator(P, cluster_spec=dataclasses.replace(ClusterSpec.simple(P), cluster_id=name), enable_tracing=True)
            try:
                tap = Tap()
                for infra in sim._simp_cluster.infras:
                    infra.handlers.update(tap.handlers(infra.handlers))
                t0 = time.time()
                outs, vals = execute(sim, how, lambda: mpprog.build(stmts, []), 20, what)
                ok = True
            finally:
                if ok:
                    with contextlib.redirect_stdout(buf):
                        sim.shutdown()
                else:
                    sim._simp_cluster.shutdown(wait=False)
            judge(P, desc, model, outs, vals, what)
            tracer = sim._simp_cluster.tracer
            got = events(tracer)
            ranks = Counter({k: v for k, v in got.items() if k[1] in range(P)})
            host = {k for k in tap.seen if k[1] not in range(P)}
            check(not host, "harness")
            # the driver's own operations carry the process id
            check(ranks == tap.seen, lambda: f"{what}: executed {dict(tap.seen)} but traced {dict(ranks)}")
            sane(tracer.trace_events, t0, time.time())
            files = glob.glob(str(d / name / "__host__" / "trace" / "*.json"))
            for f in files:
                data = json.loads(pathlib.Path(f).read_text())
                check(all(e in tracer.trace_events for e in data["traceEvents"]), "a file holds events that did not happen")
            if len(tracer.trace_events) >= 100:
                check(files, "no file though there are 100 events")
                full = max((json.loads(pathlib.Path(f).read_text())["traceEvents"] for f in files), key=len)
                check(len(full) >= 100, "no file holds 100 events")
                label("file")
        finally:
            if old is None:
                os.environ.pop("MPLANG_DATA_ROOT")
            else:
                os.environ["MPLANG_DATA_ROOT"] = old
    label(how)


# ---------------------------------------------------------------- statistics of the communication


class Server:
    """A loopback HTTP server that keeps what it is sent and answers as told."""

    def __init__(self):
        outer = self
        self.log, self.plan, self.lock = [], {}, threading.Lock()

        class H(http.server.BaseHTTPRequestHandler):
            def do_PUT(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                key = self.path.rsplit("/", 1)[1]
                answer = outer.plan.get(key, "ok")
                with outer.lock:
                    outer.log.append((key, dict(self.headers), body, answer))
                if answer == "slow":
                    time.sleep(0.4)
                code = 500 if answer == "error" else 200
                self.close_connection = answer == "drop"
                if answer == "drop":
                    return
                try:
                    self.send_response(code)
                    self.send_header("Content-Length", "2")
                    self.end_headers()
                    self.wfile.write(b"{}")
                except OSError:
                    pass

            def log_message(self, *a):
                pass

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.srv.daemon_threads = True
        threading.Thread(target=self.srv.serve_forever, args=(0.01,), daemon=True).start()
        self.url = f"http://127.0.0.1:{self.srv.server_address[1]}"

    def close(self):
        self.srv.shutdown()
        self.srv.server_close()


PAYLOADS = [b"", b"abc", b"\x00" * 5000, 1, "text", [1, {"a": 2.5}], None, {"b": [1, 2, 3]}]


@st.composite
def talks(draw):
    n = draw(st.integers(1, 14))
    sends = [(draw(st.integers(0, len(PAYLOADS) - 1)), draw(st.sampled_from(["ok", "ok", "ok", "ok", "error", "drop", "slow"])), draw(st.sampled_from(["sync", "async"]))) for _ in range(n)]
    recvs = draw(st.lists(st.tuples(st.sampled_from(["bytes", "bytes", "other"]), st.integers(0, 300), st.sampled_from(["before", "late", "never"])), max_size=8))
    return sends, recvs, draw(st.booleans()), draw(st.booleans()), draw(st.integers(1, 3))


def run_talk(c):
    sends, recvs, binary, traced, threads = c
    srv = Server()
    with scratch() as d:
        tracer = ExecutionTracer(enabled=True, trace_dir=d) if traced else None
        if tracer:
            tracer.start()
        comm = HttpCommunicator(0, 2, ["http://none", srv.url], tracer=tracer, config=CommConfig(http_timeout=5.0, use_binary=binary))
        srv.plan = {f"k{i}": a for i, (_, a, _) in enumerate(sends)}
        raised = [False] * len(sends)
        stop = threading.Event()

        def sender(me):
            for i, (p, a, how) in enumerate(sends):
                if i % threads != me:
                    continue
                try:
                    if how == "sync" or a == "slow":
                        comm.send_sync(1, f"k{i}", PAYLOADS[p], **({"timeout": 0.1} if a == "slow" else {}))
                    else:
                        comm.send(1, f"k{i}", PAYLOADS[p]).wait(10)
                except Exception:  # noqa: BLE001
                    raised[i] = True

        def receiver():
            for i, (kind, size, when) in enumerate(recvs):
                data = b"r" * size if kind == "bytes" else ["r" * size]
                if when == "before":
                    comm.on_receive(1, f"r{i}", data)
                t = None
                if when == "late":
                    t = threading.Timer(0.01, comm.on_receive, (1, f"r{i}", data))
                    t.start()
                try:
                    got = comm.recv(1, f"r{i}", timeout=0.02 if when == "never" else 10)
                    check(when != "never" and got == data, f"received {got!r}")
                except TimeoutError:
                    check(when == "never", "timed out")

        def looker():
            while not stop.is_set():
                s = comm.stats.snapshot()
                check(s["messages_sent"] > 0 or s["avg_send_latency_ms"] == 0, lambda: f"inconsistent snapshot {s}")
                time.sleep(0.001)

        def all_senders():
            ts = [threading.Thread(target=sender, args=(k,)) for k in range(threads)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            stop.set()

        try:
            together([all_senders, receiver, looker], 60, "communication")
        finally:
            stop.set()
            comm.shutdown()
            srv.close()
        sizes = {}
        for key, _, body, answer in srv.log:
            sizes[key] = len(body) if binary else len(json.loads(body)["data"])
        good = [i for i, (_, a, _) in enumerate(sends) if a == "ok"]
        check([i for i, x in enumerate(raised) if not x] == good, lambda: f"sends {[i for i, x in enumerate(raised) if not x]} succeeded instead of {good}")
        s = comm.stats.snapshot()
        arrived = [(k, n) for k, n, w in recvs if w != "never"]
        want = {"messages_sent": len(good), "bytes_sent": sum(sizes[f"k{i}"] for i in good), "send_errors": len(sends) - len(good),
                "messages_received": len(arrived), "bytes_received": sum(n for k, n in arrived if k == "bytes"), "recv_timeouts": len(recvs) - len(arrived)}
        check({k: s[k] for k in want} == want, lambda: f"statistics {s} instead of {want}")
        check((s["avg_send_latency_ms"] > 0) == bool(good) and (s["avg_recv_wait_time_ms"] > 0 or not arrived), lambda: f"latencies {s}")
        if tracer:
            ev = Counter((e["name"], e["args"]["to"], e["args"]["key"], e["args"]["bytes"]) for e in tracer.trace_events)
            want_ev = Counter(("comm.send_req", 1, f"k{i}", sizes[f"k{i}"]) for i in good)
            want_ev += Counter(("comm.send", 1, f"k{i}", sizes[f"k{i}"]) for i in range(len(sends)))
            check(ev == want_ev, lambda: f"traced {ev - want_ev} too much and {want_ev - ev} too little")
            for i in range(100):
                tracer.log_custom_event("filler", 0.0, 0.0)
            tracer.end_time = time.time()
            with contextlib.redirect_stdout(io.StringIO()):
                tracer.save_trace(job_id="j", rank=0)
            data = json.loads((d / "trace_j_rank_0.json").read_text())
            check(data["metadata"]["comm_stats"]["rank_0"] == s, lambda: f"the file says {data['metadata']} instead of {s}")
            label("traced")
        comm.stats.reset()
        check(not any(comm.stats.snapshot().values()), "reset leaves something")
    for _, a, _ in sends:
        label(a)


# ---------------------------------------------------------------- merging the files of several ranks


@st.composite
def merges(draw):
    files = []
    for i in range(draw(st.integers(1, 5))):
        ev = draw(st.lists(st.tuples(st.integers(0, 99999), st.sampled_from([None, 0, 1, 7, 9999, 12345]), st.booleans()), max_size=6))
        files.append((draw(st.sampled_from([None, "rank", "rank"])), ev, draw(st.integers(0, 9)) == 0))
    return files, draw(st.lists(st.integers(0, 30), min_size=5, max_size=5, unique=True))


def run_merge(c):
    from mplang import cli

    files, ranks = c
    with scratch() as d:
        want, by_rank, uid = [], {}, itertools.count()
        for i, (kind, ev, broken) in enumerate(files):
            name = f"trace_job_{i}" + (f"_rank_{ranks[i]}" if kind else "") + ".json"
            evs = []
            for ts, pid, args in ev:
                e = {"name": f"op{next(uid)}", "cat": "op", "ph": "X", "ts": ts, "dur": 1, "tid": 5}
                if pid is not None:
                    e["pid"] = pid
                if args:
                    e["args"] = {"opcode": "x"}
                evs.append(e)
            (d / name).write_text("{" if broken else json.dumps({"traceEvents": evs, "metadata": {}}))
            if not broken:
                for e in evs:
                    want.append((e, ranks[i] if kind else None))
        out = d / "merged.out"
        with contextlib.redirect_stdout(io.StringIO()):
            cli.cmd_trace_merge(SimpleNamespace(pattern=str(d / "trace_*.json"), output=str(out)))
        got = {e["name"]: e for e in json.loads(out.read_text())["traceEvents"]}
        check(len(got) == len(want) == len(json.loads(out.read_text())["traceEvents"]), lambda: f"{len(got)} of {len(want)} events are left")
        for e, rank in want:
            g = got[e["name"]]
            for k in ("name", "cat", "ph", "ts", "dur", "tid"):
                check(g[k] == e[k], lambda: f"{k} of {e} became {g[k]!r}")
            check(("pid" in g) == ("pid" in e), "process id appears or disappears")
            wa = dict(e.get("args", {}))
            if rank is not None:
                wa["rank"] = rank
            check(g.get("args", {}) == wa, lambda: f"arguments {g.get('args')} instead of {wa}")
            if "pid" in g:
                by_rank.setdefault(g["pid"], set()).add(rank)
        check(all(len(x) == 1 for x in by_rank.values()), lambda: f"events of several ranks share a process: {by_rank}")
        per = {}
        for e, rank in want:
            if "pid" in e and e["pid"] < 10000:
                per.setdefault((rank, got[e["name"]]["pid"]), set()).add(e["pid"])
        check(all(len(x) == 1 for x in per.values()), lambda: f"processes of one rank are mixed: {per}")


SUBS = [
    Sub("print", lambda: st.tuples(st.integers(0, 2**40), st.integers(0, 2), st.sampled_from([True, True, True, False]), st.sampled_from([True, True, True, False])), run_print,
        "a random graph with nested regions, odd attribute texts and many types is printed: every fact of every operation is on its line, in order, and a graph that differs in one fact is printed differently; non-trivial if it has operations",
        lambda c: bool(build(random.Random(c[0]), c[1], set())[1]), quick=1500, thorough=15000),
    Sub("run", observed, run_observed, "a random program runs without, with and with switched-off tracing, in order or on the asynchronous scheduler, some with an operation that fails: same results, and the events and the file written are exactly the executed operations; non-trivial with two operations or more",
        lambda c: prog.interesting(c[0]), quick=120, thorough=1500, shards_quick=2),
    Sub("crowd", crowds, run_crowd, "several ranks run one program at the same time with one tracer and few threads: per rank exactly the executed operations appear, each once as queued and once as run; non-trivial with two operations or more",
        lambda c: prog.interesting(c[0]), quick=80, thorough=1500),
    Sub("profile", profiles, run_profile, "random programs run on one or three threads with profiling off, on and off: the counts of the summary and of the printed tables are those of the graphs; non-trivial with two operations or more",
        lambda c: any(prog.interesting(x) for x in c[0]), quick=100, thorough=1000),
    Sub("simulator", sims, run_sim, "a random multi-party program runs on a simulator with tracing: same results as the model, and per party exactly the executed operations as events; non-trivial with two parties or more", lambda c: c[0] > 1, quick=60, thorough=1500, shards_quick=2),
    Sub("stats", talks, run_talk, "random sends (answered, refused, dropped, timed out; from several threads) and receives (early, late, never) against a loopback server that counts: statistics, trace events and file agree with what the server saw; non-trivial with a failure or a receive",
        lambda c: bool(c[1]) or any(a != "ok" for _, a, _ in c[0]), quick=120, thorough=1500, shards_quick=2),
    Sub("merge", merges, run_merge, "random trace files of random ranks, some unreadable, are merged: no event is lost, changed or attributed to another rank; non-trivial with two files", lambda c: len(c[0]) > 1, quick=300, thorough=3000),
]
