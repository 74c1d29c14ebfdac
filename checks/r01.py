"""R01: the asynchronous scheduler gives the sequential result for any graph and completion order."""

from __future__ import annotations

import concurrent.futures as cf
import contextlib
import itertools
import random
import sys
import threading
import time

from hypothesis import strategies as st

import mplang.edsl.typing as elt
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
from mplang.edsl import serde
from mplang.edsl.graph import Graph
from mplang.runtime.interpreter import ExecutionTracer, Interpreter
from vf.core import Sub, check, label

PROPERTY = "R01"
ASSUMPTIONS = ["operations that hold regions run on the calling thread, as in the shipped set of asynchronous operations",
               "communicating operations are asynchronous and the pool is large enough for all of them to wait at once"]

TY = elt.TensorType(elt.i64, ())
MOD = (1 << 61) - 1


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class Scripted(cf.Executor):
    """Runs submitted tasks in an order and with pauses taken from a script."""

    def __init__(self, workers, script, lazy):
        self.script, self.k, self.lazy = list(script) or [0], 0, lazy
        self.pending, self.cv, self.stop = [], threading.Condition(), False
        self.threads = [threading.Thread(target=self._run, daemon=True) for _ in range(workers)]
        for t in self.threads:
            t.start()

    def submit(self, fn, /, *a, **kw):
        fut = cf.Future()
        if not self.threads:
            self._do(fut, fn, a, kw)
            return fut
        with self.cv:
            self.pending.append((fut, fn, a, kw))
            self.cv.notify()
        return fut

    def _next(self):
        v = self.script[self.k % len(self.script)]
        self.k += 1
        return v

    def _do(self, fut, fn, a, kw):
        try:
            r = fn(*a, **kw)
        except BaseException as e:
            fut.set_exception(e)
        else:
            fut.set_result(r)

    def _run(self):
        while True:
            with self.cv:
                while not self.pending and not self.stop:
                    self.cv.wait()
                if not self.pending:
                    return
                if self.lazy:  # let everything that is ready arrive first
                    n = -1
                    while n != len(self.pending):
                        n = len(self.pending)
                        self.cv.wait(0.002)
                    if not self.pending:
                        continue
                v = self._next()
                fut, fn, a, kw = self.pending.pop(v % len(self.pending))
            pause = (v >> 4) % 4
            if pause == 1:
                time.sleep(0.0003)
            elif pause == 2:
                time.sleep(0.0015)
            self._do(fut, fn, a, kw)

    def shutdown(self, wait=True, *, cancel_futures=False):
        with self.cv:
            self.stop = True
            self.cv.notify_all()
        if wait:
            for t in self.threads:
                t.join()


@st.composite
def scheds(draw):
    return (draw(st.sampled_from([0, 1, 1, 2, 3, 6])), draw(st.lists(st.integers(0, 255), min_size=1, max_size=12)), draw(st.booleans()))


@st.composite
def dags(draw):
    nin = draw(st.integers(0, 3))
    n = draw(st.sampled_from([0, 1, 2, 4, 6, 8, 12, 16, 24]))
    r = random.Random(draw(st.integers(0, 2**32)))
    shape = draw(st.sampled_from(["any", "wide", "deep", "fan"]))
    pasync = draw(st.sampled_from([0.0, 0.3, 0.7, 1.0]))
    size, ops = nin, []
    for i in range(n):
        if size == 0:
            ins = []
        elif shape == "deep":
            ins = [size - 1] + [r.randrange(size) for _ in range(r.randrange(2))]
        elif shape == "wide":
            ins = [r.randrange(max(1, nin)) for _ in range(r.randrange(3))]
        elif shape == "fan":
            ins = [r.randrange(min(size, 3)) for _ in range(r.randrange(1, 4))]
        else:
            ins = [r.randrange(size) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
        if ins and r.random() < 0.2:
            ins.append(ins[0])
        nout = r.choice([1, 1, 1, 1, 0, 2, 3])
        ops.append([tuple(ins), nout, r.random() < pasync, None])
        size += nout
    nfail = draw(st.sampled_from([0, 0, 0, 1, 1, 2])) if n else 0
    for _ in range(nfail):
        o = ops[r.randrange(n)]
        o[3] = r.choice(["exc", "exc", "base", "missing", "arity" if o[1] > 1 else "exc"])
    outs = tuple(r.randrange(size) for _ in range(r.randrange(5))) if size else ()
    return nin, tuple(tuple(o) for o in ops), outs, draw(scheds()), draw(st.booleans())


def build(nin, ops, outs, run):
    g = Graph()
    vals = [g.add_input(f"x{i}", TY) for i in range(nin)]
    for i, (ins, nout, is_async, fail) in enumerate(ops):
        opcode = "vf.missing" if fail == "missing" else ("vf.a" if is_async else "vf.s")
        vals += g.add_op(opcode, [vals[k] for k in ins], output_types=[TY] * nout, attrs={"i": i, "run": run, "fail": fail})
    for k in outs:
        g.add_output(vals[k])
    return g


def apply(i, args, nout):
    h = i * 1000003 + 7
    for a in args:
        h = (h * 31 + a) % MOD
    return [(h * 17 + j) % MOD for j in range(nout)]


def model(nin, ops, outs, inputs):
    """Values (None after a failure), and the operations that fail first."""
    vals, bad, first = list(inputs), [False] * nin, set()
    dep = set()
    for i, (ins, nout, _, fail) in enumerate(ops):
        b = any(bad[k] for k in ins)
        if b:
            dep.add(i)
        elif fail:
            first.add(i)
        vals += [None] * nout if b or fail else apply(i, [vals[k] for k in ins], nout)
        bad += [b or bool(fail)] * nout
    return ([vals[k] for k in outs] if not first else None), first, dep


@contextlib.contextmanager
def fast_switching():
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        yield
    finally:
        sys.setswitchinterval(old)


def run_dag(c):
    nin, ops, outs, sched, traced = c
    inputs = [101 + 7 * k for k in range(nin)]
    want, first, dep = model(nin, ops, outs, inputs)
    calm = tuple((a, b, d, None) for a, b, d, _ in ops)
    want_calm, _, _ = model(nin, calm, outs, inputs)
    log, lock = [], threading.Lock()

    def handler(interp, op, *args):
        i, run = op.attrs["i"], op.attrs["run"]
        with lock:
            log.append((run, i, args))
        fail = op.attrs["fail"]
        if fail == "exc":
            raise Boom(i)
        if fail == "base":
            raise BaseBoom(i)
        r = apply(i, args, len(op.outputs))
        if fail == "arity":
            return r + r[:1]
        return None if not r else r[0] if len(r) == 1 else r

    runs = itertools.count()

    def one(interp, the_ops, want, first, dep, how):
        run = next(runs)
        graph = build(nin, the_ops, outs, run)
        try:
            got, err = interp.evaluate_graph(graph, inputs), None
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, KeyboardInterrupt):
                raise
            got, err = None, e
        with lock:
            mine = [(i, a) for r, i, a in log if r == run]
        ran = [i for i, _ in mine]
        check(len(ran) == len(set(ran)), lambda: f"{how}: an operation ran twice: {sorted(ran)}")
        check(not set(ran) & dep, lambda: f"{how}: operations {sorted(set(ran) & dep)} ran although one they need failed")
        check(all(isinstance(x, int) for _, a in mine for x in a), lambda: f"{how}: an operation got {mine}")
        if not first:
            check(err is None, lambda: f"{how}: failed with {type(err).__name__}: {err}")
            check(got == want, lambda: f"{how}: {got} instead of {want}")
            check(set(ran) == set(range(len(the_ops))), lambda: f"{how}: ran {sorted(ran)} of {len(the_ops)} operations")
            return
        check(err is not None, lambda: f"{how}: operations {sorted(first)} fail, but a value came back: {got}")
        kinds = {i: the_ops[i][3] for i in first}
        if isinstance(err, (Boom, BaseBoom)):
            check(err.args[0] in kinds and kinds[err.args[0]] == ("exc" if isinstance(err, Boom) else "base"), lambda: f"{how}: error {err!r}, but the failing ones are {kinds}")
        elif isinstance(err, NotImplementedError):
            check("missing" in kinds.values(), lambda: f"{how}: {err!r}, but the failing ones are {kinds}")
        else:
            check("arity" in kinds.values() and isinstance(err, (ValueError, RuntimeError)), lambda: f"{how}: {err!r}, but the failing ones are {kinds}")

    hs = {"vf.a": handler, "vf.s": handler}
    seq = Interpreter(handlers=hs)
    one(seq, ops, want, first, dep, "in sequence")
    ex = Scripted(*sched)
    try:
        tracer = ExecutionTracer(enabled=True, trace_dir="trace") if traced else None
        par = Interpreter(handlers=hs, executor=ex, tracer=tracer)
        par.async_ops = {"vf.a", "vf.missing"}
        with fast_switching():
            one(par, ops, want, first, dep, "concurrently")
            # whatever a failed evaluation left running must not reach the next one
            one(par, calm, want_calm, set(), set(), "concurrently, next evaluation" if first else "concurrently, second time")
    finally:
        ex.shutdown()
    label("fails: " + ",".join(sorted({str(ops[i][3]) for i in first})) if first else "succeeds")
    label(f"pool {sched[0]}")


# ---------------------------------------------------------------- nested graphs that communicate


@st.composite
def nests(draw):
    r = random.Random(draw(st.integers(0, 2**32)))
    budget = [draw(st.integers(4, 24))]

    def region(depth):
        n, ops = r.randrange(2, 9) if depth == 0 else r.randrange(1, 6), []
        for i in range(n):
            if budget[0] <= 0:
                break
            budget[0] -= 1
            ins = tuple(r.randrange(i) for _ in range(r.choice([0, 1, 1, 1, 2]))) if i else ()
            kind = r.choice(["calc", "calc", "calc", "talk", "talk", "talk", "sync", "sync"] + (["call", "twice", "twice", "twice", "cond"] if depth < 3 else []))
            sub = [region(depth + 1) for _ in range(2 if kind == "cond" else 1)] if kind in ("call", "twice", "cond") else []
            if kind == "cond" and r.random() < 0.5:
                sub[1] = sub[0]
            ops.append((kind, ins, tuple(sub)))
        return tuple(ops)

    top = region(0)
    parties = draw(st.integers(2, 3))
    return top, parties, [draw(scheds()) for _ in range(parties)], draw(st.integers(1, 2))


def build_nest(ops):
    g = Graph()
    tok = g.add_input("t", TY)
    vals = []
    for i, (kind, ins, subs) in enumerate(ops):
        vals += g.add_op("vf." + kind, [tok] + [vals[k] for k in ins], output_types=[TY], attrs={"i": i}, regions=[build_nest(s) for s in subs])
    for v in vals:
        g.add_output(v)
    return g


def count(ops, kind="talk"):
    return sum((k == kind) + sum(count(s, kind) for s in subs) for k, _, subs in ops)


def digest(tok, vs):
    return apply(5, [hash(tok) % MOD] + list(vs), 1)[0]


def ref_nest(ops, tok, rank_sum):
    vals = []
    for i, (kind, ins, subs) in enumerate(ops):
        a = [vals[k] for k in ins]
        p = tok + (i,)
        if kind in ("calc", "sync"):
            vals.append(digest(p, a))
        elif kind == "talk":
            vals.append(digest(p, a + [rank_sum]))
        elif kind == "call":
            vals.append(digest(p, ref_nest(subs[0], p + ("a",), rank_sum)))
        elif kind == "twice":
            vals.append(digest(p, ref_nest(subs[0], p + ("a",), rank_sum) + ref_nest(subs[0], p + ("b",), rank_sum)))
        else:
            w = digest(p, a) % 2
            vals.append(digest(p, ref_nest(subs[w], p + ("a",), rank_sum)))
    return vals


def run_nest(c):
    top, P, schs, times = c
    n_talk = count(top)
    base = build_nest(top)
    rank_sum = sum(range(P))
    mesh = LocalMesh(P)
    results, errors, ctxs = {}, {}, [{} for _ in range(P)]
    exs = []

    def party(rank):
        def leaf(interp, op, tok, *a):
            p = tok + (op.attrs["i"],)
            ctxs[rank][p] = interp.current_comm_ctx()._id
            return digest(p, a)

        def talk(interp, op, tok, *a):
            p = tok + (op.attrs["i"],)
            ctx = interp.current_comm_ctx()
            ctxs[rank][p] = ctx._id
            got = rank
            for q in range(P):
                if q != rank:
                    if rank < q:
                        ctx.send(q, (p, rank))
                    pp, rr = ctx.recv(q)
                    if rank > q:
                        ctx.send(q, (p, rank))
                    check(pp == p and rr == q, f"party {rank} at {p} received the message of {rr} at {pp}")
                    got += rr
            return digest(p, list(a) + [got])

        def call(interp, op, tok, *a):
            p = tok + (op.attrs["i"],)
            if op.opcode == "vf.cond":
                return digest(p, interp.evaluate_graph(op.regions[digest(p, a) % 2], [p + ("a",)]))
            r = interp.evaluate_graph(op.regions[0], [p + ("a",)])
            if op.opcode == "vf.twice":
                r = r + interp.evaluate_graph(op.regions[0], [p + ("b",)])
            return digest(p, r)

        g = base if rank == 0 else serde.loads(serde.dumps(base))  # workers get their own copy
        w, script, lazy = schs[rank]
        ex = Scripted(max(1, 2 * n_talk), script, lazy)
        exs.append(ex)
        it = Interpreter(handlers={"vf.calc": leaf, "vf.sync": leaf, "vf.talk": talk, "vf.call": call, "vf.twice": call, "vf.cond": call},
                         executor=ex, comm_ctx=CommContext(mesh.comms[rank], "job", rank))
        it.async_ops = {"vf.calc", "vf.talk"}
        try:
            results[rank] = [it.evaluate_graph(g, [(k,)]) for k in range(times)]
        except BaseException as e:  # noqa: BLE001
            errors[rank] = e
            mesh.shutdown(wait=False)

    with fast_switching():
        ts = [threading.Thread(target=party, args=(r,), daemon=True) for r in range(P)]
        for t in ts:
            t.start()
        end = time.time() + 12
        for t in ts:
            t.join(max(0.0, end - time.time()))
    stuck = [r for r, t in enumerate(ts) if t.is_alive()]
    mesh.shutdown(wait=False)
    for ex in exs:
        ex.shutdown(wait=False)
    check(not errors, lambda: f"{errors}")
    check(not stuck, lambda: f"parties {stuck} wait for each other forever; contexts used: { {p: [d.get(p) for d in ctxs] for p in ctxs[0] if len({d.get(p) for d in ctxs}) > 1} }")
    want = [ref_nest(top, (k,), rank_sum) for k in range(times)]
    for r in range(P):
        check(results[r] == want, lambda: f"party {r} got {results[r]} instead of {want}")
        check(ctxs[r] == ctxs[0], lambda: f"parties disagree about contexts: { {p: (ctxs[0][p], ctxs[r].get(p)) for p in ctxs[0] if ctxs[0][p] != ctxs[r].get(p)} }")
    label(f"parties {P}")
    label("nested" if any(s for _, _, s in top) else "flat")


SUBS = [
    Sub("dag", dags, run_dag, "graphs of up to 24 operations (repeated inputs and outputs, dead values, 0 to 3 results), run under a scripted pool with up to two failing operations; non-trivial = at least two asynchronous operations",
        lambda c: sum(o[2] for o in c[1]) > 1, quick=700, thorough=20000, shards_quick=2, shards_thorough=6, hang_s=20),
    Sub("nested", nests, run_nest, "nested graphs in which parties under different schedules exchange messages; non-trivial = two or more exchanges",
        lambda c: count(c[0]) > 1, quick=350, thorough=8000, shards_quick=2, shards_thorough=6, hang_s=60),
]
KNOWN = []
