"""E01: every way of running a program gives the numpy result."""

from __future__ import annotations

import json
from concurrent.futures import ThreadPoolExecutor

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from mplang.dialects import tensor
from mplang.edsl import serde
from mplang.edsl.tracer import trace
from mplang.backends.tensor_impl import TensorValue
from mplang.runtime.interpreter import InterpObject, Interpreter
from mplang.tool import program as tool
from vf import prog
from vf.core import Sub, check, label

PROPERTY = "E01"
ASSUMPTIONS = ["programs are straight-line tensor programs with nested functions; protocols and devices have their own properties",
               "floating results are compared to 1e-5 / 1e-12 relative, integers exactly"]

OPCODES = ["tensor.constant", "tensor.transpose", "tensor.reshape", "tensor.concat", "tensor.gather", "tensor.slice", "tensor.run_jax", "func.func"]  # leaf operations, as the shipped asynchronous set


def objs(ctx, arrs):
    with ctx:
        return [tensor.constant(a) for a in arrs]


def must(want, got, how):
    r = prog.close(want, got)
    check(r is None, lambda: f"{how}: {r}")


GRAPH_FORMS = {
    "json": lambda g: serde.from_json(serde.to_json(g)),
    "sorted": lambda g: serde.from_json(json.loads(json.dumps(serde.to_json(g), sort_keys=True))),
    "bytes": lambda g: serde.loads(serde.dumps(g)),
    "b64": lambda g: serde.loads_b64(serde.dumps_b64(g)),
    "binary": lambda g: serde.loads_binary(serde.dumps_binary(g)),
}


def unwrap(vs):
    return [v.unwrap() if isinstance(v, TensorValue) else v for v in vs]


def run_modes(case):
    plan, vals, out = prog.resolve(case)
    want = prog.pick(out, vals)
    f = prog.function(plan, out)
    ctx = Interpreter()
    xs = objs(ctx, case[0])
    with ctx:
        nofunc = not prog.has(plan, "func")  # functions as values exist only inside a trace
        if nofunc:
            must(want, mp.fetch(mp.evaluate(f, *xs)), "run directly")
        t = mp.compile(f, *xs)
        must(want, mp.fetch(mp.evaluate(t, *xs)), "traced")
        must(want, mp.fetch(mp.evaluate(t, *xs)), "traced, run again")
        tc = mp.compile(lambda: f(*xs))
        must(want, mp.fetch(mp.evaluate(tc)), "traced with captured inputs")
        if nofunc:
            must(want, mp.fetch(mp.evaluate(lambda: f(*xs))), "closure run directly")
        # a nested trace
        tn = mp.compile(lambda *a: f(*a), *xs)
        must(want, mp.fetch(mp.evaluate(tn, *xs)), "traced wrapper")
    flat_want = prog._leaves_in_order(want)
    rin = [x.runtime_obj for x in xs]
    must(flat_want, unwrap(ctx.evaluate_graph(t.graph, rin)), "graph")
    if nofunc:
        for n, form in GRAPH_FORMS.items():
            g = form(t.graph)
            check([v.type for v in g.inputs] == [v.type for v in t.graph.inputs] and [v.type for v in g.outputs] == [v.type for v in t.graph.outputs], f"{n}: graph signature changed")
            must(flat_want, unwrap(Interpreter().evaluate_graph(g, rin)), f"graph read back from {n}")
        if flat_want:
            p = tool.compile_program(t)
            for c in (True, False):
                q = tool.unpack(tool.pack(p, compress=c))
                with ctx:
                    must(flat_want, mp.fetch(mp.evaluate(q, *xs)), "packed program")
    for s in plan:
        label(s[0] if s[0] != "jax" else f"jax.{s[1]}")


def acases():
    return st.tuples(prog.cases(max_stmts=14), st.sets(st.sampled_from(OPCODES)), st.integers(1, 4))


def run_async(c):
    case, aops, workers = c
    plan, vals, out = prog.resolve(case)
    want = prog.pick(out, vals)
    t = trace(prog.function(plan, out), *[InterpObject(TensorValue(a), _ty(a), None) for a in case[0]])
    flat_want = prog._leaves_in_order(want)
    with ThreadPoolExecutor(workers) as ex:
        it = Interpreter(executor=ex, owns_executor=False)
        it.async_ops = set(aops)
        must(flat_want, unwrap(it.evaluate_graph(t.graph, [TensorValue(a) for a in case[0]])), f"asynchronous with {sorted(aops)}")
    label(f"async ops: {min(len(aops), 3)}")


def _ty(a):
    from mplang.dialects import dtypes
    from mplang.edsl import typing as elt

    return elt.TensorType(dtypes.from_dtype(a.dtype), tuple(a.shape))


def reuse():
    @st.composite
    def go(draw):
        case = draw(prog.cases())
        from vf.gen import arrays
        alts = draw(st.lists(st.tuples(*[arrays([str(a.dtype)], shape=a.shape, allow_nan=False) for a in case[0]]), min_size=1, max_size=3))
        return case, alts

    return go()


def run_reuse(c):
    """One trace, many argument sets (also the same object for several parameters)."""
    case, alts = c
    plan, vals, out = prog.resolve(case)
    f = prog.function(plan, out)
    ctx = Interpreter()
    xs = objs(ctx, case[0])
    with ctx:
        t = mp.compile(f, *xs)
        for alt in [case[0], *alts, case[0]]:
            _, v2, _ = prog.resolve_like(plan, alt)
            ys = [tensor.constant(a) for a in alt]
            must(prog.pick(out, v2), mp.fetch(mp.evaluate(t, *ys)), "trace reused with new arguments")
        same = [xs[0]] * len(xs)
        if all(a.dtype == case[0][0].dtype and a.shape == case[0][0].shape for a in case[0]) and len(xs) > 1:
            _, v2, _ = prog.resolve_like(plan, [case[0][0]] * len(xs))
            must(prog.pick(out, v2), mp.fetch(mp.evaluate(t, *same)), "same object for every parameter")
            t2 = mp.compile(f, *same)
            _, v3, _ = prog.resolve_like(plan, case[0])
            must(prog.pick(out, v3), mp.fetch(mp.evaluate(t2, *xs)), "traced with one object, run with several")
            label("aliased")


SUBS = [
    Sub("modes", lambda: prog.cases(), run_modes, "straight-line programs of up to 8 operations over 1-3 arrays, run directly, traced, through five graph encodings and packed; non-trivial = at least two operations took effect", prog.interesting, quick=250, thorough=4000, shards_quick=4, shards_thorough=8),
    Sub("async", acases, run_async, "the same programs on a thread pool with a drawn set of asynchronous opcodes", lambda c: prog.interesting(c[0]), quick=200, thorough=4000, shards_quick=3, shards_thorough=8),
    Sub("reuse", reuse, run_reuse, "one trace evaluated on several argument sets, aliased arguments included", lambda c: prog.interesting(c[0]), quick=150, thorough=3000, shards_quick=2, shards_thorough=6),
]
KNOWN = []
