"""P01: multi-party operations do to each party exactly what they say."""

from __future__ import annotations

import contextlib
import dataclasses
import itertools

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks.c01 import together
from mplang.edsl.context import pop_context
from vf import httpc, mpprog
from vf.core import Sub, check, label

PROPERTY = "P01"
ASSUMPTIONS = ["inputs merged by converge are disjoint also where their parties are not known when the program is built",
               "a static call over such a value names only parties that hold it"]
_n = itertools.count()


@contextlib.contextmanager
def simulator(P):
    from mplang.libs.device import ClusterSpec

    sim = mp.make_simulator(P, cluster_spec=dataclasses.replace(ClusterSpec.simple(P), cluster_id=f"c{next(_n)}"))
    ok = False
    try:
        yield sim
        ok = True
    finally:
        if ok:
            sim.shutdown()
        else:
            sim._simp_cluster.shutdown(wait=False)


@contextlib.contextmanager
def http(P):
    cl = httpc.shared(P)
    drv = mp.make_driver(cl.endpoints)
    ok = False
    try:
        yield drv
        ok = True
    finally:
        if ok:
            drv.get_dialect_state("simp").shutdown()
        else:
            httpc.renew(P)


def execute(interp, how, fn, limit, what):
    """The objects fn returns and, per object, the list of values by party."""
    box = {}

    def go():
        if how == "root":
            mp.set_root_context(interp, force=True)
            try:
                box["outs"] = fn()
                box["vals"] = [x if isinstance(x, list) else [x] for x in map(mp.fetch, box["outs"])]
            finally:
                pop_context()
            return
        if how == "eager":
            with interp:
                outs = fn()
        else:
            if how == "offline":  # compiled without any worker
                t = mp.compile(fn, context=mp.make_compile_context(interp.get_dialect_state("simp").world_size))
            else:
                with interp:
                    t = mp.compile(fn)
            if how in ("packed", "offline"):
                from mplang.tool import program as tool

                t = tool.unpack(tool.pack(tool.compile_program(t)))
            outs = mp.evaluate(t, context=interp)
        box["outs"] = outs
        box["vals"] = []
        with interp:
            for o in outs:
                x = mp.fetch(o)
                box["vals"].append(x if isinstance(x, list) else [x])

    together([go], limit, what)
    return box["outs"], box["vals"]


def judge(P, desc, model, outs, vals, what):
    check(len(outs) == len(model) == len(desc), lambda: f"{what}: {len(outs)} results instead of {len(model)}")
    for i, (d, m, o, got) in enumerate(zip(desc, model, outs, vals)):
        check(d.at == set(m), "generator")  # the two readings of the generator agree
        check(o.type.parties == d.parties, lambda: f"{what}: value {i} is declared at {o.type.parties}, not {d.parties}")
        check(len(got) == P, lambda: f"{what}: {len(got)} parties")
        for p in range(P):
            x = got[p]
            if p in m:
                check(x is not None and np.asarray(x).dtype == np.int64 and np.array_equal(np.asarray(x), m[p]), lambda: f"{what}: value {i} of party {p} is {x!r} instead of {m[p]!r}")
            else:
                check(x is None, lambda: f"{what}: party {p} holds {x!r} as value {i} though it takes no part")


@st.composite
def programs(draw):
    return draw(st.integers(1, 6)), draw(st.integers(1, 12)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["eager", "traced", "traced", "packed", "offline", "root"])), draw(st.integers(0, 5)) == 0


def run_program(c):
    P, size, seed, how, over_http = c
    stmts, desc = mpprog.Gen(seed, P, size=size).program()
    log = {}
    model = mpprog.ev(stmts, [], log)
    what = f"{how} program {stmts} on {P} parties"
    with (http if over_http else simulator)(P) as interp:
        outs, vals = execute(interp, how, lambda: mpprog.build(stmts, []), 20, what)
    judge(P, desc, model, outs, vals, what)
    for k in {s[0] if s[0] != "bad" else f"bad {s[1]}" for s in stmts}:
        label(k)
    label("http" if over_http else "memory")


def nt(c):
    stmts, _ = mpprog.Gen(c[2], c[0], size=c[1]).program()
    return c[0] > 1 and len({s[0] for s in stmts[2:]}) > 1


# ---------------------------------------------------------------- which operations are accepted, and where their results are


@st.composite
def offers(draw):
    P = draw(st.integers(2, 6))
    ps = st.lists(st.integers(0, P - 1), min_size=1, max_size=P, unique=True).map(lambda x: tuple(sorted(x)))
    op = draw(st.sampled_from(["converge", "converge", "converge", "pcall", "pcall", "shuffle"]))
    n = 1 if op == "shuffle" else draw(st.integers(1, 6))
    if op == "converge" and draw(st.integers(0, 3)):  # disjoint but for at most one party
        P = max(P, n)
        where = draw(st.permutations(range(P)))
        cuts = sorted(draw(st.lists(st.integers(1, P - 1), min_size=n - 1, max_size=n - 1, unique=True)))
        parts = [set(where[a:b]) for a, b in zip([0, *cuts], [*cuts, P])]
        if draw(st.booleans()):
            parts[draw(st.integers(0, n - 1))].add(draw(st.integers(0, P - 1)))
        at = [tuple(sorted(p)) for p in parts]
    else:
        at = draw(st.lists(ps, min_size=n, max_size=n))
    if draw(st.integers(0, 7)) == 0:
        at[draw(st.integers(0, n - 1))] = None
    odd = draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(st.integers(0, n - 1), st.sampled_from(["dtype", "shape"]))))
    if op == "shuffle":
        arg = draw(st.dictionaries(st.integers(0, P - 1), st.integers(0, P - 1), max_size=P))
    else:
        arg = draw(ps)
        known = [set(a) for a in at if a is not None]
        if known and draw(st.booleans()):  # near what all hold
            both = set.intersection(*known)
            arg = tuple(sorted(both ^ ({draw(st.integers(0, P - 1))} if draw(st.booleans()) else set()))) or arg
    return op, at, odd, arg


def run_offer(c):
    from mplang.dialects import simp
    from mplang.edsl import typing as elt
    from mplang.edsl.tracer import trace
    from mplang.runtime.interpreter import InterpObject

    op, at, odd, arg = c
    ts = [elt.TensorType(elt.i64, (2,)) for _ in at]
    if odd:
        ts[odd[0]] = elt.TensorType(elt.i32, (2,)) if odd[1] == "dtype" else elt.TensorType(elt.i64, (3,))
    vals = [InterpObject(None, elt.MPType(t, a), None) for t, a in zip(ts, at)]
    known = [set(a) for a in at if a is not None]
    unknown = len(known) < len(at)
    if op == "converge":
        ok = len(set(ts)) == 1 and (unknown or sum(map(len, known)) == len(set().union(*known)))
        want = [elt.MPType(ts[0], None if unknown else tuple(sorted(set().union(*known))))]
        f = lambda *v: simp.converge(*v)
    elif op == "pcall":
        ok = unknown or set(arg) <= set.intersection(*known)
        want = [elt.MPType(t, arg) for t in ts]
        f = lambda *v: simp.pcall_static(arg, lambda *x: list(x), *v)
    else:
        ok = bool(arg) and (unknown or set(arg.values()) <= known[0])
        want = [elt.MPType(ts[0], tuple(sorted(arg)))]
        f = lambda v: simp.shuffle_static(v, dict(arg))
    what = f"{op} {arg if op != 'converge' else ''} of values at {at}{f', one of another {odd[1]}' if odd else ''}"
    try:
        t = trace(f, *vals)
    except (ValueError, TypeError) as e:
        check(not ok, f"{what} was refused: {e}")
    else:
        if op == "pcall" and not ok and unknown:
            return
        check(ok, f"{what} was accepted")
        got = [v.type for v in t.graph.outputs]
        check(got == want, f"{what} gives {got} instead of {want}")
    label(f"{op} {'accepted' if ok else 'refused'}")


SUBS = [
    Sub("offers", offers, run_offer, "one merge, call or routing over values at any parties: refused exactly when it is invalid; non-trivial = two values", lambda c: len(c[1]) > 1, quick=1500, thorough=30000, shards_quick=1, shards_thorough=3),
    Sub("programs", programs, run_program, "random programs of calls (five calling styles, one to three inputs, zero to three outputs), routings, merges and refused operations on one to six parties, run directly, traced, packed, in memory or over HTTP; non-trivial = two kinds of operation and two parties",
        nt, quick=300, thorough=8000, shards_quick=5, shards_thorough=8, hang_s=90),
]
KNOWN = []
