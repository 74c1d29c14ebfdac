"""C02: collectives give every party the mathematically defined result."""

from __future__ import annotations

import random
import threading
import time
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks.c01 import payload, same, together
from mplang.backends.simp_worker import collectives as co
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
from mplang.dialects import simp
from mplang.libs import collective as lib
from vf.core import Sub, check, label

PROPERTY = "C02"
ASSUMPTIONS = ["members of a group call the same collectives in the same order"]


# ---------------------------------------------------------------- worker-side collectives


@st.composite
def groups(draw):
    P = draw(st.integers(1, 8))
    njobs = draw(st.integers(1, 3))
    calls = []
    for _ in range(draw(st.integers(1, 10))):
        g = draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=P + 1))  # any order, duplicates allowed
        kind = draw(st.sampled_from(["broadcast", "allgather", "gatherbool", "and", "or", "xor", "barrier", "uniform", "uniform"]))
        calls.append((draw(st.integers(0, njobs - 1)), kind, tuple(g), draw(st.integers(0, 2**P - 1)), draw(st.integers(0, 7)),
                      draw(st.sampled_from(["arg", "op", "current"])), draw(st.sampled_from(["int", "none", "array", "list", "tensor", "bool"]))))
    return P, njobs, calls, draw(st.integers(0, 2**20)), draw(st.booleans())


def run_groups(c):
    P, njobs, calls, seed, use_serde = c
    mesh = LocalMesh(P, use_serde=use_serde)
    entered, lock = {}, threading.Lock()

    def party(p, j):
        ctx = CommContext(mesh.comms[p], f"job{j}", p)
        rr = random.Random(f"{seed}/{p}/{j}")

        def go():
            for n, (job, kind, g, bits, root, how, pk) in enumerate(calls):
                members = sorted(set(g))
                if job != j or p not in members:
                    continue
                if rr.random() < 0.3:
                    time.sleep(rr.choice([0.0003, 0.001, 0.003]))
                op, kw, cur = None, {}, (0,)
                if how == "arg":
                    kw["participants"] = g
                elif how == "op":
                    op = SimpleNamespace(attrs={"parties": g})
                else:
                    cur = tuple(g)
                w = SimpleNamespace(rank=p, world_size=P, communicator=mesh.comms[p], current_parties=cur)
                if how == "current" and len(members) == P and bits % 2:
                    w.current_parties = None  # everybody
                kw["op"] = op
                bit = {q: bool(bits >> q & 1) for q in members}
                val = {q: payload(n * 16 + q, pk) for q in members}
                tag = f"party {p}, call {n} {kind} of {g}"
                if kind == "broadcast":
                    r = members[root % len(members)]
                    got = co.broadcast(ctx, w, val[p] if p == r else "junk", root=r, **kw)
                    check(same(val[r], got), lambda: f"{tag} root {r}: {got!r} instead of {val[r]!r}")
                elif kind == "allgather":
                    got = co.allgather_obj(ctx, w, val[p], **kw)
                    check(len(got) == len(members) and all(same(val[q], x) for q, x in zip(members, got)), lambda: f"{tag}: {got!r} instead of {[val[q] for q in members]!r}")
                elif kind == "gatherbool":
                    got = co.allgather_bool(ctx, w, bit[p], **kw)
                    check(got == [bit[q] for q in members], lambda: f"{tag}: {got}")
                elif kind in ("and", "or", "xor"):
                    got = {"and": co.allreduce_bool_and, "or": co.allreduce_bool_or, "xor": co.allreduce_bool_xor}[kind](ctx, w, bit[p], **kw)
                    want = {"and": all(bit.values()), "or": any(bit.values()), "xor": sum(bit.values()) % 2 == 1}[kind]
                    check(got is want, lambda: f"{tag}: {got} of {bit}")
                elif kind == "barrier":
                    with lock:
                        entered.setdefault(n, set()).add(p)
                    co.barrier(ctx, w, **kw)
                    check(entered[n] == set(members), lambda: f"{tag}: left when only {entered[n]} had come")
                else:
                    uniform = len(set(bit.values())) == 1
                    try:
                        got = co.verify_uniform_predicate(ctx, w, bit[p], **kw)
                    except RuntimeError:
                        check(not uniform, lambda: f"{tag}: called not uniform although all are {bit}")
                    else:
                        check(uniform and got is bit[p], lambda: f"{tag}: {got} although the values are {bit}")

        return go

    try:
        together([party(p, j) for p in range(P) for j in range(njobs)], 10, f"{len(calls)} collectives of {P} parties")
    finally:
        mesh.shutdown(wait=False)
    for k in {k for _, k, *_ in calls}:
        label(k)


@st.composite
def outsiders(draw):
    P = draw(st.integers(2, 5))
    g = draw(st.lists(st.integers(0, P - 1), min_size=1, max_size=P - 1, unique=True))
    return P, tuple(g), draw(st.sampled_from(["broadcast", "allgather", "and", "barrier", "uniform"])), draw(st.sampled_from(["outsider", "range", "empty", "root"]))


def run_outsiders(c):
    P, g, kind, what = c
    mesh = LocalMesh(P)
    out = [q for q in range(P) if q not in g]

    def call(p, ps, root):
        ctx = CommContext(mesh.comms[p], "j", p)
        w = SimpleNamespace(rank=p, world_size=P, communicator=mesh.comms[p], current_parties=None)
        f = {"broadcast": lambda: co.broadcast(ctx, w, p, root=root, participants=ps), "allgather": lambda: co.allgather_obj(ctx, w, p, participants=ps),
             "and": lambda: co.allreduce_bool_and(ctx, w, True, participants=ps), "barrier": lambda: co.barrier(ctx, w, participants=ps),
             "uniform": lambda: co.verify_uniform_predicate(ctx, w, True, participants=ps)}[kind]
        return f()

    try:
        bad = {"outsider": (out[0], g, g[0]), "range": (g[0], (*g, P), g[0]), "empty": (g[0], (), g[0]), "root": (g[0], g, out[0])}[what]
        if not (what == "root" and kind != "broadcast"):
            def attempt():
                try:
                    r = call(*bad)
                except ValueError:
                    return
                check(False, f"{kind} {bad} gave {r!r}")
            together([attempt], 5, f"{kind} {bad}")

        def good(p):
            def go():
                r = call(p, g, g[0])
                want = {"broadcast": g[0], "allgather": sorted(g), "and": True, "barrier": None, "uniform": True}[kind]
                check(r == want, f"after a refused call, {kind} gave {r!r} to {p}")
            return go

        together([good(p) for p in g], 6, f"{kind} of {g} after a refused call")
    finally:
        mesh.shutdown(wait=False)
    label(what)


# ---------------------------------------------------------------- the collective library on a cluster


@st.composite
def pipelines(draw):
    P = draw(st.integers(1, 6))
    n = draw(st.integers(1, 7))
    return P, n, draw(st.integers(0, 2**32)), draw(st.sampled_from(["eager", "traced", "traced", "packed"]))


def plan(P, n, seed):
    """A pipeline of calls over variables; each variable is a dict party -> value (the model)."""
    r = random.Random(seed)
    vs, steps = [], []
    for _ in range(r.randrange(1, 4)):
        parties = tuple(r.sample(range(P), r.randrange(1, P + 1))) if r.random() < 0.6 else (r.randrange(P),)
        v = {p: r.randrange(1000) for p in parties}
        vs.append(v)
        steps.append(("make", v))
    for _ in range(n):
        k = r.choice(["transfer", "replicate", "distribute", "collect", "allreplicate", "permute", "permute"])
        i = r.randrange(len(vs))
        v = vs[i]
        single = [j for j, u in enumerate(vs) if len(u) == 1]
        if k in ("transfer", "replicate", "distribute"):
            if not single:
                continue
            i = r.choice(single)
            v = vs[i]
            (frm, x), = v.items()
        if k == "transfer":
            to = r.randrange(P)
            steps.append((k, i, to))
            vs.append({to: x})
        elif k == "replicate":
            to = tuple(r.sample(range(P), r.randrange(1, P + 1)))
            steps.append((k, i, to))
            vs.append(dict.fromkeys(to, x))
        elif k == "distribute":
            js = [r.choice([j for j in single if list(vs[j]) == [frm]]) for _ in range(r.randrange(1, P + 1))]
            steps.append((k, tuple(js), frm))
            vs.append({q: vs[j][frm] for q, j in enumerate(js)})
        elif k == "collect":
            to = r.randrange(P)
            steps.append((k, i, to))
            vs += [{to: v[p]} for p in order(v)]
        elif k == "allreplicate":
            steps.append((k, i))
            vs += [dict.fromkeys(v, v[p]) for p in order(v)]
        else:
            tgt = r.sample(range(P), r.randrange(1, P + 1))
            src = list(v)
            if r.random() < 0.4 and len(src) > 1:  # a rotation or swap
                tgt, m = src, dict(zip(src, src[1:] + src[:1]))
            else:
                m = {t: r.choice(src) for t in tgt}
            steps.append((k, i, m))
            vs.append({t: v[s] for t, s in m.items()})
    return vs, steps


def order(v):
    return sorted(v)


def execute(steps):
    out = []
    for s in steps:
        k = s[0]
        if k == "make":
            ps = [simp.constant((p,), np.array([x, -x])) for p, x in s[1].items()]
            out.append(ps[0] if len(ps) == 1 else simp.converge(*ps))
        elif k == "transfer":
            out.append(lib.transfer(out[s[1]], to=s[2]))
        elif k == "replicate":
            out.append(lib.replicate(out[s[1]], to=s[2]))
        elif k == "distribute":
            out.append(lib.distribute([out[j] for j in s[1]], frm=s[2]))
        elif k == "collect":
            out += in_order(out[s[1]], lib.collect(out[s[1]], to=s[2]))
        elif k == "allreplicate":
            out += in_order(out[s[1]], lib.allreplicate(out[s[1]]))
        else:
            out.append(lib.permute(out[s[1]], mapping=s[2]))
    return out


def in_order(obj, rs):
    """Results come in the order of the object's own party list."""
    return [x for _, x in sorted(zip(obj.type.parties, rs), key=lambda t: t[0])]


def run_pipeline(c):
    P, n, seed, how = c
    vs, steps = plan(P, n, seed)
    sim = mp.make_simulator(P)
    box = {}

    def body():
        try:
            with sim:
                if how == "eager":
                    outs = execute(steps)
                else:
                    t = mp.compile(lambda: execute(steps))
                    if how == "packed":
                        from mplang.tool import program as tool

                        t = tool.unpack(tool.pack(tool.compile_program(t)))
                    outs = mp.evaluate(t)
                box["types"] = [tuple(sorted(o.type.parties)) for o in outs]
                box["vals"] = [mp.fetch(o) for o in outs]
        except Exception as e:  # noqa: BLE001
            box["err"] = e

    t = threading.Thread(target=body, daemon=True)
    t.start()
    t.join(12)
    stuck = t.is_alive()
    sim.shutdown() if not stuck else sim._simp_cluster.shutdown(wait=False)
    check(not stuck, lambda: f"{steps} never ends")
    if "err" in box:
        raise box["err"]
    for i, (v, ty, got) in enumerate(zip(vs, box["types"], box["vals"], strict=True)):
        check(ty == tuple(sorted(v)), lambda: f"value {i} of {steps} belongs to {ty}, not {sorted(v)}")
        got = got if isinstance(got, list) else [got]
        for p in range(P):
            x = got[p] if p < len(got) else None
            if p in v:
                check(x is not None and np.array_equal(np.asarray(x), [v[p], -v[p]]), lambda: f"value {i} of {steps}: party {p} has {x!r} instead of {v[p]}")
            else:
                check(x is None, lambda: f"value {i} of {steps}: party {p} has {x!r} though it is no member")
    for s in steps[1:]:
        label(s[0])


SUBS = [
    Sub("worker", groups, run_groups, "sequences of worker collectives over overlapping groups of up to eight parties in concurrent jobs; non-trivial = a group of two or more and two calls",
        lambda c: len(c[2]) > 1 and any(len(set(x[2])) > 1 for x in c[2]), quick=250, thorough=6000, shards_quick=2, shards_thorough=6, hang_s=60),
    Sub("refused", outsiders, run_outsiders, "calls by outsiders, with bad groups or roots, then a good one; non-trivial = group of two", lambda c: len(c[1]) > 1, quick=80, thorough=1000, shards_quick=1, shards_thorough=2, hang_s=60),
    Sub("library", pipelines, run_pipeline, "pipelines of library collectives on a cluster of up to six, run directly, traced or packed; non-trivial = two collectives",
        lambda c: len(plan(*c[:3])[1]) > 3 and c[0] > 1, quick=150, thorough=3500, shards_quick=3, shards_thorough=8, hang_s=60),
]
KNOWN = []
