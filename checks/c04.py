"""C04: concurrent requests to one cluster do not disturb each other."""

from __future__ import annotations

import random
import threading
import time

import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks import c02
from checks.c01 import together
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.request import create_request_interpreter
from mplang.dialects import simp, tensor
from mplang.dialects import table as tab
from mplang.edsl import typing as elt
from vf import httpc
from vf.core import Known, Sub, check, label

PROPERTY = "C04"
ASSUMPTIONS = ["programs are traced before they run concurrently (the stack of contexts is one per process) and evaluated with an explicit context",
               "no more programs at once than an HTTP worker has threads for (64)"]


# ---------------------------------------------------------------- programs: (P, kind, seed) -> (traced, expected values per party)


def make(P, kind, seed):
    """A traced program and, per output, party -> numpy value."""
    r = random.Random(seed)
    if kind == "pipeline":
        vs, steps = c02.plan(P, r.randrange(2, 7), seed)
        return mp.compile(lambda: c02.execute(steps)), [{p: np.array([x, -x]) for p, x in v.items()} for v in vs]
    everyone = tuple(range(P))
    start = {p: r.randrange(1, 50) for p in everyone}

    def fresh():
        ps = [simp.constant((p,), np.array(start[p])) for p in everyone]
        return ps[0] if P == 1 else simp.converge(*ps)

    if kind == "loop":  # every party counts down by its own steps and stops with the others; the states travel each round
        rounds = r.randrange(1, 5)

        def f():
            x, n = fresh(), simp.constant(everyone, np.array(rounds))

            def cond(s):
                return simp.pcall_static(everyone, lambda n: tensor.run_jax(lambda a: a > 0, n), s[1])

            def body(s):
                y = simp.shuffle_static(s[0], {p: (p + 1) % P for p in everyone})
                z = simp.pcall_static(everyone, lambda a, b: tensor.run_jax(lambda a, b: a * 2 + b, a, b), s[0], y)
                return [z, simp.pcall_static(everyone, lambda n: tensor.run_jax(lambda a: a - 1, n), s[1])]

            return simp.while_loop(cond, body, [x, n])[0]

        v = dict(start)
        for _ in range(rounds):
            v = {p: v[p] * 2 + v[(p + 1) % P] for p in everyone}
        return mp.compile(f), [{p: np.array(x) for p, x in v.items()}]
    if kind == "cond":
        up = bool(r.randrange(2))

        def f():
            x, c = fresh(), simp.constant(everyone, np.array(up))
            return simp.uniform_cond(c, lambda a: simp.shuffle_static(a, {p: (p + 1) % P for p in everyone}),
                                     lambda a: simp.shuffle_static(a, {p: (p - 1) % P for p in everyone}), x)

        d = 1 if up else -1
        return mp.compile(f), [{p: np.array(start[(p + d) % P]) for p in everyone}]
    if kind == "fail":
        who = r.randrange(P)
        sch = elt.TableType({"a": elt.i64})

        def f():
            return simp.pcall_static((who,), lambda: tab.read("/nowhere/none.csv", schema=sch))

        return mp.compile(f), None
    raise AssertionError(kind)


def verify(outs, want, fetched, P, what):
    for i, (v, got) in enumerate(zip(want, fetched, strict=True)):
        got = got if isinstance(got, list) else [got]
        for p in range(P):
            x = got[p] if p < len(got) else None
            check((x is not None and np.array_equal(np.asarray(x), v[p])) if p in v else x is None,
                  lambda: f"{what}: output {i} of party {p} is {x!r}, alone it is {v.get(p)!r}")


def runner(t, want, interp, P, what, times):
    def go():
        for k in range(times):
            try:
                outs = mp.evaluate(t, context=interp)
                outs = list(outs) if isinstance(outs, list | tuple) else [outs]
                got = [fetch(o, interp) for o in outs]
            except Exception as e:
                if want is None:
                    continue
                check(False, f"{what}, run {k}: {type(e).__name__}: {e}")
            check(want is not None, lambda: f"{what} should fail")
            verify(outs, want, got, P, f"{what}, run {k}")

    return go


def fetch(o, interp):
    """The value of every party, read from the workers' stores through the driver."""
    drv = interp.get_dialect_state("simp")
    v = o.runtime_obj
    out = []
    for r in range(drv.world_size):
        u = v[r]
        x = None if u is None else drv.fetch(r, u).result(timeout=15)
        out.append(None if x is None else np.asarray(x.unwrap() if hasattr(x, "unwrap") else x))
    return out


class Jitter:
    """Delays some messages."""

    def __init__(self, comms, seed, on):
        self.comms = comms
        for i, c in enumerate(comms):
            if on:
                r = random.Random(f"{seed}/{i}")
                real = type(c).send

                def send(to, key, data, *, is_raw_bytes=False, c=c, r=r, real=real):
                    if r.random() < 0.3:
                        time.sleep(r.choice([0.0002, 0.001, 0.004]))
                    return real(c, to, key, data, is_raw_bytes=is_raw_bytes)

                c.send = send

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for c in self.comms:
            c.__dict__.pop("send", None)


KINDS = ["pipeline", "pipeline", "loop", "cond"]


@st.composite
def mixes(draw, kinds=tuple(KINDS), kmax=7, pmax=5, drivers=1):
    P = draw(st.integers(2, pmax))
    progs = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 2**20)), min_size=2, max_size=kmax))
    if draw(st.booleans()):  # several runs of the same program
        progs = [progs[0]] + progs[: len(progs) - 1]
    return P, progs, draw(st.integers(1, 3)), draw(st.booleans()), draw(st.integers(0, 999)), [draw(st.integers(0, drivers - 1)) for _ in progs]


def run_mem(c):
    P, progs, times, jitter, seed, _ = c
    made = [make(P, k, s) for k, s in progs]
    sim = mp.make_simulator(P)
    comms = [i.communicator for i in sim.get_dialect_state("simp").infras]
    ok = False
    try:
        with Jitter(comms, seed, jitter):
            together([runner(t, w, sim, P, f"{progs[i]} of {progs} at once", times) for i, (t, w) in enumerate(made)], 20, f"{progs} at once on {P} parties")
        ok = True
    finally:
        sim._simp_cluster.shutdown(wait=ok) if hasattr(sim, "_simp_cluster") else sim.shutdown()
    for k, _ in progs:
        label(k)


def run_http(c):
    P, progs, times, jitter, seed, who = c
    made = [make(P, k, s) for k, s in progs]
    cl = httpc.shared(P)
    drvs = {w: mp.make_driver(cl.endpoints) for w in set(who)}
    ok = False
    try:
        with Jitter(cl.comms, seed, jitter):
            together([runner(t, w, drvs[who[i]], P, f"{progs[i]} of {progs} at once (drivers {who})", times) for i, (t, w) in enumerate(made)], 40, f"{progs} at once on {P} HTTP workers (drivers {who})")
        ok = True
    finally:
        if ok:
            for d in drvs.values():
                d.get_dialect_state("simp").shutdown()
        else:
            httpc.renew(P)
    for k, _ in progs:
        label(k)


# ---------------------------------------------------------------- requests on the workers themselves


@st.composite
def requests(draw):
    P = draw(st.integers(2, 4))
    names = draw(st.lists(st.sampled_from(["a", "a.1", "a.1.0", "a:0", "b", "job", "job.0", "", "a.", "1"]), min_size=2, max_size=5, unique=True))
    return P, [(n, draw(st.sampled_from(["pipeline", "loop", "cond"])), draw(st.integers(0, 2**20))) for n in names], draw(st.integers(0, 999))


def run_requests(c):
    """Whole programs as one request per worker, as an external scheduler submits them, under awkward job ids."""
    P, reqs, seed = c
    made = [make(P, k, s) for _, k, s in reqs]
    sim = mp.make_simulator(P)
    infras = sim.get_dialect_state("simp").infras
    r = random.Random(seed)
    fns, got = [], {}

    def one(i, p):
        name = reqs[i][0]

        def go():
            time.sleep(r.choice([0, 0, 0.001, 0.003]))
            ri = create_request_interpreter(infras[p], name)
            try:
                got[i, p] = ri.evaluate_graph(made[i][0].graph, [], None)
            finally:
                ri.shutdown()

        return go

    fns = [one(i, p) for i in range(len(reqs)) for p in range(P)]
    r.shuffle(fns)
    try:
        with Jitter([i.communicator for i in infras], seed, True):
            together(fns, 15, f"requests {reqs} on {P} workers")
        for i in range(len(reqs)):
            outs = [[got[i, p][j] for p in range(P)] for j in range(len(made[i][1]))]
            outs = [[None if x is None else np.asarray(x.unwrap() if hasattr(x, "unwrap") else x) for x in row] for row in outs]
            verify(None, made[i][1], outs, P, f"request {reqs[i]} of {reqs}")
    finally:
        sim._simp_cluster.shutdown(wait=False) if hasattr(sim, "_simp_cluster") else sim.shutdown()
    for _, k, _ in reqs:
        label(k)


def probe_failure():
    """On the in-memory cluster a failing program takes a concurrent one down."""
    sim = mp.make_simulator(2)
    bad, _ = make(2, "fail", 0)
    good, want = make(2, "pipeline", 5)
    try:
        mp.evaluate(bad, context=sim)
    except Exception:  # noqa: BLE001
        pass
    try:
        mp.evaluate(good, context=sim)
    except RuntimeError:
        return True
    finally:
        sim._simp_cluster.shutdown(wait=False)
    return False


def nt(c):
    return len({tuple(x) for x in c[1]}) > 1


SUBS = [
    Sub("memory", mixes, run_mem, "two to seven communicating programs at once on one simulator of two to five parties, messages delayed at random, each against what it returns alone; non-trivial = at least two different programs",
        nt, quick=120, thorough=3000, shards_quick=4, shards_thorough=8, hang_s=90),
    Sub("http", lambda: mixes(kinds=(*KINDS, "fail"), kmax=7, pmax=4, drivers=6), run_http, "the same on HTTP workers, from one to six drivers, with failing programs among them; non-trivial = at least two different programs",
        nt, quick=50, thorough=800, shards_quick=2, shards_thorough=4, hang_s=120),
    Sub("requests", requests, run_requests, "several whole programs as one request per worker under job ids that resemble each other; all non-trivial", quick=100, thorough=2500, shards_quick=2, shards_thorough=6, hang_s=90),
]
KNOWN = [
    Known("C04-memory-failure", "on the in-memory simulator a failing program stops the whole simulator, concurrent programs included (SimpMemDriver.collect shuts the mesh down)", probe_failure),
]
