"""C01: messages between parties arrive once, in order, at the right receiver."""

from __future__ import annotations

import concurrent.futures as cf
import random
import sys
import threading
import time

import numpy as np
from hypothesis import strategies as st

from mplang.backends.channel import BaseChannel
from mplang.backends.simp_worker import base as rq
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
from mplang.backends.tensor_impl import TensorValue
from vf.core import Sub, check, label

PROPERTY = "C01"
ASSUMPTIONS = ["one context is used by one thread at a time; different contexts, jobs and channels are used concurrently",
               "scripts are matched: the n-th message sent over a context is the n-th received over it, per sender and receiver"]


def payload(i, kind):
    return {"int": i, "bytes": b"%d" % i * (i % 5), "none": None, "big": bytes([i % 256]) * 30000, "array": np.arange(i % 9) + i,
            "tensor": TensorValue(np.full((2,), i)), "list": [i, None, "x"], "str": f"m{i}", "bool": bool(i % 2)}[kind]


def same(a, b):
    if isinstance(a, TensorValue):
        return isinstance(b, TensorValue) and same(a.unwrap(), b.unwrap())
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    return type(a) is type(b) and a == b


def together(fns, limit, what):
    """Runs all at once; any exception or a thread that never ends is a violation."""
    errs, old = [], sys.getswitchinterval()
    sys.setswitchinterval(1e-5)

    def wrap(f):
        try:
            f()
        except BaseException as e:  # noqa: BLE001
            errs.append(e)

    try:
        ts = [threading.Thread(target=wrap, args=(f,), daemon=True) for f in fns]
        for t in ts:
            t.start()
        end = time.time() + limit
        for t in ts:
            while t.is_alive() and time.time() < end and not errs:
                t.join(0.05)
        stuck = sum(t.is_alive() for t in ts)
    finally:
        sys.setswitchinterval(old)
    for e in errs:
        raise e
    check(not stuck, f"{what}: {stuck} of {len(ts)} threads wait forever")


KINDS = ["int", "int", "bytes", "none", "big", "array", "tensor", "list", "str", "bool"]


@st.composite
def scripts(draw):
    P = draw(st.integers(2, 6))
    njobs = draw(st.integers(1, 3))
    # contexts of a job: parent index and how it was spawned
    jobs = []
    for _ in range(njobs):
        n = draw(st.integers(0, 4))
        jobs.append([(draw(st.integers(0, i)), draw(st.sampled_from([None, None, "s", "s.1", "1"]))) for i in range(n)])
    n = draw(st.integers(1, 40))
    seed = draw(st.integers(0, 2**32))
    pairs = draw(st.sampled_from(["any", "two", "swap", "ring"]))
    return P, jobs, n, seed, pairs, draw(st.booleans()), draw(st.sampled_from(KINDS + ["mixed"] * 4))


def run_script(c):
    P, jobs, n, seed, pairs, use_serde, kind = c
    r = random.Random(seed)
    msgs = []  # (job, ctx, frm, to, send time, recv time, payload, sync)
    t = 0
    for i in range(n):
        j = r.randrange(len(jobs))
        x = r.randrange(len(jobs[j]) + 1)
        if pairs == "two":
            a, b = r.sample([0, P - 1], 2)
        elif pairs == "ring":
            a = i % P
            b = (a + 1) % P
        else:
            a, b = r.sample(range(P), 2)
        k = r.choice(KINDS) if kind == "mixed" else kind
        t += 1
        msgs.append([j, x, a, b, t, t + r.choice([0.5, 0.5, 3.5, 20.5, 100.5]), payload(i, k), r.random() < 0.3])
        if pairs == "swap":  # both ways at once
            msgs.append([j, x, b, a, t + 0.1, t + r.choice([0.4, 2.4, 7.4]), payload(i + 1000, k), False])
    chan = {}
    for m in msgs:
        chan.setdefault((m[0], m[1], m[2], m[3]), []).append(m)
    for ms in chan.values():  # per context and direction, received in the order sent, each after it was sent
        ms.sort(key=lambda m: m[4])
        for m, tr in zip(ms, sorted(m[5] for m in ms)):
            m[5] = max(tr, m[4] + 0.05)
    mesh = LocalMesh(P, use_serde=use_serde)
    got = []

    def party(p, j):
        ctxs = [CommContext(mesh.comms[p], f"job{j}", p)]
        pend = list(enumerate(jobs[j]))
        made = {0: ctxs[0]}
        for i, (parent, suffix) in pend:  # unnamed children in program order on every party
            if suffix is None and parent in made:
                made[i + 1] = made[parent].spawn()
            elif parent in made:
                made[i + 1] = made[parent].spawn(suffix=suffix)
        ev = sorted([(m[4], 0, m) for m in msgs if m[0] == j and m[2] == p] + [(m[5], 1, m) for m in msgs if m[0] == j and m[3] == p], key=lambda e: e[:2])
        rr = random.Random(f"{seed}/{p}/{j}")

        def go():
            for when, rec, m in ev:
                if rr.random() < 0.15:
                    time.sleep(rr.choice([0, 0.0002, 0.001]))
                ctx = made[m[1]]
                if not rec:
                    ctx.send_sync(m[3], m[6]) if m[7] else ctx.send(m[3], m[6])
                else:
                    v = ctx.recv(m[2])
                    check(same(m[6], v), lambda: f"party {p} got {repr(v)[:60]} from {m[2]} over context {m[1]} of job {j}, sent was {repr(m[6])[:60]}")
                    got.append(id(m))

        return go

    try:
        together([party(p, j) for p in range(P) for j in range(len(jobs))], 10, f"{len(msgs)} messages between {P} parties")
    finally:
        mesh.shutdown(wait=False)
    check(len(got) == len(msgs) == len(set(got)), "messages lost")
    label(f"{pairs}, {len(jobs)} jobs")


# ---------------------------------------------------------------- children named by suffix, made in any order


@st.composite
def families(draw):
    P = draw(st.integers(2, 3))
    names = draw(st.lists(st.sampled_from(["a.0", "a.1", "b.0", "a", "x.y.2", "0a"]), min_size=2, max_size=6))
    return P, names, [draw(st.permutations(range(len(names)))) for _ in range(P)], draw(st.integers(0, 2**20))


def run_family(c):
    P, names, orders, seed = c
    mesh = LocalMesh(P)

    def party(p):
        root = CommContext(mesh.comms[p], "job", p)
        kids = {}
        seen = {}
        for i in orders[p]:  # same-named children are told apart by how many came before
            nm = names[i]
            seen[nm] = seen.get(nm, 0) + 1
            kids[nm, seen[nm]] = root.spawn(suffix=nm)

        def go():
            ks = sorted(kids)
            random.Random(seed + p).shuffle(ks)
            for k in ks:
                for q in range(P):
                    if q != p:
                        kids[k].send(q, (k, p))
            for k in sorted(kids):
                for q in range(P):
                    if q != p:
                        v = kids[k].recv(q)
                        check(v == (k, q), lambda: f"party {p} got {v} over child {k} from {q}")

        return go

    try:
        together([party(p) for p in range(P)], 8, f"children {names} made in orders {orders}")
    finally:
        mesh.shutdown(wait=False)
    label(f"{P} parties")


# ---------------------------------------------------------------- trees of contexts, all in use at once


@st.composite
def trees(draw):
    n = draw(st.integers(1, 45))
    seed = draw(st.integers(0, 2**32))
    return n, seed, draw(st.sampled_from(["bushy", "deep", "any"])), draw(st.integers(1, 13)), draw(st.sampled_from([0, 0.3]))


def run_tree(c):
    n, seed, shape, per, named = c
    r = random.Random(seed)
    plan = []
    for i in range(n):
        parent = 0 if shape == "bushy" and r.random() < 0.7 else i if shape == "deep" and r.random() < 0.5 else r.randrange(i + 1)
        plan.append((parent, r.choice(["3f.0", "3f.1", "a0.11"]) if r.random() < named else None))
    mesh = LocalMesh(2)

    def contexts(p):
        out = [CommContext(mesh.comms[p], j, p) for j in ("job", "job2")]
        kids = [out[0]]
        for parent, name in plan:
            kids.append(kids[parent].spawn() if name is None else kids[parent].spawn(suffix=name))
        return kids + out[1:]

    a, b = contexts(0), contexts(1)
    script = [(x, k) for x in range(len(a)) for k in range(per if x % 3 == 0 else 1)]
    count = {}
    try:
        for x, k in r.sample(script, len(script)):  # in any order over all contexts; per context numbered as sent
            k = count[x] = count.get(x, -1) + 1
            a[x].send(1, (x, k))

        def receive():
            seen = {}
            for x, _ in r.sample(script, len(script)):
                k = seen[x] = seen.get(x, -1) + 1
                v = b[x].recv(0)
                check(v == (x, k), lambda: f"message {k} over context {x} of {plan} was {v}")

        together([receive], 10, f"{len(script)} messages over {len(a)} contexts")
    finally:
        mesh.shutdown(wait=False)
    label(shape)


# ---------------------------------------------------------------- raw keys, links over the same communicator


@st.composite
def raws(draw):
    P = draw(st.integers(2, 4))
    n = draw(st.integers(1, 25))
    return P, n, draw(st.integers(0, 2**32)), draw(st.booleans()), draw(st.sampled_from([1, 2, 4]))


def run_raw(c):
    P, n, seed, use_serde, threads = c
    r = random.Random(seed)
    mesh = LocalMesh(P, use_serde=use_serde)
    sends, recvs, used = [], [], set()
    for i in range(n):
        a, b = r.sample(range(P), 2)
        how = r.choice(["comm", "comm", "link", "link2", "raw"])
        tag = r.choice(["k", "k:0", "spu:k", "", "0", "é", "k" * 300, "root:0", "root-0:1"]) + str(r.randrange(6))
        full = {"link": "spu:", "link2": "spu_a:"}.get(how, "") + tag
        if (a, b, full) in used:
            continue
        used.add((a, b, full))
        v = b"\x00%d" % i * (i % 4) if how != "comm" else payload(i, r.choice(KINDS))
        sends.append((a, b, how, tag, full, v, r.random() < 0.4))
    recvs = list(sends)
    r.shuffle(recvs)
    links = {(a, b, pre): BaseChannel(mesh.comms[a], a, b, tag_prefix=pre) for a in range(P) for b in range(P) if a != b for pre in ("spu", "spu_a")}

    def sender(part):
        def go():
            for a, b, how, tag, full, v, sync in part:
                if how in ("link", "link2"):
                    ch = links[a, b, "spu" if how == "link" else "spu_a"]
                    (ch.Send if sync else ch.SendAsync)(tag, v)
                else:
                    req = mesh.comms[a].send(b, full, v, is_raw_bytes=how == "raw")
                    check(req.wait(5) is None and req.done, "send request")
        return go

    def receiver(part):
        def go():
            for a, b, how, tag, full, v, sync in part:
                if how in ("link", "link2"):
                    got = links[b, a, "spu" if how == "link" else "spu_a"].Recv(tag)
                else:
                    got = mesh.comms[b].recv(a, full)
                check(same(v, got), lambda: f"{how} {full!r} {a}->{b}: got {repr(got)[:60]} instead of {repr(v)[:60]}")
        return go

    try:
        fs = [sender(sends[k::threads]) for k in range(threads)] + [receiver(recvs[k::threads]) for k in range(threads)]
        together(fs, 10, f"{len(sends)} keyed messages")
        for a, b in {(a, b) for a, b, *_ in sends}:  # keys are free again, links can shake hands
            ch, hc = links[a, b, "spu"], links[b, a, "spu"]
            together([lambda: ch.TestSend(100), hc.TestRecv], 5, "handshake")
        for a, b, how, tag, full, v, sync in sends[:2]:
            mesh.comms[a].send(b, full, "first")
            try:
                mesh.comms[a].send(b, full, "second")
            except Exception:
                pass
            got = mesh.comms[b].recv(a, full)
            check(got == "first", lambda: f"a message still waiting was replaced: {got!r}")
    finally:
        mesh.shutdown(wait=False)
    label(f"{threads} threads a side")


# ---------------------------------------------------------------- request handles


@st.composite
def handles(draw):
    n = draw(st.integers(1, 6))
    ends = draw(st.lists(st.sampled_from(["ok", "ok", "ok", "fail", "never"]), min_size=n, max_size=n))
    order = draw(st.permutations(range(n)))
    done = draw(st.integers(0, n))
    return ends, order, done


def run_handles(c):
    ends, order, done = c
    fs = [cf.Future() for _ in ends]
    rs = [rq.SendRequest(f, 0, f"k{i}") for i, f in enumerate(fs)]
    state = {}

    def finish(i):
        if ends[i] == "ok":
            fs[i].set_result(("r", i))
        elif ends[i] == "fail":
            fs[i].set_exception(ValueError(i))
        else:
            return
        state[i] = ends[i]

    for i in order[:done]:
        finish(i)
    failed = {i for i, s in state.items() if s == "fail"}

    def call(f, *a, **kw):
        try:
            return "ok", f(*a, **kw)
        except ValueError as e:
            return "fail", e.args[0]
        except TimeoutError:
            return "timeout", None

    for i, q in enumerate(rs):
        check(q.done is (i in state), f"handle {i}: done = {q.done}")
        want = ("ok", (False, None)) if i not in state else ("fail", i) if i in failed else ("ok", (True, ("r", i)))
        check(call(q.test) == want, lambda: f"handle {i}: test gave {call(q.test)} instead of {want}")
        want = ("timeout", None) if i not in state else ("fail", i) if i in failed else ("ok", ("r", i))
        check(call(q.wait, timeout=0.001) == want, lambda: f"handle {i}: wait gave {call(q.wait, timeout=0.001)} instead of {want}")
    k, v = call(rq.testany, rs)
    if k == "fail":
        check(v in failed, "testany reported a failure of another request")
    else:
        check((v == (None, None)) if not state else v[0] in state and v[0] not in failed and v[1] == ("r", v[0]), lambda: f"testany gave {v}, done are {state}")
    k, v = call(rq.wait_any, rs, timeout=0.001)
    check((k == "timeout") is (not state), f"wait_any: {k} although done are {state}")
    if k == "fail":
        check(v in failed, "wait_any reported a failure of another request")
    elif k == "ok":
        check(v[0] in state and v[0] not in failed and v[1] == ("r", v[0]), lambda: f"wait_any gave {v}")
    every = len(state) == len(rs)
    res = [("r", i) for i in range(len(rs))]
    k, v = call(rq.testall, rs)
    check((k, v) == ("ok", (False, None)) if not every else (k == "fail" and v in failed) if failed else (k, v) == ("ok", (True, res)), lambda: f"testall gave {k} {v}, done are {state} of {len(rs)}")
    k, v = call(rq.wait_all, rs, timeout=0.001)
    check(k == "timeout" if not every else (k == "fail" and v in failed) if failed else (k, v) == ("ok", res), lambda: f"wait_all gave {k} {v}, done are {state} of {len(rs)}")
    if "never" not in ends and not every:
        t = threading.Thread(target=lambda: [time.sleep(0.001) or finish(i) for i in order[done:]])
        t.start()
        k, v = call(rq.wait_all, rs, timeout=10)
        t.join()
        failed = {i for i, s in state.items() if s == "fail"}
        check((k == "fail" and v in failed) if failed else (k, v) == ("ok", res), lambda: f"wait_all gave {k} {v}")
    label("failing" if failed else "fine")


SUBS = [
    Sub("script", scripts, run_script, "matched scripts of up to 80 messages between up to six parties over nested contexts of up to three concurrent jobs, both ways; non-trivial = four messages",
        lambda c: c[2] >= 4, quick=250, thorough=6000, shards_quick=2, shards_thorough=6, hang_s=60),
    Sub("family", families, run_family, "child contexts named by suffix and made in a different order by every party; non-trivial = two orders", lambda c: len({tuple(o) for o in c[2]}) > 1, quick=150, thorough=3000, shards_quick=1, shards_thorough=2, hang_s=60),
    Sub("tree", trees, run_tree, "trees of up to 45 contexts, all with messages under way at once; non-trivial = twelve contexts", lambda c: c[0] > 11, quick=200, thorough=4000, shards_quick=1, shards_thorough=3, hang_s=60),
    Sub("raw", raws, run_raw, "messages with their own keys, links for secure devices on the same communicators, any receiving order; non-trivial = four messages", lambda c: c[1] >= 4, quick=200, thorough=4000, shards_quick=1, shards_thorough=4, hang_s=60),
    Sub("handles", handles, run_handles, "request handles finishing in any order or failing; non-trivial = two handles", lambda c: len(c[0]) > 1, quick=300, thorough=3000, shards_quick=1, shards_thorough=2, hang_s=60),
]
KNOWN = []
