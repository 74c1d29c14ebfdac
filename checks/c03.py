"""C03: running over HTTP is indistinguishable from running in memory."""

from __future__ import annotations

import base64
import itertools
import random
import threading
import time

import httpx
import numpy as np
from hypothesis import strategies as st

import mplang as mp
from checks import c02, s01
from checks.c01 import together
from mplang.backends.simp_worker.http import RecvTimeoutError
from mplang.dialects import simp
from mplang.edsl import serde
from mplang.edsl import typing as elt
from mplang.edsl.graph import Graph
from vf import httpc
from vf.core import Sub, check, label
from vf.gen import same

PROPERTY = "C03"
ASSUMPTIONS = ["the peers answer (loopback, no packet loss)", "keys are used once at a time per pair of parties, as the contexts do"]

TAGS = ["k", "job:0", "a.1.2:7", "team/a:3", "a b", "x?y=1", "h#1", "50%", "%41:0", "é:1", "名", "root:P2P-1:0->1", "spu:root-a:1", "//x", "a+b", "a&b;c", "'\"", "{k}", "k\\", "x" * 300]


_n = itertools.count()


def mailbox(comm):
    """The unread keys, if the communicator keeps them where it does today."""
    return set(getattr(comm, "_mailbox", {}))


# ---------------------------------------------------------------- single values on the wire


@st.composite
def wires(draw):
    n = draw(st.integers(1, 6))
    msgs = []
    for i in range(n):
        raw = draw(st.integers(0, 3)) == 0
        v = ("py", draw(st.one_of(st.binary(max_size=40), st.sampled_from([b"", b"MPB1", b"{}", b"null", b"\x1f\x8b", b"\xff" * 70000, bytes(range(256)) * 300])))) if raw else draw(s01.tree())
        msgs.append((draw(st.integers(0, 2)), draw(st.integers(0, 2)), draw(st.sampled_from(TAGS)), v, raw and draw(st.booleans()), draw(st.booleans()),
                     draw(st.sampled_from(["send", "isend", "sync", "sync-timeout"])), draw(st.booleans())))
    return msgs, draw(st.integers(0, 2**20))



def run_wire(c):
    msgs, seed = c
    cl = httpc.shared(3)
    r = random.Random(seed)
    live, todo = {}, []
    m = next(_n)
    msgs = [(frm, to, f"{tag}~{m}", *rest) for frm, to, tag, *rest in msgs]
    for i, (frm, to, tag, v, raw, binary, how, again) in enumerate(msgs):
        if (frm, to, tag) in live:
            continue
        live[frm, to, tag] = i
        todo.append(i)
    base = [(k.stats.messages_sent, k.stats.send_errors, k.stats.messages_received) for k in cl.comms]
    reqs, dup = {}, []
    for i in todo:
        frm, to, tag, v, raw, binary, how, again = msgs[i]
        comm = cl.comms[frm]
        comm.config.use_binary = binary
        obj = s01.build(v)
        if how in ("send", "isend"):
            reqs[i] = getattr(comm, how)(to, tag, obj, is_raw_bytes=raw)
            reqs[i].wait(timeout=20)
        else:
            comm.send_sync(to, tag, obj, is_raw_bytes=raw, **({"timeout": 20.0} if how == "sync-timeout" else {}))
        label(("binary " if binary else "json ") + ("raw" if raw else v[0]))
        if again:  # a second message under a key still unread is refused and changes nothing
            dup.append(i)
            try:
                comm.send_sync(to, tag, "other")
            except RuntimeError:
                pass
            else:
                check(False, f"a second message {frm}->{to} {tag!r} was accepted although the first is unread")
    for k in cl.comms:
        k.config.use_binary = True
    order = list(todo)
    r.shuffle(order)
    for i in order:
        frm, to, tag, v, raw, binary, how, again = msgs[i]
        got = cl.comms[to].recv(frm, tag, timeout=10)
        diff = same(s01.expect(s01.build(v)), got)
        check(diff is None, lambda: f"{frm}->{to} key {tag!r} {'binary' if binary else 'json'}{' raw' if raw else ''}: {diff}")
    for i in order[:1]:
        frm, to, tag = msgs[i][:3]
        try:
            got = cl.comms[to].recv(frm, tag, timeout=0.01)
        except RecvTimeoutError:
            pass
        else:
            check(False, f"{frm}->{to} {tag!r} was delivered twice: {got!r}")
    for p, k in enumerate(cl.comms):
        s, e, g = base[p]
        check(k.stats.messages_sent - s == sum(msgs[i][0] == p for i in todo), f"party {p} counts {k.stats.messages_sent - s} messages sent")
        check(k.stats.send_errors - e == sum(msgs[i][0] == p for i in dup), f"party {p} counts {k.stats.send_errors - e} send errors")
        check(k.stats.messages_received - g == sum(msgs[i][1] == p for i in todo), f"party {p} counts {k.stats.messages_received - g} messages received")


# ---------------------------------------------------------------- programs


@st.composite
def programs(draw):
    P = draw(st.integers(1, 4))
    return P, draw(st.integers(1, 6)), draw(st.integers(0, 2**32)), draw(st.sampled_from(["traced", "eager", "packed"])), draw(st.booleans())


def run_program(c):
    P, n, seed, how, binary = c
    vs, steps = c02.plan(P, n, seed)
    cl = httpc.shared(P)
    for k in cl.comms:
        k.config.use_binary = binary
    drv = mp.make_driver(cl.endpoints)
    box = {}
    before = [mailbox(k) for k in cl.comms]

    def go():
        if how == "eager":
            with drv:
                outs = c02.execute(steps)
        else:
            with drv:
                t = mp.compile(lambda: c02.execute(steps))
            if how == "packed":
                from mplang.tool import program as tool

                t = tool.unpack(tool.pack(tool.compile_program(t)))
            outs = mp.evaluate(t, context=drv)
        with drv:
            box["vals"] = [(tuple(sorted(o.type.parties)), mp.fetch(o)) for o in outs]

    try:
        together([go], 25, f"{steps} on HTTP workers")
    except BaseException:
        httpc.renew(P)
        raise
    finally:
        drv.get_dialect_state("simp").shutdown() if "vals" in box else None
        for k in cl.comms:
            k.config.use_binary = True
    for i, (v, (ty, got)) in enumerate(zip(vs, box["vals"], strict=True)):
        check(ty == tuple(sorted(v)), lambda: f"value {i} of {steps} belongs to {ty}")
        got = got if isinstance(got, list) else [got]
        for p in range(P):
            x = got[p] if p < len(got) else None
            check((x is not None and np.array_equal(np.asarray(x), [v[p], -v[p]])) if p in v else x is None, lambda: f"value {i} of {steps}: party {p} has {x!r}, not {v.get(p)}")
    check(all(mailbox(k) == b for k, b in zip(cl.comms, before)), "messages are left over after the program")
    for s in steps:
        label(s[0])


# ---------------------------------------------------------------- asynchronous jobs


class Slow(Exception):
    def __init__(self, s, wait):
        self.s, self.wait = s, wait

    def __str__(self):
        time.sleep(self.wait)
        return self.s


@st.composite
def jobs(draw):
    return [(draw(st.sampled_from(["ok", "ok", "none", "fail", "fail", "input"])), draw(st.integers(0, 4)), draw(st.integers(1, 3)), draw(st.sampled_from([0.0, 0.002, 0.02])), draw(st.sampled_from(["j", "job 1", "é", "a.b"])))
            for _ in range(draw(st.integers(1, 4)))]


def make_graph(kind, k):
    g = Graph()
    ty = elt.TensorType(elt.i64, ())
    if kind == "input":
        g.add_output(g.add_input("x", ty))
    else:
        outs = g.add_op("vf.job", [], [ty] * k, {"kind": kind, "k": k})
        for o in outs:
            g.add_output(o)
    return g


def run_jobs(c):
    cl = httpc.shared(1)
    ep, cli = cl.endpoints[0], cl.http
    real = serde.dumps_b64
    delay = {"s": 0.0}
    gate = threading.Event()

    def handler(interp, op, *args):
        gate.wait(10)
        if op.attrs["kind"] == "fail":
            raise Slow(f"failed {op.attrs['k']}", delay["s"])
        return [op.attrs["k"] * 10 + i for i in range(op.attrs["k"])] if op.attrs["k"] != 1 else 10

    cl.infras[0].handlers["vf.job"] = handler

    def dumps(obj, *a, **kw):
        time.sleep(delay["s"])
        r = real(obj, *a, **kw)
        time.sleep(delay["s"])
        return r

    serde.dumps_b64 = dumps
    try:
        for n, (kind, k, pollers, d, name) in enumerate(c):
            delay["s"] = d
            gate.clear()
            jid = f"{name}-{n}-{id(c)}"
            url = httpx.URL(f"{ep}/exec/{jid}/status")
            body = {"graph": real(make_graph(kind, k)), "inputs": real(["mem://nothing"] if kind == "input" else []), "job_id": jid}
            resp = cli.post(f"{ep}/exec/async", json=body)
            check(resp.status_code == 200 and resp.json() == {"exec_id": jid}, lambda: f"submission answered {resp.status_code} {resp.text}")
            if kind not in ("input", "none") and (k or kind == "fail"):  # still running: a second one must be refused and leave the first alone
                resp = cli.post(f"{ep}/exec/async", json={**body, "job_id": jid + "x"})
                check(resp.status_code == 409, lambda: f"a second job while one runs: {resp.status_code}")
                check(cli.get(f"{ep}/exec/{jid}x/status").status_code == 404, "a refused job is known")
            finals, rank = [], {"PENDING": 0, "RUNNING": 1, "SUCCESS": 2, "FAILED": 2}

            def poll(wait):
                def go():
                    seen = []
                    with httpx.Client(timeout=20) as h:
                        end = time.time() + 15
                        while time.time() < end:
                            resp = h.get(url)
                            check(resp.status_code == 200, lambda: f"poll: {resp.status_code}")
                            j = resp.json()
                            seen.append(j["status"])
                            check(rank[j["status"]] >= rank[seen[-2] if len(seen) > 1 else "PENDING"] and (len(seen) < 2 or rank[seen[-2]] < 2 or seen[-1] == seen[-2]), lambda: f"status went {seen}")
                            if j["status"] == "SUCCESS":
                                check(j.get("result") is not None, lambda: f"a finished job shows {j}")
                                finals.append(("ok", j["result"]))
                            elif j["status"] == "FAILED":
                                check(isinstance(j.get("error"), str), lambda: f"a failed job shows {j}")
                                finals.append(("err", j["error"]))
                            if rank[j["status"]] == 2:
                                if wait:
                                    return
                                wait_more[0] -= 1
                                if wait_more[0] < 0:
                                    return
                            time.sleep(0.0005)
                    check(False, f"job {jid} never finishes: {seen[-3:]}")
                return go

            wait_more = [6]
            together([gate.set] + [poll(i % 2) for i in range(pollers)], 20, "pollers")
            kinds = {f[0] for f in finals}
            check(len(set(finals)) == 1, lambda: f"the final answers differ: {finals}")
            if kind in ("ok", "none"):
                check(kinds == {"ok"}, lambda: f"{finals}")
                uris = serde.loads_b64(finals[0][1])
                if k == 0:
                    check(uris is None, lambda: f"{uris}")
                else:
                    check([cl.stores[0].get(u) for u in uris] == ([k * 10 + i for i in range(k)] if k != 1 else [10]), lambda: f"{uris}")
            else:
                check(kinds == {"err"} and (kind != "fail" or finals[0][1] == f"failed {k}"), lambda: f"{kind}: {finals}")
            label(kind)
    finally:
        serde.dumps_b64 = real
        gate.set()


# ---------------------------------------------------------------- good and bad requests


REQS = ["comm", "comm-json", "dup", "no-rank", "bad-rank", "garbage", "bad-format", "json-garbage", "json-missing", "json-type", "json-payload", "recv", "recv",
        "exec", "exec-graph", "exec-inputs", "exec-missing", "exec-arity", "exec-unknown-op", "exec-bad-uri", "async-nojob", "async-graph", "status", "fetch", "fetch-unknown", "fetch-scheme", "put", "objects", "health", "nowhere", "truncated", "wrong-method"]


@st.composite
def sessions(draw):
    return [(draw(st.sampled_from(REQS)), draw(st.integers(0, 50)), draw(st.integers(0, 2)), draw(st.sampled_from(TAGS[:6]))) for _ in range(draw(st.integers(1, 15)))]


def run_session(c):
    cl = httpc.shared(2)
    ep, cli, comm, store = cl.endpoints[0], cl.http, cl.comms[0], cl.stores[0]
    box, objs, m, stale = {}, {}, next(_n), mailbox(comm)
    from urllib.parse import quote

    for what, i, frm, tag in c:
        label(what)
        tag = f"{tag}~{m}"
        url = f"{ep}/comm/{quote(tag, safe='')}"
        bin_h = {"Content-Type": "application/octet-stream", "X-From-Rank": str(frm), "X-Is-Raw-Bytes": "0", "X-Serde-Format": "binary-container"}
        val = [i, None, f"v{i}"]
        before = sorted(store.list_keys())
        ok = None  # expected: True = 200, False = refused
        exec_ = {"graph": serde.dumps_b64(simple(i)), "inputs": serde.dumps_b64([])}
        if what == "comm":
            r, ok = cli.put(url, content=serde.dumps_binary(val), headers=bin_h), (frm, tag) not in box
            box.setdefault((frm, tag), val)
        elif what == "comm-json":
            r, ok = cli.put(url, json={"data": serde.dumps_b64(val), "from_rank": frm}), (frm, tag) not in box
            box.setdefault((frm, tag), val)
        elif what == "dup":
            if (frm, tag) not in box:
                continue
            r, ok = cli.put(url, content=b"other", headers={**bin_h, "X-Is-Raw-Bytes": "1", "X-Serde-Format": "raw-bytes"}), False
        elif what == "no-rank":
            r, ok = cli.put(url, content=serde.dumps_binary(val), headers={k: v for k, v in bin_h.items() if k != "X-From-Rank"}), False
        elif what == "bad-rank":
            r, ok = cli.put(url, content=serde.dumps_binary(val), headers={**bin_h, "X-From-Rank": ["", "one", "1.5", "0x1"][i % 4]}), False
        elif what == "garbage":
            r, ok = cli.put(url, content=[b"", b"\x00", b"garbage", b"{}" * 40][i % 4], headers=bin_h), False
        elif what == "truncated":
            d = serde.dumps_binary({"a": np.arange(i + 1), "b": b"x" * i})
            r, ok = cli.put(url, content=d[: len(d) - 1 - i % (len(d) - 1)], headers=bin_h), False
        elif what == "bad-format":
            r, ok = cli.put(url, content=serde.dumps_binary(val), headers={**bin_h, "X-Serde-Format": "pickle"}), False
        elif what == "json-garbage":
            r, ok = cli.put(url, content=[b"{", b"", b"\xff\xfe", b"nope"][i % 4], headers={"Content-Type": "application/json"}), False
        elif what == "json-missing":
            full = {"data": serde.dumps_b64(val), "from_rank": frm}
            full.pop(["data", "from_rank"][i % 2])
            r, ok = cli.put(url, json=full), False
        elif what == "json-type":
            r, ok = cli.put(url, json=[[], 5, None, "x", {"data": 5, "from_rank": frm}, {"data": serde.dumps_b64(val), "from_rank": "x"}, {"data": serde.dumps_b64(val), "from_rank": None}][i % 7]), False
        elif what == "json-payload":
            r, ok = cli.put(url, json={"data": ["", "!!!", base64.b64encode(b"junk").decode(), serde.dumps_b64(val)[: 8 + i % 8]][i % 4], "from_rank": frm}), False
        elif what == "recv":
            if not box:
                continue
            k = sorted(box)[i % len(box)]
            got = comm.recv(*k, timeout=5)
            check(got == box.pop(k), lambda: f"message {k} became {got!r}")
            continue
        elif what == "exec":
            r, ok = cli.post(f"{ep}/exec", json=exec_), True
            if r.status_code == 200:
                (u,) = serde.loads_b64(r.json()["result"])
                objs[u] = i
        elif what == "exec-graph":
            r, ok = cli.post(f"{ep}/exec", json={**exec_, "graph": ["", "x", base64.b64encode(b"junk").decode(), serde.dumps_b64([1])][i % 4]}), False
        elif what == "exec-inputs":
            r, ok = cli.post(f"{ep}/exec", json={**exec_, "inputs": ["", "?"][i % 2]}), False
        elif what == "exec-missing":
            r, ok = cli.post(f"{ep}/exec", json={k: v for j, (k, v) in enumerate(exec_.items()) if j != i % 2}), False
        elif what == "exec-arity":
            r, ok = cli.post(f"{ep}/exec", json={**exec_, "inputs": serde.dumps_b64([None] * (1 + i % 3))}), False
        elif what == "exec-unknown-op":
            g = Graph()
            g.add_output(g.add_op("no.such_op", [], [elt.TensorType(elt.i64, ())], {})[0])
            r, ok = cli.post(f"{ep}/exec", json={**exec_, "graph": serde.dumps_b64(g)}), False
        elif what == "exec-bad-uri":
            r, ok = cli.post(f"{ep}/exec", json={"graph": serde.dumps_b64(make_graph("input", 1)), "inputs": serde.dumps_b64([["mem://none", "fs://none", "xx://1", "mem://"][i % 4]])}), False
        elif what == "async-nojob":
            r, ok = cli.post(f"{ep}/exec/async", json=exec_ if i % 2 else {**exec_, "job_id": ""}), False
        elif what == "async-graph":
            r, ok = cli.post(f"{ep}/exec/async", json={**exec_, "graph": "zz", "job_id": f"bad{i}"}), False
            check(cli.get(f"{ep}/exec/bad{i}/status").status_code == 404, "a refused job is known")
        elif what == "status":
            r, ok = cli.get(f"{ep}/exec/none-{i}/status"), False
        elif what == "put":
            objs[store.put(i)] = i
            continue
        elif what == "fetch":
            if not objs:
                continue
            u = sorted(objs)[i % len(objs)]
            r, ok = cli.post(f"{ep}/fetch", json={"uri": u}), True
            check(r.status_code == 200 and np.asarray(getattr(v := serde.loads_b64(r.json()["result"]), "data", v)).tolist() == objs[u], lambda: f"fetch of {u}: {r.text}")
        elif what == "fetch-unknown":
            r, ok = cli.post(f"{ep}/fetch", json={"uri": f"mem://none{i}"}), False
        elif what == "fetch-scheme":
            r, ok = cli.post(f"{ep}/fetch", json=[{"uri": "none"}, {"uri": ""}, {}, {"uri": 5}, {"uri": "s3://x"}][i % 5]), False
        elif what == "objects":
            r, ok = cli.get(f"{ep}/objects"), True
            check(set(objs) <= set(r.json()["objects"]) and sorted(r.json()["objects"]) == before, lambda: f"/objects gives {r.text}, the store has {before}")
        elif what == "health":
            r, ok = cli.get(f"{ep}/health"), True
            check(r.json()["rank"] == "0" and r.json()["world_size"] == "2", lambda: r.text)
        elif what == "nowhere":
            r, ok = cli.get(f"{ep}/{['', 'x', 'exec', 'y'][i % 4]}"), False
        else:
            r, ok = [lambda: cli.get(url), lambda: cli.delete(url), lambda: cli.get(f"{ep}/fetch"), lambda: cli.put(f"{ep}/exec", json=exec_)][i % 4](), False
        check((r.status_code == 200) if ok else 400 <= r.status_code < 600, lambda: f"{what} #{i} answered {r.status_code} {r.text[:200]}")
        if not ok:
            check(sorted(store.list_keys()) == before, lambda: f"the refused {what} #{i} changed the store")
        check(not hasattr(comm, "_mailbox") or mailbox(comm) - stale == set(box), lambda: f"after {what} #{i} the mailbox holds {sorted(mailbox(comm) - stale)}, not {sorted(box)}")
    for k in sorted(box):
        got = comm.recv(*k, timeout=5)
        check(got == box[k], lambda: f"at the end, message {k} is {got!r}")
    r = cli.post(f"{ep}/exec", json={"graph": serde.dumps_b64(simple(7)), "inputs": serde.dumps_b64([])})
    check(r.status_code == 200, lambda: f"the worker no longer works: {r.text}")


def simple(i):
    return mp.compile(lambda: simp.constant((0,), np.array(i))).graph


# ---------------------------------------------------------------- values fetched by URI


@st.composite
def fetches(draw):
    return draw(s01.tree()), draw(st.sampled_from(["mem", "fs", "fs/deep"])), draw(st.integers(0, 1))


def run_fetch(c):
    v, where, rank = c
    cl = httpc.shared(2)
    drv = mp.make_driver(cl.endpoints).get_dialect_state("simp")
    try:
        obj = s01.build(v)
        store = cl.stores[rank]
        if where == "mem":
            uri = store.put(obj)
        else:
            try:
                uri = store.put(obj, uri=f"fs://{where}/k{random.randrange(10**9)}")
            except TypeError:
                return
        got = drv.fetch(rank, uri).result(timeout=20)
        d = same(s01.expect(s01.build(v)), got)
        check(d is None, lambda: f"fetch of {uri}: {d}")
        check(uri in cl.http.get(f"{cl.endpoints[rank]}/objects").json()["objects"], lambda: f"{uri} is not listed")
        store.delete(uri)
        try:
            x = drv.fetch(rank, uri).result(timeout=20)
        except httpx.HTTPStatusError:
            pass
        else:
            check(False, f"{uri} was deleted but gives {x!r}")
    finally:
        drv.shutdown()
    label(where)


SUBS = [
    Sub("wire", wires, run_wire, "values of every kind between three HTTP workers, in both wire modes and all ways to send, under awkward keys; non-trivial = a container or array, or raw bytes",
        lambda c: any(s01.nt_tree(m[3]) or m[4] for m in c[0]), quick=250, thorough=6000, shards_quick=2, shards_thorough=6, hang_s=90),
    Sub("programs", programs, run_program, "random multi-party programs on one to four HTTP workers against the model the in-memory cluster is checked with (C02); non-trivial = several steps and parties",
        lambda c: c[0] > 1 and len(c02.plan(*c[:3])[1]) > 2, quick=90, thorough=1500, shards_quick=2, shards_thorough=4, hang_s=90),
    Sub("async", jobs, run_jobs, "sequences of asynchronous jobs that succeed or fail, polled all the time while serialization and error text are slow; non-trivial = some job has an outcome to show",
        lambda c: any(j[0] != "none" for j in c), quick=100, thorough=1500, shards_quick=2, shards_thorough=4, hang_s=90),
    Sub("requests", sessions, run_session, "sessions of good, malformed, duplicate and unknown requests against a model of mailbox and store; non-trivial = both good and bad requests",
        lambda c: len({x[0] for x in c}) > 2, quick=250, thorough=5000, shards_quick=2, shards_thorough=4, hang_s=90),
    Sub("fetch", fetches, run_fetch, "values stored on a worker and fetched by URI through the driver; non-trivial = a container or array", lambda c: s01.nt_tree(c[0]), quick=150, thorough=3000, shards_quick=1, shards_thorough=3, hang_s=90),
]
KNOWN = []
