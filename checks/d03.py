"""D03: a command does to the described cluster what it says."""

from __future__ import annotations

import contextlib
import http.server
import io
import multiprocessing
import os
import random
import re
import signal
import socket
import sys
import tempfile
import threading
from unittest import mock

import yaml
from hypothesis import strategies as st

from checks import d02
from checks.d02 import cli
from mplang import cli as C
from mplang.edsl import context as ctx_mod
from vf import httpc
from vf.core import Sub, check, label

PROPERTY = "D03"
ASSUMPTIONS = ["workers started by the command line are recorded, not started; their own behaviour over real sockets is that of C03",
               "the names of persisted objects are those the store lists (R02)"]

# ---------------------------------------------------------------- jobs
JOB = '''
import numpy as np
import mplang as mp
from mplang.dialects import simp, tensor

CALLS = []


def report(kind, args, vals):
    state = mp.get_current_context().get_dialect_state("simp")
    return f"{kind} {list(args)!r} {state.world_size} {vals!r}"


def parties(*args):
    """Each party holds its own number; then they are rotated by one."""
    P = mp.get_current_context().get_dialect_state("simp").world_size
    xs = [simp.constant((i,), np.int64(SALT + 10 * i + len(args))) for i in range(P)]
    ys = [simp.shuffle_static(x, {(i + 1) % P: i}) for i, x in enumerate(xs)]
    return report("parties", args, [[None if v is None else int(v) for v in (lambda r: r if isinstance(r, list) else [r])(mp.fetch(y))] for y in ys])


def devices(*args):
    """A number put on every plain device of the cluster, by name."""
    got = []
    for name in DEVICES:
        x = mp.put(name, np.int64(SALT + len(name) + len(args)))
        got.append((name, tuple(x.type.parties), int(mp.fetch(x))))
    return report("devices", args, got)


def silent(*args):
    print("said", *args)


def number(*args):
    return len(args) * SALT


def failing(*args):
    raise LookupError(f"job {len(args)}")


__mp_main__ = DEFAULT
not_callable = 7
'''


@st.composite
def jobs(draw):
    return draw(st.integers(1, 3)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["sim flags", "sim config", "run sim", "http endpoints", "http config", "http config"]))


WORDS = ["a", "0", "x=1", "节", "two words", "3.5", "a,b"]


def run_job(c):
    P, seed, how = c
    r = random.Random(seed)
    httpish = how.startswith("http")
    salt = r.randrange(1, 1000)
    default = r.choice(["parties", "devices", "number"])
    entry = r.choice([None, "parties", "devices", "devices", "silent", "number", "failing", "missing", "not_callable"])
    argv_ = [r.choice(WORDS) for _ in range(r.randrange(4))]
    names = [f"n{i}" for i in r.sample(range(9), P)]
    devs = {}  # name -> rank
    for k in r.sample(range(30), P + r.randrange(2)):
        devs[r.choice(["P", "dev", "ppu_"]) + str(k)] = r.randrange(P)
    eps = [e.removeprefix("http://") if r.random() < 0.6 else e for e in (httpc.shared(P).endpoints if httpish else [f"127.0.0.1:{9000 + i}" for i in range(P)])]
    config = how.endswith("config") or (how == "run sim" and r.random() < 0.5)
    if not config:
        devs = {f"P{i}": i for i in range(P)}
    with tempfile.TemporaryDirectory() as tmp:
        script, conf = os.path.join(tmp, "job.py"), os.path.join(tmp, "c.yaml")
        order = r.sample(list(devs), len(devs))
        with open(script, "w", encoding="utf-8") as f:
            f.write(JOB.replace("SALT", str(salt)).replace("DEFAULT", default).replace("DEVICES", repr(order)))
        args = ["sim"] if how.startswith("sim") else ["run", "--backend", "sim" if how == "run sim" else "http"]
        if how.startswith("http") and r.random() < 0.3:
            args = ["run"]  # http is the default
        if config:
            with open(conf, "w", encoding="utf-8") as f:
                yaml.safe_dump({"nodes": [{"name": n, "endpoint": e} for n, e in zip(names, eps)], "devices": {d: {"kind": r.choice(["PPU", "ppu"]), "members": [names[i]]} for d, i in devs.items()}}, f)
            args += ["-c", conf]
        elif how.startswith("http"):
            args += ["--endpoints", r.choice([",", ", "]).join(eps)]
        else:
            args += ["-w", str(P)]
        gone = r.random() < 0.08
        args += ["-f", script + ("x" if gone else ""), *(["--entry", entry] if entry else []), *(["--args", *argv_] if argv_ else [])]
        what = entry or default
        depth = len(ctx_mod._context_stack)
        err = None
        try:
            out, _ = cli(*args)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            err = e
        finally:
            left = len(ctx_mod._context_stack) - depth
            while len(ctx_mod._context_stack) > depth:
                ctx_mod._context_stack.pop()
    if gone or what in ("missing", "not_callable", "failing"):
        want = FileNotFoundError if gone else LookupError if what == "failing" else AttributeError
        check(isinstance(err, want), lambda: f"{args}: {err!r} instead of {want.__name__}")
        check(gone or what != "failing" or err.args == (f"job {len(argv_)}",), lambda: f"{args}: {err!r}")
        label("refused")
        return
    if err is not None:
        if httpish:
            httpc.renew(P)
        raise err
    check(left == 0, lambda: f"{args}: {left} contexts left behind")
    n = len(argv_)
    if what == "parties":
        want = f"parties {argv_!r} {P} {[[salt + 10 * i + n if P == 1 or p == (i + 1) % P else None for p in range(P)] for i in range(P)]!r}\n"
    elif what == "devices":
        want = f"devices {argv_!r} {P} {[(d, (devs[d],), salt + len(d) + n) for d in order]!r}\n"
    elif what == "silent":
        want = " ".join(["said", *argv_]) + "\n"
    else:
        want = f"{n * salt}\n"
    check(out == want, lambda: f"{args} printed {out!r} instead of {want!r}")
    label(how)
    label(what)


# ---------------------------------------------------------------- status, objects
class Fake:
    """A server that is no healthy worker."""

    def __init__(self):
        outer = self

        class Handler(http.server.BaseHTTPRequestHandler):
            def do_GET(self):
                code, body = outer.answer
                outer.seen.append(self.path)
                self.send_response(code)
                self.send_header("Content-Length", str(len(body)))
                self.end_headers()
                self.wfile.write(body)

            def log_message(self, *a):
                pass

        self.answer, self.seen = (200, b""), []
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), Handler)
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
        self.endpoint = f"http://127.0.0.1:{self.srv.server_address[1]}"


_fake = None


@st.composite
def watches(draw):
    return draw(st.sampled_from(["status", "objects"])), draw(st.lists(st.sampled_from(["live", "live", "live", "closed", "error", "garbage"]), min_size=1, max_size=5)), draw(st.integers(0, 2**40))


def run_watch(c):
    global _fake
    kind, states, seed = c
    r = random.Random(seed)
    P = 3
    cl = httpc.shared(P)
    _fake = _fake or Fake()
    _fake.answer = r.choice([(500, b"{}"), (404, b"not found"), (503, b"")]) if "error" in states else (200, b"<html>")
    if "error" in states:
        states = ["error" if s == "garbage" else s for s in states]
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))  # bound, but nobody listens
        closed = f"http://127.0.0.1:{s.getsockname()[1]}"
        rows = []
        for x in states:
            i = r.randrange(P)
            rows.append((x, i, {"live": cl.endpoints[i], "closed": closed}.get(x, _fake.endpoint)))
        put = {i: [] for i in range(P)}
        for i in range(P):
            before = set(cl.stores[i].list_keys())
            for _ in range(r.choice([0, 1, 2, 3, 4, 7])):
                cl.stores[i].put(r.randrange(1000))
            put[i] = (len(before), sorted(set(cl.stores[i].list_keys()) - before), set(cl.stores[i].list_keys()))
        with tempfile.TemporaryDirectory() as tmp:
            if r.random() < 0.4:
                conf = os.path.join(tmp, "c.yaml")
                with open(conf, "w") as f:
                    ids = r.sample(range(20), len(rows))  # ranks go by position, whatever the names
                    yaml.safe_dump({"nodes": [{"name": f"n{k}", "endpoint": r.choice([e, e.removeprefix("http://")])} for k, (_, _, e) in zip(ids, rows)]}, f)
                args = [kind, "-c", conf]
            else:
                args = [kind, "--endpoints", ",".join(r.choice([e, e.removeprefix("http://")]) for _, _, e in rows)]
            out, _ = cli(*args)
        if r.random() < 0.7:
            for i in range(P):
                for k in cl.stores[i].list_keys():
                    cl.stores[i].delete(k)
    lines = out.splitlines()
    if kind == "status":
        said = [x for x in lines if re.match(r"(OK|ERR)\s", x)]
        check(len(said) == len(rows), lambda: f"{len(rows)} workers, reported:\n{out}")
        for x, (state, i, e) in zip(said, rows):
            good = state == "live"
            check(x.startswith("OK") == good and f" {e}/health" in x, lambda: f"{state} worker {e}: {x!r}")
            if good:
                check(f"'rank': '{i}'" in x and f"'world_size': '{P}'" in x, lambda: f"worker {i} of {P}: {x!r}")
    else:
        said = [x for x in lines if "|" in x][1:]
        check(len(said) == len(rows), lambda: f"{len(rows)} workers, listed:\n{out}")
        for k, (x, (state, i, e)) in enumerate(zip(said, rows)):
            rank, ep, count, objs = [p.strip() for p in x.split("|", 3)]
            check(rank == str(k) and ep == e, lambda: f"row {k} is {x!r} instead of {e}")
            if state != "live":
                check(count == "Err", lambda: f"{state} worker: {x!r}")
                continue
            n, new, all_ = put[i]
            shown = [o for o in objs.split(", ") if o]
            more = shown[-1:] == ["..."]
            shown = shown[:-1] if more else shown
            check(count == str(len(all_)) and set(shown) <= all_ and len(shown) == len(set(shown)) == min(3, len(all_)) and more == (len(all_) > 3), lambda: f"worker {i} holds {sorted(all_)}, listed {x!r}")
    for s in set(states):
        label(f"{kind} {s}")


# ---------------------------------------------------------------- up
class Process:
    made = []

    def __init__(self, target=None, args=(), kwargs=None, **kw):
        self.target, self.args, self.kwargs, self.did = target, args, kwargs or {}, []
        Process.made.append(self)

    def start(self):
        self.did.append("start")

    def join(self, timeout=None):
        self.did.append("join")

    def terminate(self):
        self.did.append("terminate")


@st.composite
def ups(draw):
    return draw(st.integers(1, 5)), draw(st.integers(0, 2**40)), draw(st.sampled_from(["config", "flags", "endpoints"]))


def run_up(c):
    """Starting all workers at once starts what starting each by itself starts."""
    P, seed, how = c
    r = random.Random(seed)
    base = r.randrange(1000, 9000)
    eps = [r.choice(["", "http://", "https://"]) + r.choice(["10.0.0.1", "localhost", "h"]) + f":{base + 7 * i}" for i in range(P)]
    full = [e if "://" in e else "http://" + e for e in eps]
    ports = [base + 7 * i for i in range(P)]
    spu = None
    with tempfile.TemporaryDirectory() as tmp:
        conf = os.path.join(tmp, "c.yaml")
        args = []
        start = r.choice([None, r.randrange(10000, 20000)])
        if how == "config":
            nodes = [{"name": f"n{i}", "endpoint": e} for i, e in zip(r.sample(range(20), P), eps)]
            devs = {"P": {"kind": "PPU", "members": [nodes[0]["name"]]}}
            if r.random() < 0.5:
                devs["S"] = {"kind": r.choice(["SPU", "spu"]), "members": [n["name"] for n in nodes]}
                spu = {i: full[i].split("://")[1].rsplit(":", 1)[0] + f":{(start or ports[0] + 1000) + i}" for i in range(P)}
            with open(conf, "w") as f:
                yaml.safe_dump({"nodes": nodes, "devices": devs}, f)
            args += ["-c", conf]
        elif how == "flags":
            args += ["-w", str(P), "-p", str(base)]
            ports = [base + i for i in range(P)]
            full = [f"http://127.0.0.1:{p}" for p in ports]
            spu = {i: f"127.0.0.1:{start + i}" for i in range(P)} if start else None
        else:
            args += ["--endpoints", ",".join(eps)]
            start = None
        if start:
            args += ["--spu-base-port", str(start)]
        if r.random() < 0.3:
            lst = [f"s{i}:{i + 1}" for i in range(P)]
            args += ["--spu-endpoints", ",".join(lst)]
            spu = dict(enumerate(lst))
        Process.made = []
        handlers = {}
        with mock.patch.object(multiprocessing, "Process", Process):
            out = up(args, handlers)
        alone = [cli("worker", "--rank", str(i), *args)[1] for i in range(P)]
        if P > 1 and r.random() < 0.3:
            try:
                cli("worker", "--rank", "0", *args, "--spu-endpoints", ",".join(["h:1"] * (P - 1)))
            except ValueError:
                label("refused addresses")
            else:
                check(False, f"{P - 1} addresses were accepted for {P} workers")
    made = list(Process.made)
    check(len(made) == P, lambda: f"{args} starts {len(made)} processes")
    for i, p in enumerate(made):
        got = {}
        with mock.patch.object(d02.H, "create_worker_app", lambda rank, world_size, endpoints, spu_endpoints=None, **kw: got.update(rank=rank, world=world_size, endpoints=list(endpoints), spu=spu_endpoints) or "app"), \
             mock.patch.object(d02.uvicorn, "run", lambda a, **kw: got.update(port=kw["port"], app=a)), mock.patch.object(signal, "signal", lambda *a: None):
            p.target(*p.args, **p.kwargs)
        want = {"rank": i, "world": P, "endpoints": full, "spu": spu, "port": ports[i], "app": "app"}
        check(got == want, lambda: f"{args}: process {i} is a worker {got} instead of {want}")
        check(alone[i] == got, lambda: f"{args}: worker {i} alone is {alone[i]}, with the others {got}")
        check(p.did == ["start", "join"], lambda: f"{args}: process {i} was {p.did}")
    listed = [x for x in out.splitlines() if "://" in x]
    check(len(listed) == P and all(x.endswith(e) and f" {i}:" in x for i, (x, e) in enumerate(zip(listed, full))), lambda: f"{args} says\n{out}")
    for sig in (signal.SIGINT, signal.SIGTERM):
        check(sig in handlers, lambda: f"{sig!r} is not handled")
        for p in made:
            p.did.clear()
        try:
            with contextlib.redirect_stdout(open(os.devnull, "w")):
                handlers[sig](sig, None)
        except SystemExit as e:
            check(not e.code, lambda: f"{sig!r} ends with {e.code}")
        check(all("terminate" in p.did for p in made), lambda: f"{sig!r} leaves workers running: {[p.did for p in made]}")
    label(how)


def up(args, handlers):
    out = io.StringIO()
    with mock.patch.object(signal, "signal", handlers.__setitem__), mock.patch.object(sys, "argv", ["mplang", "up", *args]), contextlib.redirect_stdout(out):
        C.main()
    return out.getvalue()


SUBS = [
    Sub("jobs", jobs, run_job, "generated scripts, entries, arguments and clusters given by flags or files, run by `sim`, `run` on the simulator and `run` over HTTP: what is printed is what the entry returns on exactly that cluster, devices at the ranks the file states; missing files and entries are refused; non-trivial = two parties", lambda c: c[0] > 1,
        quick=150, thorough=4000, shards_quick=2, shards_thorough=8),
    Sub("watch", watches, run_watch, "`status` and `objects` for lists of live workers in any order, closed ports and servers that answer errors; non-trivial = a live and a dead one", lambda c: "live" in c[1] and len(set(c[1])) > 1,
        quick=120, thorough=3000, shards_quick=1, shards_thorough=4),
    Sub("up", ups, run_up, "`up` with files, flags and address lists: one process per rank, each what `worker` of that rank starts, all ended by a signal; non-trivial = two workers", lambda c: c[0] > 1, quick=300, thorough=10000, shards_quick=1, shards_thorough=4),
]
KNOWN = []
