SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("r01-error-drain", "R01", [("mplang/runtime/interpreter.py", '''                with lock:
                    if not error_occurred:
                        error_occurred = True
                        ready_queue.put(error)
                return
''', '''                with lock:
                    # Let the tasks in flight finish before failing
                    if op.opcode in self.async_ops and self.executor:
                        active_tasks -= 1
                    first_error = first_error or error
                    error_occurred = True
                    if active_tasks == 0:
                        ready_queue.put(first_error)
                return
'''), ("mplang/runtime/interpreter.py", '''            nonlocal remaining_ops, error_occurred, active_tasks
''', '''            nonlocal remaining_ops, error_occurred, active_tasks, first_error
'''), ("mplang/runtime/interpreter.py", '''        error_occurred = False

        # 4.''', '''        error_occurred = False
        first_error: BaseException | None = None

        # 4.''')], "an operation that fails while another one, still running, succeeds later", "the evaluation waits forever instead of failing",
'''
import concurrent.futures, threading, time
from mplang.edsl.graph import Graph
from mplang.edsl import typing as elt
from mplang.runtime.interpreter import Interpreter
t = elt.TensorType(elt.i64, ())
g = Graph()
x = g.add_input("x", t)
[a] = g.add_op("demo.fail", [x], [t]); [b] = g.add_op("demo.slow", [x], [t])
g.add_output(a); g.add_output(b)
def fail(it, op, v): time.sleep(0.3); raise ValueError("boom")
def slow(it, op, v): time.sleep(1); return v
it = Interpreter(handlers={"demo.fail": fail, "demo.slow": slow}, executor=concurrent.futures.ThreadPoolExecutor(4))
it.async_ops = {"demo.fail", "demo.slow"}
out = []
def run():
    try: it.evaluate_graph(g, [1])
    except ValueError as e: out.append(str(e))
th = threading.Thread(target=run, daemon=True); th.start(); th.join(10)
import os
os._exit(0 if out == ["boom"] else 1)
''')

seed("r01-input-output-gc", "R01", [("mplang/runtime/interpreter.py", '''        for out in graph.outputs:
            remaining_consumers[out] += 1
''', '''        for out in dict.fromkeys(graph.outputs):
            if out.defining_op is not None:  # inputs belong to the caller
                remaining_consumers[out] += 1
''')], "a graph that returns one of its inputs and also computes with it", "the input is released before it is returned and the evaluation fails",
'''
import numpy as np, mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    x = tensor.constant(np.arange(3))
    a, b = mp.fetch(mp.evaluate(mp.compile(lambda v: (v, tensor.reshape(v, (3, 1))), x), x))
assert a.tolist() == [0, 1, 2] and b.tolist() == [[0], [1], [2]]
''')

seed("r02-read-cache", "R02", [("mplang/runtime/object_store.py", '''        with open(path, "rb") as f:
            return pickle.load(f)
''', '''        st = os.stat(path)
        stamp = (st.st_ino, st.st_size, st.st_mtime_ns)
        cached = self._loaded.get(path)
        if cached is None or cached[0] != stamp:
            with open(path, "rb") as f:
                cached = self._loaded[path] = (stamp, pickle.load(f))
        return cached[1]
'''), ("mplang/runtime/object_store.py", '''        super().__init__(root_path=root_path)
''', '''        super().__init__(root_path=root_path)
        self._loaded: dict[str, Any] = {}
''')], "a caller that changes a value it got from the file-system store and then gets it again", "the stored value changes with the caller's copy",
'''
import os
from mplang.runtime.object_store import FileSystemBackend, ObjectStore
s = ObjectStore(persistent=FileSystemBackend(os.path.join(os.environ["TMPDIR"], "root")))
s.put({"a": [1]}, "fs://k")
v = s.get("fs://k"); v["a"].append(2)
assert s.get("fs://k") == {"a": [1]}, s.get("fs://k")
''')

seed("c01-spawn-collision", "C01", [("mplang/backends/simp_worker/comm_context.py", '''            child_id = f"{self._id}.{self._spawn_counter}"
''', '''            child_id = f"{self._id}{self._spawn_counter}"
''')], "a context with more than ten children and grandchildren in use at the same time", "messages of two nested contexts get the same key and are mixed or refused",
'''
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
m = LocalMesh(2)
def tree(rank):
    root = CommContext(m.comms[rank], "job", rank)
    kids = [root.spawn() for _ in range(12)]
    return [kids[11], [kids[1].spawn() for _ in range(3)][1]]
a, b = tree(0), tree(1)
a[0].send(1, "outer"); a[1].send(1, "inner")
assert [b[0].recv(0), b[1].recv(0)] == ["outer", "inner"]
''')

seed("c04-notify-one", "C04", [("mplang/backends/simp_worker/mem.py", '''            self._mailbox[mailbox_key] = data
            self._cond.notify_all()
''', '''            self._mailbox[mailbox_key] = data
            self._cond.notify()
''')], "two requests on one worker waiting for different messages, the later one's arriving first", "the wrong waiter is woken and the right one waits forever",
'''
import threading, time, os
from mplang.backends.simp_worker.mem import LocalMesh
m = LocalMesh(2)
got = []
def wait(key): got.append(m.comms[0].recv(1, key))
ts = []
for k in ("first", "second"):
    t = threading.Thread(target=wait, args=(k,), daemon=True); t.start(); ts.append(t); time.sleep(0.3)
m.comms[1].send(0, "second", 2)
ts[1].join(5)
os._exit(0 if got == [2] else 1)
''')

seed("c02-or-short-circuit", "C02", [("mplang/backends/simp_worker/collective_algorithms.py", '''        if r == root:
            continue
        acc = combine(acc, bool(ctx.recv(r)))
''', '''        if r == root:
            continue
        if acc and combine is operator.or_:
            break  # the answer is known
        acc = combine(acc, bool(ctx.recv(r)))
''')], "an or-reduction that is decided early, followed by another collective of the same group", "the next collective reads the votes that were left over",
'''
import threading, os
from mplang.backends.simp_worker import collective_algorithms as algo
from mplang.backends.simp_worker.comm_context import CommContext
from mplang.backends.simp_worker.mem import LocalMesh
m = LocalMesh(3); out = {}
def party(r):
    ctx = CommContext(m.comms[r], "job", r)
    a = algo.allreduce_bool_or(ctx, r < 2, participants=(0, 1, 2))
    b = algo.allreduce_bool_or(ctx, False, participants=(0, 1, 2))
    c = algo.allgather(ctx, r * 10, participants=(0, 1, 2))
    out[r] = (a, b, c)
ts = [threading.Thread(target=party, args=(r,), daemon=True) for r in range(3)]
[t.start() for t in ts]; [t.join(10) for t in ts]
os._exit(0 if out == {r: (True, False, [0, 10, 20]) for r in range(3)} else 1)
''')

seed("c02-collect-own", "C02", [("mplang/libs/collective.py", '''    return [shuffle_static(data, routing={to: src}) for src in src_parties]
''', '''    return [
        data if src == to else shuffle_static(data, routing={to: src})
        for src in src_parties
    ]
''')], "collecting at a party that itself holds part of the data", "the collecting party's own entry is still held by everyone, with each party's own value",
'''
import numpy as np
from mplang.dialects import simp
from mplang.edsl import typing as elt
from mplang.edsl.tracer import trace
from mplang.libs.collective import collect
seen = []
def f():
    x = simp.converge(*[simp.constant((p,), np.array(p)) for p in range(3)])
    ys = collect(x, to=1)
    seen.extend(y.type.parties for y in ys)
    return ys
trace(f)
assert seen == [(1,)] * 3, seen
''')

seed("c03-legacy-raw", "C03", [("mplang/backends/simp_worker/http.py", '''                        "data": payload,
                        "from_rank": self.rank,
                        "is_raw_bytes": send_raw_bytes,
''', '''                        "data": payload,
                        "from_rank": self.rank,
                        "is_raw_bytes": is_raw_bytes,
''')], "plain bytes sent in the JSON wire mode (use_binary=False) without is_raw_bytes", "the receiver cannot read the message",
'''
import json, httpx
from mplang.backends.simp_worker import http as h
seen = []
c = h.HttpCommunicator(0, 2, ["http://127.0.0.1:9", "http://127.0.0.1:9"], config=h.CommConfig(use_binary=False))
def handler(request):
    seen.append(json.loads(request.content)); return httpx.Response(200, json={"status": "ok"})
c.client = httpx.Client(transport=httpx.MockTransport(handler))
c.send_sync(1, "k", b"\\x00payload")
assert seen[0]["is_raw_bytes"] is True, seen
''')

seed("p01-converge-overlap", "P01", [("mplang/dialects/simp.py", '''            for j, p2 in enumerate(parties_list[i + 1 :], i + 1):
''', '''            for j, p2 in enumerate(parties_list[i + 1 : i + 2], i + 1):
''')], "converging three or more values of which two that are not neighbours share a party", "the overlap is accepted and one of the party's two values is dropped",
'''
import numpy as np
from mplang.dialects import simp
from mplang.edsl.tracer import trace
def f():
    a, b, c = (simp.constant(p, np.array(1)) for p in ((0,), (1,), (0, 2)))
    return simp.converge(a, b, c)
try:
    trace(f)
except ValueError:
    pass
else:
    raise SystemExit("overlap accepted")
''')

seed("p02-capture-names", "P02", [("mplang/dialects/simp.py", '''    seen: dict[int, el.Object] = {}
    for obj in (o for lst in capture_lists for o in lst):
        seen.setdefault(id(obj), obj)
''', '''    seen: dict[Any, el.Object] = {}
    for obj in (o for lst in capture_lists for o in lst):
        # one value can be wrapped more than once
        value = getattr(obj, "_graph_value", None)
        seen.setdefault(value.name if value is not None else id(obj), obj)
''')], "control flow nested in control flow whose branches capture values of two enclosing levels with equal graph names", "one captured value is taken for the other",
'''
import os
import numpy as np, mplang as mp
from mplang.dialects import simp, tensor
sim = simp.make_simulator(2)
A = (0, 1)
def add(a, b): return simp.pcall_static(A, lambda p, q: tensor.run_jax(lambda u, v: u + v, p, q), a, b)
def f():
    t = simp.constant(A, np.array(True)); x = simp.constant(A, np.array(1)); y = simp.constant(A, np.array(10)); z = simp.constant(A, np.array(100))
    def then():
        w = simp.constant(A, np.array(1000)); w2 = simp.constant(A, np.array(5000)); w3 = simp.constant(A, np.array(9000)); w4 = simp.constant(A, np.array(7000))
        def inner():
            r = w
            for v in (x, y, z, w2, w3, w4): r = add(r, v)
            return r
        return simp.uniform_cond(t, inner, inner)
    return simp.uniform_cond(t, then, then)
try:
    with sim: r = mp.fetch(mp.evaluate(mp.compile(f)))
    ok = [int(v) for v in r] == [22111] * 2
except Exception as e:
    print(repr(e)); ok = False
os._exit(0 if ok else 1)
''')
