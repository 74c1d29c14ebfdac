SEEDS = []
def seed(id, property, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("s01-first-key", "S01", [("mplang/edsl/serde.py", '''        has_non_string_keys = any(not isinstance(k, str) for k in obj.keys())
        if has_non_string_keys:
            return {
                "_kind": "_dict_pairs",
                "pairs": [[to_json(k), to_json(v)] for k, v in obj.items()],
            }
''', '''        has_non_string_keys = not isinstance(next(iter(obj), ""), str)
        if has_non_string_keys:
            return {
                "_kind": "_dict_pairs",
                "pairs": [[to_json(k), to_json(v)] for k, v in obj.items()],
            }
''')], "a dict of mixed keys whose first key is a string", "the other keys come back as strings",
'''
from mplang.edsl import serde
for v in ({1: "a", "b": 2}, {"a": 1, 2: "b"}, {"x": {"a": 1, (1, 2): 3}} if False else {"x": {"a": 1, 7: 3}}):
    assert serde.loads(serde.dumps(v)) == v, v
''')

seed("s02-ndarray-count", "S02", [("mplang/edsl/serde.py", '''        return np.frombuffer(buffer, dtype=dtype).reshape(shape).copy()

    if kind == "_ndarray_object":
''', '''        arr = np.empty(shape, dtype=dtype)
        arr.reshape(-1)[:] = np.frombuffer(buffer, dtype=dtype, count=arr.size)
        return arr

    if kind == "_ndarray_object":
''')], "an array's payload that is longer than its shape says", "the array is read without its last elements instead of being refused",
'''
import numpy as np
from mplang.edsl import serde
d = serde.to_json(np.arange(6))
assert serde.from_json(dict(d)).tolist() == list(range(6))
d["shape"] = [5]
try:
    v = serde.from_json(d)
except Exception:
    pass
else:
    raise AssertionError(v)
''')

seed("e02-slice-end", "E02", [("mplang/dialects/tensor.py", '''            end = max(0, min(end, dim_size))
''', '''            end = max(start, end)
''')], "a slice that ends past the tensor's end", "the declared type is longer than the value",
'''
import numpy as np
from mplang.dialects import tensor
from mplang.edsl.tracer import trace
import mplang as mp
from mplang.runtime.interpreter import Interpreter
with Interpreter() as it:
    x = tensor.constant(np.arange(10).reshape(2, 5))
    y = tensor.slice_tensor(x, (0, 1), (9, 20), (1, 2))
    assert y.runtime_obj.unwrap().shape == y.type.shape, (y.type, y.runtime_obj.unwrap().shape)
''')

seed("f01-low-word-zero", "F01", [("mplang/kernels/py_kernels.py", '''    result = np.zeros_like(a_flat)
    for i in range(n):
        result[i] = gf128_mul_single(a_flat[i], b_flat[i])
''', '''    # Zero times anything stays zero
    result = np.zeros_like(a_flat)
    for i in np.flatnonzero(a_flat[:, 0] & a_flat[:, 1] | a_flat[:, 0]):
        result[i] = gf128_mul_single(a_flat[i], b_flat[i])
''')], "an element whose low word is zero", "its products are zero",
'''
import numpy as np
from mplang.backends.field_impl import py_kernels
from mplang.kernels import py_kernels
one = np.array([[1, 0]], dtype=np.uint64)
for v in ([3, 5], [0, 0], [7, 0], [0, 9], [0, 1 << 63]):
    a = np.array([v], dtype=np.uint64)
    assert (py_kernels.gf128_mul_batch(a, one) == a).all() and (py_kernels.gf128_mul_batch(one, a) == a).all(), v
''')

seed("f02-repeated-key", "F02", [("mplang/kernels/py_kernels.py", '''    for i in range(n):
        h1, h2, h3 = _hash_key_py(int(keys[i]), m, seed)
        rows.append((h1, h2, h3))
        col_to_rows[h1].append(i)
''', '''    # A key that is given again needs no row of its own
    _, first = np.unique(keys, return_index=True)
    keys, values, n = keys[np.sort(first)], values[np.sort(first)], len(first)

    for i in range(n):
        h1, h2, h3 = _hash_key_py(int(keys[i]), m, seed)
        rows.append((h1, h2, h3))
        col_to_rows[h1].append(i)
''')], "a key given twice with different values", "one of its values is dropped silently instead of being refused",
'''
import numpy as np
from mplang.kernels import py_kernels
k = np.array([5, 6, 5], dtype=np.uint64)
v = np.arange(6, dtype=np.uint64).reshape(3, 2)
try:
    t = py_kernels.okvs_solve(k, v, 75, (1, 2))
except Exception:
    pass
else:
    assert (py_kernels.okvs_decode(k, t, 75, (1, 2)) == v).all()
''')

seed("m01-word-items", "M01", [("mplang/libs/mpc/psi/unbalanced.py", '''            k_lo = (x + s[0]) ^ KEY_DOMAIN
            k_hi = (x ^ s[1]) + KEY_DOMAIN
''', '''            x = x.astype(jnp.uint32)  # upper word comes from the seed
            k_lo = (x + s[0]) ^ KEY_DOMAIN
            k_hi = (x ^ s[1]) + KEY_DOMAIN
'''), ("mplang/libs/mpc/psi/unbalanced.py", '''            v_lo = (x + s[0]) ^ VAL_DOMAIN
            v_hi = (x ^ s[1]) + VAL_DOMAIN
''', '''            x = x.astype(jnp.uint32)
            v_lo = (x + s[0]) ^ VAL_DOMAIN
            v_hi = (x ^ s[1]) + VAL_DOMAIN
''')], "items of the two parties that agree in their low 32 bits only", "they are taken for one item (needs both the key and the value to be derived so)",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp, tensor
from mplang.libs.mpc.psi.unbalanced import psi_unbalanced
a = np.array([1, 2, 3, (7 << 32) + 4], dtype=np.uint64)
b = np.array([2, (1 << 32) + 3, 4, (7 << 32) + 4], dtype=np.uint64)
with mp.make_simulator(2) as sim:
    with sim:
        x = simp.pcall_static((0,), lambda: tensor.constant(a)); y = simp.pcall_static((1,), lambda: tensor.constant(b))
        got = np.asarray(mp.fetch(psi_unbalanced(0, 1, 4, 4, x, y))[1])
assert got.tolist() == [1, 0, 0, 1], got
''')

seed("m03-ask-again", "M03", [("mplang/libs/mpc/vole/gilboa.py", '''    # Extract
    delta_recv = simp.pcall_static((receiver,), lambda x: x[0], delta_and_bits)
''', '''    # Extract
    delta_recv = simp.pcall_static((receiver,), delta_provider)
''')], "a delta that its provider draws at random (as silver does), and secrets asked for", "the delta that is returned is not the one that was used",
'''
import numpy as np, mplang as mp
from mplang.dialects import simp, tensor, crypto, field
from mplang.edsl import typing as elt
from mplang.libs.mpc.vole import gilboa
from mplang.kernels import py_kernels
with mp.make_simulator(2) as sim:
    with sim:
        r = gilboa.vole(0, 1, 3, lambda: crypto.random_tensor((3, 2), elt.u64), lambda: crypto.random_tensor((2,), elt.u64), return_secrets=True)
        v, w, u, d = (next(np.asarray(x) for x in mp.fetch(o) if x is not None) for o in r)
d = np.tile(d.reshape(1, 2), (3, 1))
assert ((v ^ py_kernels.gf128_mul_batch(u, d)) == w).all()
''')

seed("o01-queue-by-op", "O01", [("mplang/runtime/interpreter.py", '''        key = (id(op), namespace)
        self.op_schedule_times[key] = time.time() * 1e6
''', '''        self.op_schedule_times[id(op)] = time.time() * 1e6
'''), ("mplang/runtime/interpreter.py", '''        key = (id(op), namespace)
        if key in self.op_schedule_times:
            sched_ts = self.op_schedule_times.pop(key)
''', '''        sched_ts = self.op_schedule_times.pop(id(op), None)
        if sched_ts is not None:
''')], "two parties that run one program at the same time (one has scheduled an operation before the other started it)", "an operation's time in the queue is recorded for one of the parties only",
'''
from mplang.runtime.interpreter import ExecutionTracer
import tempfile
class Op: opcode = "x"
t, op = ExecutionTracer(enabled=True, trace_dir=tempfile.mkdtemp()), Op()
t.log_schedule(op, "p0"); t.log_schedule(op, "p1")
a = t.log_start(op, 0, "p0"); b = t.log_start(op, 1, "p1")
t.log_end(op, a, 0); t.log_end(op, b, 1)
assert sorted((e["name"], e["pid"]) for e in t.trace_events) == [("Queue: x", 0), ("Queue: x", 1), ("x", 0), ("x", 1)], t.trace_events
''')

seed("k05-quote-cache", "K05", [("mplang/backends/tee_impl.py", '''    return MockQuoteValue(
        platform=platform,
        bound_pk=pk.key_bytes,
        suite=pk.suite,
    )
''', '''    # Asking the hardware is slow: keep a key's quote
    quote = _QUOTES.get(id(pk))
    if quote is None:
        quote = _QUOTES[id(pk)] = MockQuoteValue(
            platform=platform,
            bound_pk=pk.key_bytes,
            suite=pk.suite,
        )
    return quote
'''), ("mplang/backends/tee_impl.py", '''def _emit_mock_warning(operation: str) -> None:
''', '''_QUOTES: dict[int, MockQuoteValue] = {}


def _emit_mock_warning(operation: str) -> None:
''')], "a key that was freed before another one was attested in its place", "a quote vouches for an earlier key",
'''
import gc
from mplang.dialects import crypto, tee
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    for _ in range(200):
        sk, pk = crypto.kem_keygen()
        got = tee.attest(tee.quote_gen(pk)).runtime_obj.key_bytes
        assert got == pk.runtime_obj.key_bytes
        del sk, pk
        gc.collect()
''')

seed("b01-one-connection", "B01", [("mplang/backends/table_impl.py", '''    if state is None:
        conn = duckdb.connect()
        state = DuckDBState(conn)
''', '''    if state is None:
        # Connecting is slow: a thread keeps its connection
        conn = getattr(_LOCAL, "conn", None)
        if conn is None:
            conn = _LOCAL.conn = duckdb.connect()
        state = DuckDBState(conn)
'''), ("mplang/backends/table_impl.py", '''@table.run_sql_p.def_impl
''', '''_LOCAL = threading.local()


@table.run_sql_p.def_impl
'''), ("mplang/backends/table_impl.py", '''import base64
''', '''import base64
import threading
''')], "two queries over tables of one name, the first's result read after the second ran", "the first result is computed from the second's table",
'''
import pyarrow as pa
from mplang.dialects import table
from mplang.edsl import typing as elt
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    def q(vs):
        t = table.constant(pa.table({"a": pa.array(vs, pa.int64())}))
        return table.run_sql("SELECT a * 2 AS b FROM t", out_type=elt.TableType({"b": elt.i64}), t=t)
    x = q([1, 2]); y = q([5, 6, 7])
    assert x.runtime_obj.data.to_pydict() == {"b": [2, 4]} and y.runtime_obj.data.to_pydict() == {"b": [10, 12, 14]}, x.runtime_obj.data
''')

seed("k03-constant-cache", "K03", [("mplang/backends/phe_impl.py", '''            ct_other = self.ctx.encrypt(other)
''', '''            # Encrypting is slow: keep what was encrypted before
            ct_other = _ENCRYPTED.get(other)
            if ct_other is None:
                ct_other = _ENCRYPTED[other] = self.ctx.encrypt(other)
'''), ("mplang/backends/phe_impl.py", '''    ct: Ciphertext
    ctx: PHEContext

    def __add__(''', '''    ct: Ciphertext
    ctx: PHEContext

    # ct + int -> ct + encrypt(int)
    def __add__(''') if False else ("mplang/backends/phe_impl.py", '''def _as_int(value: TensorValue) -> int:
''', '''_ENCRYPTED: dict[int, Ciphertext] = {}


def _as_int(value: TensorValue) -> int:
''')], "one number added to ciphertexts of two keys", "the sum under the second key is garbage",
'''
import numpy as np
from mplang.dialects import phe, tensor
from mplang.edsl import typing as elt
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    for i in range(2):
        pk, sk = phe.keygen(key_size=512)
        e = phe.create_encoder(dtype=elt.i64)
        five = phe.encode(tensor.constant(np.int64(5)), e)
        seven = phe.encode(tensor.constant(np.int64(7)), e)
        s = phe.add(phe.encrypt(five, pk), seven)
        assert int(phe.decode(phe.decrypt(s, sk), e).runtime_obj.unwrap()) == 12
''')

seed("r02-first-megabyte", "R02", [("mplang/runtime/object_store.py", '''            for chunk in iter(lambda: f.read(1024 * 1024), b""):
                hasher.update(chunk)
''', '''            hasher.update(f.read(1024 * 1024))
''')], "two equally long files that differ after their first MiB only", "they are taken for the same: an upload drops the new data, a download keeps the old",
'''
import os
from mplang.runtime.object_store import FileSystemBackend
d = os.environ["TMPDIR"]
s = FileSystemBackend(os.path.join(d, "root"))
for i in range(2):
    p = os.path.join(d, f"f{i}")
    with open(p, "wb") as f:
        f.write(bytes(2 * 1024 * 1024) + bytes([i]))
    try:
        s.upload(p, "k")
        assert i == 0, "the second upload dropped other data silently"
    except FileExistsError:
        assert i == 1
''')

seed("r03-quoted-keys", "R03", [("mplang/runtime/object_store.py", '''        if path == root or os.path.commonpath([root, path]) != root:
            raise ValueError(f"Invalid key (traversal attempt): {key}")
        return path
''', '''        if path == root or os.path.commonpath([root, path]) != root:
            raise ValueError(f"Invalid key (traversal attempt): {key}")
        # Keys come from URIs, where "%20" is a space
        return urllib.parse.unquote(path)
'''), ("mplang/runtime/object_store.py", '''import uuid
''', '''import urllib.parse
import uuid
''')], "a key with percent-encoded dots", "a key reaches a file outside the store's root",
'''
import os
from mplang.runtime.object_store import FileSystemBackend
d = os.environ["TMPDIR"]
top = os.path.join(d, "top"); os.makedirs(os.path.join(top, "a"))
s = FileSystemBackend(os.path.join(top, "a", "root"))
for k in ("x/%2e%2e/%2e%2e/y", "%2e%2e/y", "..%2fy"):
    try:
        s.put(k, 1)
    except Exception:
        pass
    out = [os.path.relpath(os.path.join(w, f), top) for w, _, fs in os.walk(top) for f in fs]
    assert all(p.startswith("a/root/") for p in out), out
''')
