SEEDS = []
SEEDS.append(dict(id="t02-keepmap-cached", property="T02", edits=[("mplang/backends/tensor_impl.py", '''    if code_hash in _XLA_CACHE:
        compiled = _XLA_CACHE[code_hash]
    else:
        compile_options = compiler''', '''    arg_keep_map = op.attrs.get("arg_keep_map")
    if code_hash in _XLA_CACHE:
        compiled, arg_keep_map = _XLA_CACHE[code_hash]
    else:
        compile_options = compiler'''), ("mplang/backends/tensor_impl.py", '''            _XLA_CACHE[code_hash] = compiled
''', '''            _XLA_CACHE[code_hash] = (compiled, arg_keep_map)
'''), ("mplang/backends/tensor_impl.py", '''    # Handle JAX's unused parameter elimination via arg_keep_map
    arg_keep_map = op.attrs.get("arg_keep_map")
    if arg_keep_map is not None:
        # Filter out arguments that were eliminated by JAX during compilation
        jax_input_args''', '''    # Handle JAX's unused parameter elimination via arg_keep_map
    if arg_keep_map is not None:
        # Filter out arguments that were eliminated by JAX during compilation
        jax_input_args''')], needs="two functions that compile to the same code but use different arguments, run in one process", breaks="the second function is fed the first function's arguments",
demo='''
import numpy as np, mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    x, y = tensor.constant(np.arange(3)), tensor.constant(np.arange(3) + 10)
    a = mp.fetch(mp.evaluate(lambda a, b: tensor.run_jax(lambda p, q: p * 2, a, b), x, y))
    b = mp.fetch(mp.evaluate(lambda a, b: tensor.run_jax(lambda p, q: q * 2, a, b), x, y))
assert a.tolist() == [0, 2, 4] and b.tolist() == [20, 22, 24], (a, b)
'''))
SEEDS.append(dict(id="t01-reshape-order", property="T01", edits=[("mplang/backends/tensor_impl.py", "_unwrap(tensor_data).reshape(new_shape))", '_unwrap(tensor_data).reshape(new_shape, order="A"))')],
needs="an input whose memory layout is column-major, e.g. the result of a transpose", breaks="reshape reorders the elements",
demo='''
import numpy as np, mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
with Interpreter():
    x = tensor.constant(np.arange(6).reshape(2, 3))
    r = mp.fetch(mp.evaluate(lambda a: tensor.reshape(tensor.transpose(a, (1, 0)), (6,)), x))
assert r.tolist() == [0, 3, 1, 4, 2, 5], r
'''))
SEEDS.append(dict(id="s01-fortran-binary", property="S01", edits=[("mplang/edsl/serde.py", '''        seg_idx = ctx.add_segment(obj.tobytes())
        return {
            "_kind": "_ndarray_bref",''', '''        seg_idx = ctx.add_segment(obj.tobytes(order="A"))
        return {
            "_kind": "_ndarray_bref",''')],
needs="a column-major array of rank 2 or more sent in the binary container", breaks="the array comes back with its elements reordered",
demo='''
import numpy as np
from mplang.edsl import serde
a = np.asfortranarray(np.arange(6).reshape(2, 3))
b = serde.loads_binary(serde.dumps_binary({"k": [a]}))["k"][0]
assert (a == b).all(), b
'''))
SEEDS.append(dict(id="e01-const-cache", property="E01", edits=[("mplang/dialects/tensor.py", """    inner_key = (str(key_dtype), key_shape, key_bytes)
""", """    inner_key = (str(key_dtype.itemsize), key_shape, key_bytes)
""")],
needs="a traced program with two constants of the same bytes and shape but different element types (e.g. int zeros and float zeros)", breaks="the traced program uses the first constant's type for both and gives another result than the eager run",
demo="""
import numpy as np, mplang as mp
from mplang.dialects import tensor
from mplang.runtime.interpreter import Interpreter
def f():
    return tensor.constant(np.zeros(2)), tensor.constant(np.zeros(2, np.int64))
with Interpreter():
    a, b = mp.fetch(mp.evaluate(mp.compile(f)))
assert a.dtype == np.float64 and b.dtype == np.int64, (a.dtype, b.dtype)
"""))
SEEDS.append(dict(id="e05-digest-region", property="E05", edits=[("mplang/tool/program.py", '''    required_opcodes = sorted(_collect_opcodes(traced.graph))
    graph_digest''', '''    required_opcodes = sorted({op.opcode for op in traced.graph.operations})
    graph_digest''')],
needs="a program with nested regions holding opcodes that do not occur at the top", breaks="a freshly compiled artifact is refused when unpacked",
demo='''
import numpy as np
from mplang.dialects import simp, tensor
from mplang.edsl import typing as elt
from mplang.runtime.interpreter import InterpObject
from mplang.tool import program as tool
x = InterpObject(None, elt.MPType(elt.TensorType(elt.i64, (2,)), (0, 1)), None)
p = tool.compile_program(lambda v: simp.pcall_static((0, 1), lambda a: tensor.transpose(tensor.reshape(a, (1, 2)), (1, 0)), v), x)
q = tool.unpack(tool.pack(p))
assert q.required_opcodes == p.required_opcodes
assert "tensor.transpose" in p.required_opcodes, p.required_opcodes
'''))
