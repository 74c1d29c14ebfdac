From 112d1d2b266fb2a2d635b041c3bb1b94422c3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 01/82] fix: keep TableType column order when serialized and
 hash equal table types alike

---
 mplang/edsl/typing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mplang/edsl/typing.py b/mplang/edsl/typing.py
index 03f9b51..59d23df 100644
--- a/mplang/edsl/typing.py
+++ b/mplang/edsl/typing.py
@@ -616,7 +616,8 @@ class TableType(BaseType):
         return self.schema == other.schema and self.nrows == other.nrows
 
     def __hash__(self) -> int:
-        return hash(("TableType", tuple(self.schema.items()), self.nrows))
+        # __eq__ compares schemas as mappings, so the hash must not depend on order.
+        return hash(("TableType", frozenset(self.schema.items()), self.nrows))
 
     @property
     def is_dynamic(self) -> bool:
@@ -634,6 +635,8 @@ class TableType(BaseType):
     def to_json(self) -> dict[str, Any]:
         d: dict[str, Any] = {
             "schema": {name: serde.to_json(t) for name, t in self.schema.items()},
+            # Column order, kept apart because JSON writers may sort object keys.
+            "columns": list(self.schema),
         }
         if self.nrows != -1:
             d["nrows"] = self.nrows
@@ -641,7 +644,8 @@ class TableType(BaseType):
 
     @classmethod
     def from_json(cls, data: dict[str, Any]) -> TableType:
-        schema = {name: serde.from_json(t) for name, t in data["schema"].items()}
+        names = data.get("columns", list(data["schema"]))
+        schema = {name: serde.from_json(data["schema"][name]) for name in names}
         nrows = data.get("nrows", -1)
         return cls(schema, nrows=nrows)
 
-- 
2.43.0


From 7be9b098762158fb129a3108b8cc9237f356bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 02/82] fix: keep the values of tensor constants given in
 non-native byte order

---
 mplang/dialects/tensor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mplang/dialects/tensor.py b/mplang/dialects/tensor.py
index 9ac52f8..8e264fa 100644
--- a/mplang/dialects/tensor.py
+++ b/mplang/dialects/tensor.py
@@ -210,6 +210,12 @@ def jax_fn(fn: Callable[..., Any]) -> Callable[..., Any]:
     return wrapped
 
 
+def _to_native_array(data: Any) -> np.ndarray:
+    """Convert to numpy in native byte order (the embedded bytes carry no order)."""
+    arr = np.array(data)
+    return arr.astype(arr.dtype.newbyteorder("="), copy=False)
+
+
 @constant_p.def_trace
 def _constant_trace(data: Any) -> el.TraceObject:
     """Create constant tensor from data.
@@ -226,7 +232,7 @@ def _constant_trace(data: Any) -> el.TraceObject:
     tracer = _current_tracer()
 
     # Unified numpy conversion for all data types
-    np_array = np.array(data)
+    np_array = _to_native_array(data)
     dtype = dtypes.from_dtype(np_array.dtype)
     shape = tuple(np_array.shape)
     output_type: elt.TensorType = elt.TensorType(dtype, shape)
@@ -280,7 +286,7 @@ def constant(data: Any) -> el.Object:
         >>> z = constant([[1, 2], [3, 4]])  # Nested list constant
     """
     # Normalize data to numpy
-    np_array = np.array(data)
+    np_array = _to_native_array(data)
 
     # Ensure canonical form for cache key
     key_shape = tuple(np_array.shape)
-- 
2.43.0


From 1a22b155a4fdddabcb9294adb299e07a16fadb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 03/82] fix: do not reuse constants of an earlier graph when a
 tracer is reused

---
 mplang/dialects/tensor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mplang/dialects/tensor.py b/mplang/dialects/tensor.py
index 8e264fa..e21b9ad 100644
--- a/mplang/dialects/tensor.py
+++ b/mplang/dialects/tensor.py
@@ -254,9 +254,10 @@ def _constant_trace(data: Any) -> el.TraceObject:
     return el.TraceObject(value, tracer)
 
 
-# Constant cache: Tracer -> { (dtype, shape, bytes) -> Object }
+# Constant cache: Graph -> { (dtype, shape, bytes) -> Object }
+# Keyed by graph, not tracer: a reused tracer starts a new graph.
 _CONSTANT_CACHE: WeakKeyDictionary[
-    el.Tracer, dict[tuple[str, tuple[int, ...], bytes], el.Object]
+    el.Graph, dict[tuple[str, tuple[int, ...], bytes], el.Object]
 ] = WeakKeyDictionary()
 
 
@@ -265,7 +266,7 @@ def constant(data: Any) -> el.Object:
 
     This creates a constant tensor that can be used in tensor computations.
     The constant value is embedded directly into the computation graph.
-    Duplicate constants (same data and shape) are cached per-Tracer to
+    Duplicate constants (same data and shape) are cached per-graph to
     minimize graph size.
 
     Args:
@@ -305,7 +306,7 @@ def constant(data: Any) -> el.Object:
     inner_key = (str(key_dtype), key_shape, key_bytes)
 
     tracer_cache: dict[tuple[str, tuple[int, ...], bytes], el.Object] = (
-        _CONSTANT_CACHE.setdefault(tracer, {})
+        _CONSTANT_CACHE.setdefault(tracer.graph, {})
     )
     if inner_key in tracer_cache:
         return tracer_cache[inner_key]
-- 
2.43.0


From abb3b6f8f0b7f68ea9cf841ba2df4bd32c79e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/82] fix: reject bfloat16 instead of reading its bytes as
 float16

---
 mplang/dialects/dtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/dialects/dtypes.py b/mplang/dialects/dtypes.py
index 68dabd0..be1abde 100644
--- a/mplang/dialects/dtypes.py
+++ b/mplang/dialects/dtypes.py
@@ -226,7 +226,7 @@ def from_dtype(dtype: Any) -> scalar_types.ScalarType:
     elif "uint64" in name:
         return scalar_types.u64
     # Float types
-    elif "float16" in name:
+    elif "float16" in name and "bfloat16" not in name:
         return scalar_types.f16
     elif "float32" in name:
         return scalar_types.f32
-- 
2.43.0


From 089fd1d54d8a837c5fd1f134ed47c48c4aca2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:18 +0000
Subject: [PATCH 05/82] fix: give numeric elementwise results their declared
 element type and plain elements

---
 mplang/backends/tensor_impl.py | 36 +++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/tensor_impl.py b/mplang/backends/tensor_impl.py
index 392d931..fbe0968 100644
--- a/mplang/backends/tensor_impl.py
+++ b/mplang/backends/tensor_impl.py
@@ -284,6 +284,26 @@ def concat_impl(
     return _wrap(np.concatenate(unwrapped, axis=axis))
 
 
+def _unwrap_element(val: Any) -> Any:
+    """Raw element of an elementwise result, as stored in an object array."""
+    if isinstance(val, TensorValue):
+        arr = val.unwrap()
+        return arr.item() if arr.shape == () else arr
+    return val
+
+
+def _as_declared(arr: np.ndarray, declared: elt.BaseType) -> np.ndarray:
+    """Give an object array of plain numbers its declared element type.
+
+    Elements without a numpy counterpart (ciphertexts, wide integers) stay objects.
+    """
+    elem = declared.element_type if isinstance(declared, elt.TensorType) else declared
+    try:
+        return arr.astype(dtypes.to_numpy(cast(elt.ScalarType, elem)))
+    except (TypeError, ValueError, OverflowError):
+        return arr
+
+
 @tensor.elementwise_p.def_impl
 def elementwise_impl(interpreter: Interpreter, op: Operation, *args: Value) -> Any:
     """Execute elementwise operation by iterating over tensor elements.
@@ -361,22 +381,20 @@ def elementwise_impl(interpreter: Interpreter, op: Operation, *args: Value) -> A
 
         # Unwrap result if it's a TensorValue (to store in numpy array)
         # We store raw values in the object array for now, but will wrap the final array
-        if isinstance(scalar_out, TensorValue):
-            scalar_out = scalar_out.unwrap()
-            if scalar_out.shape == ():
-                scalar_out = scalar_out.item()
-
         if num_outputs > 1:
             for i, val in enumerate(scalar_out):
-                results[i][index] = val
+                results[i][index] = _unwrap_element(val)
         else:
-            results[index] = scalar_out
+            results[index] = _unwrap_element(scalar_out)
 
     # Wrap results in TensorValue if possible
     if num_outputs > 1:
-        return [_wrap(res) for res in results]
+        return [
+            _wrap(_as_declared(res, out.type))
+            for res, out in zip(results, op.outputs, strict=True)
+        ]
     else:
-        return _wrap(results)
+        return _wrap(_as_declared(results, op.outputs[0].type))
 
 
 # =============================================================================
-- 
2.43.0


From 908420772d18a4edff1fe87f94ecdd7ac04477d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:49 +0000
Subject: [PATCH 06/82] fix: derive the run_jax compilation id from the
 compiled content, not a process counter

---
 mplang/dialects/tensor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/dialects/tensor.py b/mplang/dialects/tensor.py
index e21b9ad..216fba2 100644
--- a/mplang/dialects/tensor.py
+++ b/mplang/dialects/tensor.py
@@ -47,9 +47,9 @@ from __future__ import annotations
 
 import base64
 import functools
+import hashlib
 import math
 from collections.abc import Callable, Sequence
-from itertools import count
 from typing import Any, cast
 from weakref import WeakKeyDictionary
 
@@ -69,7 +69,6 @@ constant_p = el.Primitive[el.Object]("tensor.constant")
 
 
 _RUN_JAX_REGISTRY: dict[str, JaxCompilation] = {}
-_RUN_JAX_ID_GENERATOR = count()
 
 
 def _current_tracer() -> el.Tracer:
@@ -80,7 +79,17 @@ def _current_tracer() -> el.Tracer:
 
 
 def _register_compilation(compilation: JaxCompilation) -> str:
-    compilation_id = f"tensor.run_jax::{next(_RUN_JAX_ID_GENERATOR)}"
+    # The id ends up in the graph, so it is derived from the compilation's content:
+    # a per-process counter would give equal programs different graph digests.
+    content = repr((
+        compilation.stablehlo,
+        compilation.out_tree,
+        compilation.output_types,
+        compilation.arg_keep_map,
+        compilation.has_dynamic_shape,
+    ))
+    digest = hashlib.sha256(content.encode("utf-8")).hexdigest()
+    compilation_id = f"tensor.run_jax::{digest}"
     _RUN_JAX_REGISTRY[compilation_id] = compilation
     return compilation_id
 
-- 
2.43.0


From b06ffdaf720a971ad35115da1d383aca9b30f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 07/82] fix: leave source locations out of compiled programs

---
 mplang/dialects/_jax_utils.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/_jax_utils.py b/mplang/dialects/_jax_utils.py
index a7b66a6..c67a540 100644
--- a/mplang/dialects/_jax_utils.py
+++ b/mplang/dialects/_jax_utils.py
@@ -19,6 +19,7 @@ from dataclasses import dataclass
 from typing import Any
 
 import jax
+from jax.interpreters import mlir
 from jax.tree_util import PyTreeDef
 
 import mplang.edsl as el
@@ -129,6 +130,17 @@ def _make_placeholders(
     return placeholders
 
 
+def _strip_debug_info(stablehlo: str) -> str:
+    """Drop source locations: file paths and line numbers are not part of the program.
+
+    Keeping them would make the code (and every graph digest derived from it) depend
+    on where the sources are installed, and ship local paths to other parties.
+    """
+    with mlir.make_ir_context():
+        module = mlir.ir.Module.parse(stablehlo)
+        return str(module.operation.get_asm(enable_debug_info=False))
+
+
 def compile_jax(
     normalized_fn: Callable[..., Any],
     variables: list[el.Object],
@@ -178,7 +190,7 @@ def compile_jax(
     exported = jax.export.export(
         jitted, platforms=platforms, disabled_checks=disabled_safety_checks
     )(*placeholders)
-    stablehlo_text = str(exported.mlir_module())
+    stablehlo_text = _strip_debug_info(str(exported.mlir_module()))
 
     # Handle JAX's unused parameter elimination
     arg_keep_map: list[int] | None = None
-- 
2.43.0


From 2b7c6519d72c1ce15790405a5ec3247f5812942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 08/82] fix: check that a multi-party predicate is scalar

---
 mplang/dialects/simp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 04d3be6..6d2d9b6 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -55,7 +55,10 @@ VERIFY_UNIFORM_DEFAULT = True
 
 def _validate_scalar_predicate(value: el.graph.Value, context: str) -> None:
     """Validate that a graph value represents a scalar predicate."""
-    shape = getattr(value.type, "shape", None)
+    value_type = value.type
+    if isinstance(value_type, elt.MPType):
+        value_type = value_type.value_type
+    shape = getattr(value_type, "shape", None)
     if shape is not None and shape != ():
         raise TypeError(
             f"{context} must be scalar, got shape {shape} with type {value.type}"
-- 
2.43.0


From cacf1c970f983665ac6e21eff7dcc48206a3a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 09/82] fix: declare a table constant with the types it has at
 run time

---
 mplang/backends/table_impl.py |  9 +-----
 mplang/dialects/dtypes.py     |  4 +++
 mplang/dialects/table.py      | 58 ++++++++++++++++++++---------------
 3 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 49aa914..4882036 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -780,14 +780,7 @@ def constant_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     # data is stored in attrs by default bind if not TraceObject
     data = op.attrs["data"]
 
-    # Handle pandas DataFrame if passed directly (though attrs usually store basic types)
-    # If data was a DataFrame, it might have been stored as is if the IR supports it.
-    # If data was a dict, it's fine.
-
-    if isinstance(data, pa.Table):
-        return _wrap(data)
-    else:
-        return _wrap(pa.table(data))
+    return _wrap(table.to_arrow(data))
 
 
 def _infer_format(path: str, format_hint: str) -> str:
diff --git a/mplang/dialects/dtypes.py b/mplang/dialects/dtypes.py
index be1abde..b050c76 100644
--- a/mplang/dialects/dtypes.py
+++ b/mplang/dialects/dtypes.py
@@ -304,6 +304,10 @@ def from_arrow(arrow_type: Any) -> scalar_types.BaseType:
         return scalar_types.TIME
     elif pa.types.is_timestamp(arrow_type):
         return scalar_types.TIMESTAMP
+    elif pa.types.is_duration(arrow_type):
+        return scalar_types.INTERVAL
+    elif pa.types.is_decimal(arrow_type):
+        return scalar_types.DECIMAL
     elif pa.types.is_binary(arrow_type) or pa.types.is_large_binary(arrow_type):
         return scalar_types.BINARY
     else:
diff --git a/mplang/dialects/table.py b/mplang/dialects/table.py
index 62d66f6..a439eef 100644
--- a/mplang/dialects/table.py
+++ b/mplang/dialects/table.py
@@ -16,11 +16,15 @@
 
 from __future__ import annotations
 
-from typing import Any, cast
+from collections.abc import Mapping
+from typing import TYPE_CHECKING, Any, cast
 
 import mplang.edsl as el
 import mplang.edsl.typing as elt
 
+if TYPE_CHECKING:
+    import pyarrow as pa
+
 run_sql_p: el.Primitive[Any] = el.Primitive("table.run_sql")
 table2tensor_p: el.Primitive[el.Object] = el.Primitive("table.table2tensor")
 tensor2table_p: el.Primitive[el.Object] = el.Primitive("table.tensor2table")
@@ -179,6 +183,32 @@ def tensor2table(tensor: el.TraceObject, *, column_names: list[str]) -> el.Objec
     return tensor2table_p.bind(tensor, column_names=column_names)
 
 
+def to_arrow(data: Any) -> pa.Table:
+    """Convert constant data to the Arrow table it denotes.
+
+    Both the declared type and the runtime value of a table constant come from
+    here, so that they agree.
+    """
+    import pandas as pd
+    import pyarrow as pa
+
+    if isinstance(data, pa.Table):
+        return data
+    if not isinstance(data, (pd.DataFrame, Mapping)):
+        data = pd.DataFrame(data)
+    if isinstance(data, pd.DataFrame):
+        table = pa.Table.from_pandas(data, preserve_index=False)
+    else:
+        table = pa.table(data)
+    # A column without any value has no type of its own
+    return table.cast(
+        pa.schema([
+            field.with_type(pa.string()) if pa.types.is_null(field.type) else field
+            for field in table.schema
+        ])
+    )
+
+
 @constant_p.def_abstract_eval
 def _constant_ae(*, data: Any) -> elt.TableType:
     """Infer table type for constant data.
@@ -193,31 +223,11 @@ def _constant_ae(*, data: Any) -> elt.TableType:
     Raises:
         TypeError: If data cannot be converted to DataFrame
     """
-    import pandas as pd
-    import pyarrow as pa
-
     from mplang.dialects import dtypes
 
-    # Handle PyArrow Table directly
-    if isinstance(data, pa.Table):
-        schema: dict[str, elt.BaseType] = {}
-        for field in data.schema:
-            schema[field.name] = dtypes.from_arrow(field.type)
-        return elt.TableType(schema)
-
-    # Handle pandas DataFrame
-    if isinstance(data, pd.DataFrame):
-        df = data
-    else:
-        # Dict or other types - convert to DataFrame
-        df = pd.DataFrame(data)
-
-    # Infer schema from pandas dtypes
-    schema = {}
-    for col_name in df.columns:
-        schema[str(col_name)] = dtypes.from_pandas(df[col_name].dtype)
-
-    return elt.TableType(schema)
+    return elt.TableType({
+        field.name: dtypes.from_arrow(field.type) for field in to_arrow(data).schema
+    })
 
 
 def constant(data: dict[str, list]) -> el.Object:
-- 
2.43.0


From bafc3dca809664ee0afc7c7aa859a87c4aa83841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 10/82] fix: number child contexts per suffix, independent of
 call order

---
 mplang/backends/simp_worker/comm_context.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index 744c7f2..e8f2e6c 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -40,7 +40,14 @@ class CommContext:
     B's N-th interaction with A.
     """
 
-    __slots__ = ("_comm", "_id", "_rank", "_seq", "_spawn_counter")
+    __slots__ = (
+        "_comm",
+        "_id",
+        "_rank",
+        "_seq",
+        "_spawn_counter",
+        "_suffix_counters",
+    )
 
     def __init__(
         self,
@@ -53,6 +60,7 @@ class CommContext:
         self._rank = my_rank
         self._seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
+        self._suffix_counters: dict[str, int] = defaultdict(int)
 
     @property
     def rank(self) -> int:
@@ -67,7 +75,8 @@ class CommContext:
 
         Args:
             suffix: Explicit suffix for the child context ID.  When provided,
-                ``context_id = f"{parent_id}.{suffix}"``.  This is used when
+                ``context_id = f"{parent_id}.{n}.{suffix}"`` where ``n`` counts
+                the earlier spawns with this very suffix.  This is used when
                 the caller needs a deterministic, content-based ID that is
                 stable across ranks regardless of call order (e.g. the async
                 DAG scheduler uses ``f"{graph_exec_key}.{op_idx}"``).
@@ -80,7 +89,8 @@ class CommContext:
         if suffix is None:
             child_id = f"{self._id}.{self._spawn_counter}"
         else:
-            child_id = f"{self._id}.{self._spawn_counter}.{suffix}"
+            child_id = f"{self._id}.{self._suffix_counters[suffix]}.{suffix}"
+            self._suffix_counters[suffix] += 1
         self._spawn_counter += 1
         return CommContext(self._comm, child_id, self._rank)
 
-- 
2.43.0


From b477a17e06b900f66a4ff516161cc95cd2afe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 11/82] fix: do not hang when an asynchronous operation raises
 a BaseException

---
 mplang/runtime/interpreter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index a6414de..319957f 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -1063,10 +1063,12 @@ class Interpreter(AbstractInterpreter):
         error_occurred = False
 
         # 4. Execution Helper
-        def on_op_done(op: Any, result: Any, error: Exception | None = None) -> None:
+        def on_op_done(
+            op: Any, result: Any, error: BaseException | None = None
+        ) -> None:
             nonlocal remaining_ops, error_occurred, active_tasks
 
-            if error:
+            if error is not None:
                 with lock:
                     if not error_occurred:
                         error_occurred = True
@@ -1160,7 +1162,8 @@ class Interpreter(AbstractInterpreter):
                     try:
                         res = fut.result()
                         on_op_done(op, res)
-                    except Exception as e:
+                    except BaseException as e:
+                        # Not only Exception: the main loop waits for every op.
                         on_op_done(op, None, error=e)
 
                 fut = self.executor.submit(task)
@@ -1199,7 +1202,7 @@ class Interpreter(AbstractInterpreter):
             item = ready_queue.get()
             if item is None:
                 break
-            if isinstance(item, Exception):
+            if isinstance(item, BaseException):
                 raise item
 
             # It's an op
-- 
2.43.0


From 042ca596c8e6837d979101195a894ec069d4d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 12/82] fix: restore the communication context after each
 operation of an asynchronous evaluation

---
 mplang/runtime/interpreter.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index 319957f..dca477f 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import collections
 import concurrent.futures
+import contextlib
 import hashlib
 import json
 import os
@@ -31,7 +32,7 @@ import pathlib
 import queue
 import threading
 import time
-from collections.abc import Callable
+from collections.abc import Callable, Iterator
 from typing import TYPE_CHECKING, Any, cast
 
 from mplang.edsl.context import AbstractInterpreter
@@ -903,6 +904,22 @@ class Interpreter(AbstractInterpreter):
             )
         return ctx
 
+    @contextlib.contextmanager
+    def _comm_ctx_scope(self, ctx: CommContext | None) -> Iterator[None]:
+        """Make ``ctx`` the current CommContext of this thread, then restore.
+
+        ``None`` keeps whatever is current.
+        """
+        if ctx is None:
+            yield
+            return
+        prev = getattr(self._tls, "comm_ctx", None)
+        self._tls.comm_ctx = ctx
+        try:
+            yield
+        finally:
+            self._tls.comm_ctx = prev
+
     @staticmethod
     def _build_value_gc_info(graph: Graph) -> dict[Value, int]:
         """Build consumer-count map for value GC during graph execution.
@@ -1021,7 +1038,7 @@ class Interpreter(AbstractInterpreter):
         op_to_index = {op: i for i, op in enumerate(graph.operations)}
 
         # CommContext for this execution scope
-        root_comm_ctx = getattr(self._tls, "comm_ctx", self.comm_ctx)
+        root_comm_ctx = getattr(self._tls, "comm_ctx", None) or self.comm_ctx
 
         # Tracer setup (if not provided, use a disabled stub)
         tracer: ExecutionTracer | _NullTracer
@@ -1149,12 +1166,11 @@ class Interpreter(AbstractInterpreter):
 
                 # Submit to executor
                 def task() -> Any:
-                    if child_ctx is not None:
-                        self._tls.comm_ctx = child_ctx
                     start_ts = tracer.log_start(
                         op, pid=self.trace_pid, namespace=self.trace_pid
                     )
-                    res = handler(self, op, *args)
+                    with self._comm_ctx_scope(child_ctx):
+                        res = handler(self, op, *args)
                     tracer.log_end(op, start_ts, pid=self.trace_pid)
                     return res
 
@@ -1171,12 +1187,11 @@ class Interpreter(AbstractInterpreter):
             else:
                 # Sync execution (run immediately)
                 try:
-                    if child_ctx is not None:
-                        self._tls.comm_ctx = child_ctx
                     start_ts = tracer.log_start(
                         op, pid=self.trace_pid, namespace=self.trace_pid
                     )
-                    res = handler(self, op, *args)
+                    with self._comm_ctx_scope(child_ctx):
+                        res = handler(self, op, *args)
                     tracer.log_end(op, start_ts, pid=self.trace_pid)
                     on_op_done(op, res)
                 except Exception as e:
-- 
2.43.0


From 70c57066fd67e29d62d1f4edcf29725fdc50e6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 13/82] fix: keep file-system store keys out of sibling
 directories sharing the root's prefix

---
 mplang/runtime/object_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 3d10579..484b93f 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -180,7 +180,7 @@ class FileSystemBackend(StoreBackend):
         root = os.path.abspath(self._root_path)
         clean_key = key.lstrip("/")
         path = os.path.abspath(os.path.join(root, clean_key))
-        if not path.startswith(root):
+        if path == root or os.path.commonpath([root, path]) != root:
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
-- 
2.43.0


From ed4b3227031f42de57640260d4361a821e6359c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 14/82] fix: keep the previous value when writing to the
 file-system store fails

---
 mplang/runtime/object_store.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 484b93f..278d627 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -26,6 +26,7 @@ ObjectStore provides a two-layer storage model:
 
 from __future__ import annotations
 
+import contextlib
 import os
 import pickle
 import shutil
@@ -166,6 +167,9 @@ class MemoryBackend(StoreBackend):
 class FileSystemBackend(StoreBackend):
     """File system storage backend using pickle."""
 
+    # Files being written; what an interrupted write leaves is not a key.
+    _TEMP_PREFIX = ".mpl-tmp-"
+
     @property
     def scheme(self) -> str:
         return "fs"
@@ -184,11 +188,25 @@ class FileSystemBackend(StoreBackend):
             raise ValueError(f"Invalid key (traversal attempt): {key}")
         return path
 
+    @classmethod
+    def _temp_path(cls, path: str) -> str:
+        name = f"{cls._TEMP_PREFIX}{uuid.uuid4().hex}"
+        return os.path.join(os.path.dirname(path), name)
+
     def put(self, key: str, value: Any) -> None:
         path = self._resolve_key(key)
         os.makedirs(os.path.dirname(path), exist_ok=True)
-        with open(path, "wb") as f:
-            pickle.dump(value, f)
+        # Write aside and rename, so that a failed or interrupted write leaves
+        # the previous value in place.
+        tmp = self._temp_path(path)
+        try:
+            with open(tmp, "wb") as f:
+                pickle.dump(value, f)
+            os.replace(tmp, path)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(tmp)
+            raise
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
@@ -211,6 +229,8 @@ class FileSystemBackend(StoreBackend):
         keys = []
         for dirpath, _, files in os.walk(root):
             for file in files:
+                if file.startswith(self._TEMP_PREFIX):
+                    continue
                 full_path = os.path.join(dirpath, file)
                 rel_path = os.path.relpath(full_path, root)
                 keys.append(rel_path)
-- 
2.43.0


From 2adb132e4f83f426a616d71af678a51dc83d4df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 15/82] fix: do not report a directory of the file-system store
 as a key

---
 mplang/runtime/object_store.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index 278d627..aac2783 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -210,18 +210,18 @@ class FileSystemBackend(StoreBackend):
 
     def get(self, key: str) -> Any:
         path = self._resolve_key(key)
-        if not os.path.exists(path):
+        if not os.path.isfile(path):
             raise KeyError(f"Key not found: {key}")
         with open(path, "rb") as f:
             return pickle.load(f)
 
     def delete(self, key: str) -> None:
         path = self._resolve_key(key)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             os.remove(path)
 
     def exists(self, key: str) -> bool:
-        return os.path.exists(self._resolve_key(key))
+        return os.path.isfile(self._resolve_key(key))
 
     def list_keys(self) -> list[str]:
         assert self._root_path is not None
-- 
2.43.0


From b939a76918aec8e93e4edea57d51cf50b51051ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 16/82] fix: upload what a symlink points to, and never a torn
 copy

---
 mplang/runtime/object_store.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/object_store.py b/mplang/runtime/object_store.py
index aac2783..b1ae447 100644
--- a/mplang/runtime/object_store.py
+++ b/mplang/runtime/object_store.py
@@ -334,7 +334,7 @@ class FileSystemBackend(StoreBackend):
                 if self._same_file_content(source, dst):
                     if os.path.islink(dst):
                         os.remove(dst)
-                        shutil.move(source, dst)
+                        self._move_file(source, dst)
                     else:
                         os.remove(source)
                     return
@@ -342,7 +342,32 @@ class FileSystemBackend(StoreBackend):
                     f"Upload destination already exists with different content: {dst}"
                 )
             os.makedirs(os.path.dirname(dst), exist_ok=True)
+            self._move_file(source, dst)
+
+    @classmethod
+    def _move_file(cls, source: str, dst: str) -> None:
+        """Move the data at *source* to *dst*, which appears whole or not at all.
+
+        A symlink (as :meth:`download` makes) is replaced by what it points to.
+        """
+        if os.path.isdir(source):
             shutil.move(source, dst)
+            return
+        if not os.path.islink(source):
+            try:
+                os.rename(source, dst)
+                return
+            except OSError:
+                pass  # other file system
+        tmp = cls._temp_path(dst)
+        try:
+            shutil.copy2(source, tmp)
+            os.replace(tmp, dst)
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.remove(tmp)
+            raise
+        os.remove(source)
 
 
 class ObjectStore:
-- 
2.43.0


From b948a2c725a7eaee66dccc63a3dfa293ab0f0d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 17/82] fix: count sends and receives separately so that
 parties can exchange messages both ways

---
 mplang/backends/simp_worker/comm_context.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/simp_worker/comm_context.py b/mplang/backends/simp_worker/comm_context.py
index e8f2e6c..f526fd5 100644
--- a/mplang/backends/simp_worker/comm_context.py
+++ b/mplang/backends/simp_worker/comm_context.py
@@ -35,15 +35,16 @@ class CommContext:
 
     Key format: ``"{context_id}:{seq}"``
 
-    Send and recv to the same peer share **one** counter to maintain SPMD
-    symmetry: for any peer pair (A, B), A's N-th interaction with B matches
-    B's N-th interaction with A.
+    Sends and recvs are counted separately per peer: for any peer pair (A, B),
+    A's N-th send to B matches B's N-th recv from A, whatever B sends to A in
+    between (messages are told apart by their sender, too).
     """
 
     __slots__ = (
         "_comm",
         "_id",
         "_rank",
+        "_recv_seq",
         "_seq",
         "_spawn_counter",
         "_suffix_counters",
@@ -59,6 +60,7 @@ class CommContext:
         self._id = context_id
         self._rank = my_rank
         self._seq: dict[int, int] = defaultdict(int)
+        self._recv_seq: dict[int, int] = defaultdict(int)
         self._spawn_counter: int = 0
         self._suffix_counters: dict[str, int] = defaultdict(int)
 
@@ -114,7 +116,7 @@ class CommContext:
         self._comm.send_sync(to, key, data, is_raw_bytes=is_raw_bytes, timeout=timeout)
 
     def recv(self, frm: int, *, timeout: float | None = None) -> Any:
-        seq = self._seq[frm]
-        self._seq[frm] = seq + 1
+        seq = self._recv_seq[frm]
+        self._recv_seq[frm] = seq + 1
         key = f"{self._id}:{seq}"
         return self._comm.recv(frm, key, timeout=timeout)
-- 
2.43.0


From e31cc7b90eb5f26645141f54aad7455045228b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 18/82] fix: give every dispatch its own job id so that
 concurrent programs do not mix messages

---
 mplang/backends/simp_driver/ops.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index 10588cb..ceee749 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import uuid
 from typing import Any
 
 from mplang.backends.simp_driver.values import DriverVar
@@ -104,14 +105,18 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # 1. Wrap operation into a Graph
     wrapper_graph = _wrap_op_as_graph(op)
 
-    # 2. SPMD dispatch to ALL workers
+    # 2. SPMD dispatch to ALL workers. The workers key their messages by the job
+    # ID, so each dispatch needs its own to be isolated from concurrent ones.
+    job_id = uuid.uuid4().hex
     futures = []
     for rank in range(world_size):
         # Extract per-party inputs from DriverVars
         party_inputs = [
             arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
         ]
-        futures.append(driver.submit(rank, wrapper_graph, party_inputs))
+        futures.append(
+            driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id)
+        )
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From 78295d7349f6ced8579d612d907c4b2211ef56d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 19/82] fix: submit a dispatch to all ranks as one step so that
 concurrent programs cannot deadlock

---
 mplang/backends/simp_driver/ops.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mplang/backends/simp_driver/ops.py b/mplang/backends/simp_driver/ops.py
index ceee749..8b1aba9 100644
--- a/mplang/backends/simp_driver/ops.py
+++ b/mplang/backends/simp_driver/ops.py
@@ -21,6 +21,7 @@ Op-specific logic lives in Worker handlers (simp_worker/ops.py).
 
 from __future__ import annotations
 
+import threading
 import uuid
 from typing import Any
 
@@ -30,6 +31,12 @@ from mplang.edsl.graph import Graph, Operation
 from mplang.edsl.typing import CustomType
 
 
+# Workers run queued requests in order on a bounded pool. Submitting a dispatch to
+# all ranks as one step keeps that order the same on every rank, so that parties
+# which wait for each other are never queued behind others doing the same.
+_submit_lock = threading.Lock()
+
+
 def _get_driver_context(interpreter: Any) -> Any:
     """Get the simp driver state from interpreter."""
     state = interpreter.get_dialect_state("simp")
@@ -109,14 +116,15 @@ def _generic_simp_dispatch(interpreter: Any, op: Operation, *args: Any) -> Any:
     # ID, so each dispatch needs its own to be isolated from concurrent ones.
     job_id = uuid.uuid4().hex
     futures = []
-    for rank in range(world_size):
-        # Extract per-party inputs from DriverVars
-        party_inputs = [
-            arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
-        ]
-        futures.append(
-            driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id)
-        )
+    with _submit_lock:
+        for rank in range(world_size):
+            # Extract per-party inputs from DriverVars
+            party_inputs = [
+                arg[rank] if isinstance(arg, DriverVar) else arg for arg in args
+            ]
+            futures.append(
+                driver.submit(rank, wrapper_graph, party_inputs, job_id=job_id)
+            )
 
     # 3. Collect results
     results = driver.collect(futures)
-- 
2.43.0


From 9bb222c8b95c448628e0319fc16f067bee52c8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 20/82] fix: publish the final status of an async task only
 after its result or error

---
 mplang/backends/simp_worker/http.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index 29dc3ba..da54f9d 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -690,13 +690,15 @@ def register_routes(
         """Wrapper that updates AsyncTaskState around _do_execute."""
         async_tasks[exec_id].status = AsyncTaskStatus.RUNNING
         try:
-            result = _do_execute(graph, inputs, job_id)
+            # Publish the final status last: pollers read it before the result.
+            async_tasks[exec_id].result = serde.dumps_b64(
+                _do_execute(graph, inputs, job_id)
+            )
             async_tasks[exec_id].status = AsyncTaskStatus.SUCCESS
-            async_tasks[exec_id].result = serde.dumps_b64(result)
         except Exception as e:
             logger.error(f"Worker {rank} async exec failed: {e}")
-            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
             async_tasks[exec_id].error = str(e)
+            async_tasks[exec_id].status = AsyncTaskStatus.FAILED
 
     @app.post("/exec")
     async def execute(req: ExecRequest) -> dict[str, str]:
-- 
2.43.0


From a21dc47de2907e2bd41365240c1b2c9d58c00d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 21/82] fix: quote message keys in URLs so that any job id or
 tag can be sent over HTTP

---
 mplang/backends/simp_worker/http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index da54f9d..f99c24f 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -41,6 +41,7 @@ import os
 import pathlib
 import threading
 import time
+import urllib.parse
 from collections.abc import AsyncIterator
 from contextlib import asynccontextmanager
 from dataclasses import dataclass, field
@@ -384,7 +385,7 @@ class HttpCommunicator:
             request_timeout: Per-request timeout passed to httpx.  If *None*,
                 the client-level ``http_timeout`` is used instead.
         """
-        url = f"{self.endpoints[to]}/comm/{key}"
+        url = f"{self.endpoints[to]}/comm/{urllib.parse.quote(key, safe='')}"
         logger.debug(f"Rank {self.rank} sending to {to} key={key}, url={url}")
 
         # Raw-bytes transport rule:
@@ -765,7 +766,7 @@ def register_routes(
             response["error"] = task.error
         return response
 
-    @app.put("/comm/{key}")
+    @app.put("/comm/{key:path}")
     async def receive_comm(key: str, request: FastAPIRequest) -> dict[str, str]:
         """Receive communication data from another worker.
 
-- 
2.43.0


From 9dfed29aad72d6b7d77ccb682580197a747babb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:29 +0000
Subject: [PATCH 22/82] fix: let a worker run more than two requests at once so
 that concurrent drivers cannot deadlock

---
 mplang/backends/simp_worker/http.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/http.py b/mplang/backends/simp_worker/http.py
index f99c24f..2d0bfde 100644
--- a/mplang/backends/simp_worker/http.py
+++ b/mplang/backends/simp_worker/http.py
@@ -937,8 +937,10 @@ def create_worker_app(
         async_ops=DEFAULT_ASYNC_OPS,
     )
 
+    # A running request waits for messages of its peers. If too few can run at once,
+    # workers pick different ones of several concurrent programs and wait forever.
     exec_pool = concurrent.futures.ThreadPoolExecutor(
-        max_workers=2, thread_name_prefix=f"exec_{rank}"
+        max_workers=64, thread_name_prefix=f"exec_{rank}"
     )
 
     @asynccontextmanager
-- 
2.43.0


From eb52c4204b24e15fb6f0639d1921ff8446724fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 23/82] fix: skip a dynamic call on parties that lack an input,
 as documented

---
 mplang/backends/simp_worker/ops.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/simp_worker/ops.py b/mplang/backends/simp_worker/ops.py
index 5a5f2e7..c2104c1 100644
--- a/mplang/backends/simp_worker/ops.py
+++ b/mplang/backends/simp_worker/ops.py
@@ -73,8 +73,13 @@ def _pcall_dynamic_worker_impl(
 ) -> Any:
     """Worker implementation of pcall_dynamic."""
     fn_graph = op.regions[0]
-    result = interpreter.evaluate_graph(fn_graph, list(args))
     n_out = len(fn_graph.outputs)
+    if any(arg is None for arg in args):
+        # This rank lacks an input, so it takes no part and holds no output
+        if n_out == 0:
+            return []
+        return None if n_out == 1 else [None] * n_out
+    result = interpreter.evaluate_graph(fn_graph, list(args))
     if n_out == 0:
         return []
     return result[0] if n_out == 1 else result
-- 
2.43.0


From 5623c1bd55bc0645f045982515bc65fab835c96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 24/82] fix: refuse conditional branches that return different
 structures or plain values

---
 mplang/dialects/simp.py |  3 ++-
 mplang/edsl/tracer.py   | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index 6d2d9b6..da13d29 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -185,7 +185,8 @@ def _uniform_cond_trace(
         else_types = [v.type for v in else_traced.graph.outputs]
         raise TypeError(
             "uniform_cond branch output signature mismatch: "
-            f"then={then_types}, else={else_types}"
+            f"then={then_types} in {then_traced.out_tree}, "
+            f"else={else_types} in {else_traced.out_tree}"
         )
 
     num_arg_vars = len(then_traced.in_var_pos)
diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 46ef564..7b5e019 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -29,6 +29,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, Any, cast
 
+import numpy as np
 from jax.tree_util import tree_flatten, tree_map
 
 from mplang.edsl.context import Context
@@ -465,8 +466,16 @@ class TracedFunction:
             other: Another TracedFunction to compare against
 
         Returns:
-            True if output counts and types match, False otherwise
+            True if output structures (PyTree, variable positions and immediates),
+            counts and types match, False otherwise
         """
+        if self.out_tree != other.out_tree or self.out_var_pos != other.out_var_pos:
+            return False
+        if not all(
+            a is b or (type(a) is type(b) and np.array_equal(a, b))
+            for a, b in zip(self.out_imms, other.out_imms, strict=True)
+        ):
+            return False
         if len(self.graph.outputs) != len(other.graph.outputs):
             return False
         return all(
-- 
2.43.0


From e95ade83fb19f88fbdc5214c4b8d8260248add2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:27 +0000
Subject: [PATCH 25/82] fix: refuse loop conditions that are no variable and
 bodies that return another structure

---
 mplang/dialects/simp.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/dialects/simp.py b/mplang/dialects/simp.py
index da13d29..ca8a09b 100644
--- a/mplang/dialects/simp.py
+++ b/mplang/dialects/simp.py
@@ -303,10 +303,14 @@ def _while_loop_trace(
             "while_loop cond_fn must return exactly one output, "
             f"got {cond_output_count}"
         )
-    if cond_traced.out_var_pos:
-        _validate_scalar_predicate(
-            cond_traced.graph.outputs[0], "while_loop cond_fn output"
+    if not cond_traced.out_var_pos:
+        raise TypeError(
+            "while_loop cond_fn must return a Variable (boolean scalar), "
+            f"got immediate {cond_traced.out_imms[0]!r}"
         )
+    _validate_scalar_predicate(
+        cond_traced.graph.outputs[0], "while_loop cond_fn output"
+    )
 
     body_output_count = len(body_traced.out_var_pos) + len(body_traced.out_imms)
     if body_output_count != state_count:
@@ -329,6 +333,11 @@ def _while_loop_trace(
                 "while_loop body_fn output type mismatch at index "
                 f"{idx}: {out_val.type} vs {state_obj.type}"
             )
+    if body_traced.out_tree != state_treedef:
+        raise TypeError(
+            "while_loop body_fn must return the same structure as init state: "
+            f"{state_treedef} expected, got {body_traced.out_tree}"
+        )
 
     all_captures = _merge_captures(cond_traced.captured, body_traced.captured)
 
-- 
2.43.0


From e54d4fc3424accc317ad184756cfe5f0dc260959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 26/82] fix: give the shares of a secure device to its members
 in rank order, however they are listed

---
 mplang/libs/device/api.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 89d3de0..1d17c36 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -173,7 +173,7 @@ def _infer_device_from_args(*args: Any, **kwargs: Any) -> str:
 
 def _device_run_spu(dev_info: Device, fn: Callable, *args: Any, **kwargs: Any) -> Any:
     """Run function on SPU device."""
-    spu_parties = tuple(m.rank for m in dev_info.members)
+    spu_parties = dev_info.member_ranks
 
     # SPU execution uses spu.run_jax to compile and execute the function on the SPU.
     # Inputs are expected to be already on the SPU (handled by _d2d).
@@ -495,7 +495,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("PPU", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # 1. Generate shares on source
@@ -530,7 +530,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "PPU"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # 1. Gather shares to target
@@ -611,7 +611,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("TEE", "SPU"):
         assert len(frm_dev.members) == 1
         frm_rank = frm_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in to_dev.members)
+        spu_parties = to_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(to_dev.config)
 
         # Generate shares on TEE (same logic as PPU -> SPU)
@@ -638,7 +638,7 @@ def _d2d(to_dev_id: str, obj: Object) -> Object:
     elif frm_to_pair == ("SPU", "TEE"):
         assert len(to_dev.members) == 1
         to_rank = to_dev.members[0].rank
-        spu_parties = tuple(m.rank for m in frm_dev.members)
+        spu_parties = frm_dev.member_ranks
         spu_config = spu.SPUConfig.from_dict(frm_dev.config)
 
         # Gather shares to TEE (same logic as SPU -> PPU)
-- 
2.43.0


From f98856faa398dc79b378173f4d04de8abfb93ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 27/82] fix: decide at the call whether a jax function runs on
 a secure device, when the device is inferred

---
 mplang/libs/device/api.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mplang/libs/device/api.py b/mplang/libs/device/api.py
index 1d17c36..6a0c457 100644
--- a/mplang/libs/device/api.py
+++ b/mplang/libs/device/api.py
@@ -328,13 +328,18 @@ class DeviceContext:
         """
 
         def wrapper(fn: Callable) -> Callable:
-            # SPU natively uses JAX via spu.run_jax, no extra wrapping needed
-            if self._is_spu_device():
-                return self(fn)
-            # PPU/TEE need tensor.jax_fn to compile JAX code
             from mplang.dialects.tensor import jax_fn
 
-            return self(jax_fn(fn))
+            # The device may only be known (inferred) once the arguments are.
+            @wraps(fn)
+            def wrapped(*args: Any, **kwargs: Any) -> Any:
+                target = DeviceContext(self._resolve_device(*args, **kwargs))
+                # SPU natively uses JAX via spu.run_jax, no extra wrapping needed;
+                # PPU/TEE need tensor.jax_fn to compile JAX code
+                place_fn = fn if target._is_spu_device() else jax_fn(fn)
+                return target(place_fn)(*args, **kwargs)
+
+            return wrapped
 
         return wrapper
 
-- 
2.43.0


From 72541927a7425574a5b03c5d657dafbb1f01292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 28/82] fix: do not share the link of one secure device with
 another over different parties

---
 mplang/backends/spu_state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/spu_state.py b/mplang/backends/spu_state.py
index 73a1471..1457547 100644
--- a/mplang/backends/spu_state.py
+++ b/mplang/backends/spu_state.py
@@ -118,7 +118,7 @@ class SPUState(DialectState):
         self._infra = infra
         self._brpc_config = brpc_config or BrpcLinkConfig()
         # Key: (local_rank, world_size, protocol, field, fxp_fraction_bits,
-        # profiling flags, link_mode, spu_endpoints, brpc_config).
+        # profiling flags, link_mode, spu_endpoints, brpc_config, parties).
         # ``brpc_config`` participates only when link_mode == "brpc" (else None)
         # so callers passing custom configs don't silently reuse the first
         # config's link.
@@ -137,6 +137,7 @@ class SPUState(DialectState):
                 str,
                 tuple[str, ...] | None,
                 BrpcLinkConfig | None,
+                tuple[int, ...] | None,
             ],
             tuple[spu_api.Runtime, spu_api.Io],
         ] = {}
@@ -256,6 +257,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            tuple(parties) if parties else None,
         )
         runtime_cache_key = (
             local_rank,
@@ -270,6 +272,7 @@ class SPUState(DialectState):
             link_mode,
             tuple(spu_endpoints) if spu_endpoints else None,
             brpc_config,
+            tuple(parties) if parties else None,
         )
 
         if runtime_cache_key in self._runtimes:
-- 
2.43.0


From 65821c8ccb021ed8807d6f44f43f8adf908fc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 29/82] fix: write the nodes of a cluster in rank order, which
 is how they are read

---
 mplang/libs/device/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index d951e95..dd7e3ba 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -171,7 +171,11 @@ class ClusterSpec:
         """Convert ClusterSpec to a dictionary."""
         return {
             "cluster_id": self.cluster_id,
-            "nodes": [node.to_dict() for node in self.nodes.values()],
+            # The position in the list is the rank when read back.
+            "nodes": [
+                node.to_dict()
+                for node in sorted(self.nodes.values(), key=lambda x: x.rank)
+            ],
             "devices": {
                 name: device.to_dict() for name, device in self.devices.items()
             },
-- 
2.43.0


From 470059be87168482153150b45ad0492775802617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 30/82] fix: refuse clusters with inconsistent ranks, repeated
 members or a trusted device of several members

---
 mplang/libs/device/cluster.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/mplang/libs/device/cluster.py b/mplang/libs/device/cluster.py
index dd7e3ba..a4d99d7 100644
--- a/mplang/libs/device/cluster.py
+++ b/mplang/libs/device/cluster.py
@@ -129,21 +129,28 @@ class ClusterSpec:
                     f"Device key '{key}' does not match device.name '{device.name}'"
                 )
 
-        # check all device members are valid nodes
-        node_names = set(self.nodes.keys())
+        # ranks index the parties, so they must be 0..n-1
+        ranks = sorted(node.rank for node in self.nodes.values())
+        if ranks != list(range(len(ranks))):
+            raise ValueError(f"Node ranks must be 0..{len(ranks) - 1}, got {ranks}")
+
+        # check all device members are valid nodes, each listed once
         for device in self.devices.values():
             for member in device.members:
-                if member.name not in node_names:
+                if self.nodes.get(member.name) != member:
                     raise ValueError(
                         f"Device '{device.name}' has member '{member.name}' "
                         "which is not defined in nodes"
                     )
+            if len(set(device.member_ranks)) != len(device.members):
+                raise ValueError(f"Device '{device.name}' lists a member twice")
 
-        # ensure ppu devices have exactly one member
+        # ensure ppu and tee devices have exactly one member
         for device in self.devices.values():
-            if device.kind.lower() == "ppu" and len(device.members) != 1:
+            if device.kind.lower() in ("ppu", "tee") and len(device.members) != 1:
                 raise ValueError(
-                    f"PPU device '{device.name}' must have exactly one member"
+                    f"{device.kind.upper()} device '{device.name}' must have "
+                    "exactly one member"
                 )
 
     def get_node(self, name: str) -> Node:
-- 
2.43.0


From a7da6bcf49dcfac940ed9f70adf3cf776b0a1762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:50 +0000
Subject: [PATCH 31/82] fix: read the host of a secure endpoint from URLs too,
 and obey --spu-endpoints

---
 mplang/cli.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mplang/cli.py b/mplang/cli.py
index 649ac40..69dd198 100644
--- a/mplang/cli.py
+++ b/mplang/cli.py
@@ -107,7 +107,7 @@ def build_endpoints(
     """Build endpoints and SPU endpoints from config or CLI flags."""
 
     def normalize_endpoint(ep: str) -> str:
-        return ep if ep.startswith("http") else f"http://{ep}"
+        return ep if ep.startswith(("http://", "https://")) else f"http://{ep}"
 
     spu_endpoints: dict[int, str] | None = None
 
@@ -130,8 +130,8 @@ def build_endpoints(
             if dev_conf.get("kind", "").upper() == "SPU":
                 spu_endpoints = {}
                 spu_base_port = args.spu_base_port or (ports[0] + 1000)
-                for i, node in enumerate(nodes):
-                    host = node["endpoint"].split(":")[0]
+                for i, endpoint in enumerate(endpoints):
+                    host = endpoint.split("://", 1)[1].rsplit(":", 1)[0]
                     spu_endpoints[i] = f"{host}:{spu_base_port + i}"
                 break
     else:
@@ -150,6 +150,10 @@ def build_endpoints(
         ports = [int(ep.split(":")[-1]) for ep in endpoints]
         world_size = len(endpoints)
 
+    spu_endpoints = parse_spu_endpoints(
+        getattr(args, "spu_endpoints", None), world_size, spu_endpoints
+    )
+
     return endpoints, ports, world_size, spu_endpoints
 
 
-- 
2.43.0


From c973d801a352fa7d8bb4ba63e4e462fd68f2f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 32/82] fix: keep all rows when batches are regrouped to
 another size

---
 mplang/backends/table_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 4882036..a24dea6 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -177,7 +177,7 @@ class TableReader(BatchReader):
                 batch = self._reader.read_next_batch()
                 # Convert to RecordBatch if the reader returns a Table
                 if isinstance(batch, pa.Table) and batch.num_rows > 0:
-                    return batch.to_batches()[0]
+                    return batch.combine_chunks().to_batches()[0]
                 return batch
             except StopIteration:
                 return None
@@ -236,7 +236,7 @@ class TableReader(BatchReader):
 
         # Otherwise, combine all batches and return as a single RecordBatch
         combined = pa.Table.from_batches(batches)
-        return combined.to_batches()[0]
+        return combined.combine_chunks().to_batches()[0]
 
     def close(self) -> None:
         """Close the reader and release all resources.
-- 
2.43.0


From 23d863f8fd04b040fb464cf6a21ffc834eb89d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:44 +0000
Subject: [PATCH 33/82] fix: count the rows held back from the previous batch
 among all remaining rows

---
 mplang/backends/table_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index a24dea6..aab7148 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -129,7 +129,11 @@ class TableReader(BatchReader):
         Returns:
             Complete table containing all remaining data
         """
-        return self._reader.read_all()
+        rest = self._reader.read_all()
+        if self._remain is not None:
+            rest = pa.concat_tables([pa.Table.from_batches([self._remain]), rest])
+            self._remain = None
+        return rest
 
     def read_next_batch(self) -> pa.RecordBatch:
         """Read the next batch of records.
-- 
2.43.0


From cdec2adddee5a6596c10ebb961bad74a3039a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:59 +0000
Subject: [PATCH 34/82] fix: write tables together whatever their batches, and
 refuse different numbers of rows

---
 mplang/backends/table_impl.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index aab7148..58df075 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -538,7 +538,7 @@ class QueryTableSource(TableSource):
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
         reader = self.relation.arrow(batch_size)
-        return TableReader(reader)
+        return TableReader(reader, batch_size=batch_size)
 
 
 # =============================================================================
@@ -851,7 +851,15 @@ class MultiTableReader(BatchReader):
         num_rows = -1
         columns: list[pa.ChunkedArray] = []
         for idx, r in enumerate(self._readers):
-            batch = r.read_next_batch()
+            try:
+                batch = r.read_next_batch()
+            except StopIteration:
+                if num_rows in (-1, 0):
+                    num_rows = 0
+                    continue
+                raise ValueError(
+                    f"Batch {idx} has 0 rows, expected {num_rows}"
+                ) from None
             if num_rows == -1:
                 num_rows = batch.num_rows
             elif num_rows != batch.num_rows:
@@ -859,6 +867,8 @@ class MultiTableReader(BatchReader):
                     f"Batch {idx} has {batch.num_rows} rows, expected {num_rows}"
                 )
             columns.extend(batch.columns)
+        if num_rows == 0:
+            raise StopIteration
         return pa.RecordBatch.from_arrays(columns, names=self._schema.names)
 
     def close(self) -> None:
@@ -884,13 +894,21 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
 
     def _do_write(resolved: str) -> None:
         batch_size = DEFAULT_BATCH_SIZE if len(tables) > 1 else -1
+        # A connection streams one result at a time: read the others beforehand
+        states: set[int] = set()
+        for t in tables:
+            data = t.unwrap()
+            if isinstance(data, QueryTableSource):
+                if id(data.state) in states:
+                    _ = t.data
+                states.add(id(data.state))
         readers: list[TableReader] = []
         for t in tables:
             data = t.unwrap()
             readers.append(
                 data.open(batch_size)
                 if isinstance(data, TableSource)
-                else TableReader(data)
+                else TableReader(data, batch_size=batch_size)
             )
 
         reader: BatchReader = (
-- 
2.43.0


From b6d9d3fa6a324573a284c2d97849c05bd9216871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 35/82] fix: let a written file appear only once it is complete

---
 mplang/backends/table_impl.py | 48 ++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 58df075..11e23ba 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,6 +20,7 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import uuid
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
@@ -945,30 +946,31 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                     # Log the error for debugging purposes, but continue cleanup attempt
                     logger.warning("Failed to remove file %s: %s", p, e)
 
+        # The file appears only once complete: until then an existing one is
+        # untouched, and may be what is being read.
+        partial = f"{resolved}.{uuid.uuid4().hex}.partial"
         try:
-            match fmt:
-                case "parquet":
-                    writer = pa_pq.ParquetWriter(resolved, reader.schema)
-                case "csv":
-                    writer = pa_csv.CSVWriter(resolved, reader.schema)
-                case "json":
-                    writer = JsonWriter(resolved)
-                case _:
-                    raise ValueError(f"Unsupported format: {fmt}")
-        except Exception as e:
-            reader.close()
-            _safe_remove_file(resolved)
-            raise e
-
-        try:
-            for batch in reader:
-                writer.write_batch(batch)
-        except Exception as e:
-            _safe_remove_file(resolved)
-            raise e
-        finally:
-            reader.close()
-            writer.close()
+            try:
+                match fmt:
+                    case "parquet":
+                        writer = pa_pq.ParquetWriter(partial, reader.schema)
+                    case "csv":
+                        writer = pa_csv.CSVWriter(partial, reader.schema)
+                    case "json":
+                        writer = JsonWriter(partial)
+                    case _:
+                        raise ValueError(f"Unsupported format: {fmt}")
+                try:
+                    for batch in reader:
+                        writer.write_batch(batch)
+                finally:
+                    writer.close()
+            finally:
+                reader.close()
+            os.replace(partial, resolved)
+        except BaseException:
+            _safe_remove_file(partial)
+            raise
 
     if interpreter.store:
         local_path = os.path.abspath(os.path.join(".tmp", path))
-- 
2.43.0


From 7b98721fa6b130607f19f2bce30eba3f44f50cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 36/82] fix: write JSON without losing digits, and read it as
 the declared types

---
 mplang/backends/table_impl.py | 63 +++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 11e23ba..3aa18fc 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -20,12 +20,17 @@ Implements execution logic for Table primitives using DuckDB and PyArrow.
 from __future__ import annotations
 
 import base64
+import contextlib
+import json
+import math
+import os
 import uuid
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
 
 import duckdb
+import numpy as np
 import pandas as pd
 import pyarrow as pa
 
@@ -451,7 +456,9 @@ class FileTableSource(TableSource):
             case "csv":
                 relation = conn.from_csv_auto(self.path)
             case "json":
-                relation = conn.read_json(self.path)
+                with self.open() as reader:
+                    conn.register(name, reader.read_all())
+                return
             case _:
                 raise ValueError(f"Unsupported format: {self.format}")
 
@@ -502,9 +509,24 @@ class FileTableSource(TableSource):
                 )
             case "json":
                 read_options = pa_json.ReadOptions(use_threads=True)
-                table = pa_json.read_json(self.path, read_options=read_options)
+                if os.path.getsize(self.path) == 0:
+                    table = pa.table([], names=[])
+                    if self.schema:
+                        table = self.schema.empty_table()
+                else:
+                    table = pa_json.read_json(self.path, read_options=read_options)
                 if columns:
                     table = table.select(columns)
+                    # What is inferred may differ from what is declared (texts
+                    # that look like times, large integers)
+                    with contextlib.suppress(pa.ArrowInvalid, NotImplementedError):
+                        table = pa_json.read_json(
+                            self.path,
+                            read_options=read_options,
+                            parse_options=pa_json.ParseOptions(
+                                explicit_schema=self.schema
+                            ),
+                        ).select(columns)
                 reader = table.to_reader()
                 num_rows = table.num_rows
             case _:
@@ -811,8 +833,6 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
 
     Supported formats: parquet, csv, json
     """
-    import os
-
     path: str = op.attrs["path"]
     schema: elt.TableType = op.attrs["schema"]
     format_hint: str = op.attrs.get("format", "auto")
@@ -832,6 +852,19 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     return _do_read(path)
 
 
+def _json_value(value: Any) -> Any:
+    """Return what stands for a cell in a JSON file, without loss where JSON can."""
+    if isinstance(value, list | tuple):
+        return [_json_value(v) for v in value]
+    if isinstance(value, dict):
+        return {k: _json_value(v) for k, v in value.items()}
+    if isinstance(value, np.generic):
+        value = value.item()
+    if isinstance(value, float):
+        return value if math.isfinite(value) else None
+    return value.decode("utf-8") if isinstance(value, bytes) else value
+
+
 class MultiTableReader(BatchReader):
     def __init__(self, readers: list[TableReader]) -> None:
         fields = {}
@@ -886,8 +919,6 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
     For LazyTable, performs streaming writes when supported.
     For regular Tables, performs direct writes.
     """
-    import os
-
     path: str = op.attrs["path"]
     format_hint: str = op.attrs.get("format", "parquet")
 
@@ -925,18 +956,24 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             def close(self) -> None: ...
 
         class JsonWriter(BatchWriter):
+            # PyArrow doesn't have direct JSON write
             def __init__(self, path: str) -> None:
-                self._path = path
-                self._batches: list[pa.RecordBatch] = []
+                self._file = open(path, "w", encoding="utf-8")
 
             def write_batch(self, batch: pa.RecordBatch) -> None:
-                self._batches.append(batch)
+                columns = [
+                    c.cast(pa.string())
+                    if pa.types.is_temporal(c.type) or pa.types.is_decimal(c.type)
+                    else c
+                    for c in batch.columns
+                ]
+                batch = pa.RecordBatch.from_arrays(columns, names=batch.schema.names)
+                for row in batch.to_pylist():
+                    row = {name: _json_value(value) for name, value in row.items()}
+                    self._file.write(json.dumps(row, ensure_ascii=False) + "\n")
 
             def close(self) -> None:
-                # PyArrow doesn't have direct JSON write, convert to pandas
-                tbl = pa.Table.from_batches(self._batches)
-                df = tbl.to_pandas()
-                df.to_json(self._path, orient="records", lines=True)
+                self._file.close()
 
         def _safe_remove_file(p: str) -> None:
             if os.path.exists(p):
-- 
2.43.0


From 0b73b09096d7615d4ad1b4b857ab711a897ebe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:47 +0000
Subject: [PATCH 37/82] fix: read and write CSV cells as they are: line breaks,
 missing values alone on a line, texts that look like numbers

---
 mplang/backends/table_impl.py | 53 +++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 3aa18fc..b0fa4d7 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -454,7 +454,7 @@ class FileTableSource(TableSource):
             case "parquet":
                 relation = conn.read_parquet([self.path])
             case "csv":
-                relation = conn.from_csv_auto(self.path)
+                relation = self._csv_relation(conn)
             case "json":
                 with self.open() as reader:
                     conn.register(name, reader.read_all())
@@ -476,13 +476,38 @@ class FileTableSource(TableSource):
             for field in self.schema:
                 identifier = _quote_identifier(field.name)
                 projections.append(
-                    f"CAST({identifier} AS {_duckdb_type_name(field.type)}) "
+                    f"CAST({self._cell(field)} AS {_duckdb_type_name(field.type)}) "
                     f"AS {identifier}"
                 )
             relation = relation.project(", ".join(projections))
 
         relation.create_view(name, replace=replace)
 
+    def _csv_relation(self, conn: duckdb.DuckDBPyConnection) -> Any:
+        """Read the file as :meth:`open` does, cells as they are written."""
+        if not self.schema:
+            return conn.from_csv_auto(self.path)
+        return conn.read_csv(
+            self.path,
+            header=True,
+            delimiter=",",
+            quotechar='"',
+            escapechar='"',
+            all_varchar=True,
+        )
+
+    def _cell(self, field: pa.Field) -> str:
+        """SQL expression of a cell of the file, before it has its declared type."""
+        import pyarrow.csv as pa_csv
+
+        cell = _quote_identifier(field.name)
+        if self.format.lower() != "csv":
+            return cell
+        if pa.types.is_string(field.type) or pa.types.is_binary(field.type):
+            return f"COALESCE({cell}, '')"
+        nulls = ", ".join(f"'{v}'" for v in pa_csv.ConvertOptions().null_values)
+        return f"CASE WHEN list_contains([{nulls}], {cell}) THEN NULL ELSE {cell} END"
+
     def open(self, batch_size: int = DEFAULT_BATCH_SIZE) -> TableReader:
         """Create a streaming reader for the file."""
         import pyarrow.csv as pa_csv
@@ -505,6 +530,7 @@ class FileTableSource(TableSource):
                 reader = pa_csv.open_csv(
                     self.path,
                     read_options=read_options,
+                    parse_options=pa_csv.ParseOptions(newlines_in_values=True),
                     convert_options=convert_options,
                 )
             case "json":
@@ -955,6 +981,27 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             def write_batch(self, batch: pa.RecordBatch) -> None: ...
             def close(self) -> None: ...
 
+        class CsvWriter(BatchWriter):
+            def __init__(self, path: str, schema: pa.Schema) -> None:
+                self._file = pa.OSFile(path, "wb")
+                self._writer = pa_csv.CSVWriter(self._file, schema)
+                self._alone = len(schema) == 1
+
+            def write_batch(self, batch: pa.RecordBatch) -> None:
+                if self._alone and batch.num_rows and batch.column(0).null_count:
+                    # The line of a missing value would be blank, and be skipped
+                    for row, null in enumerate(batch.column(0).is_null()):
+                        if null.as_py():
+                            self._file.write(b'""\n')
+                        else:
+                            self._writer.write_batch(batch.slice(row, 1))
+                else:
+                    self._writer.write_batch(batch)
+
+            def close(self) -> None:
+                self._writer.close()
+                self._file.close()
+
         class JsonWriter(BatchWriter):
             # PyArrow doesn't have direct JSON write
             def __init__(self, path: str) -> None:
@@ -992,7 +1039,7 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                     case "parquet":
                         writer = pa_pq.ParquetWriter(partial, reader.schema)
                     case "csv":
-                        writer = pa_csv.CSVWriter(partial, reader.schema)
+                        writer = CsvWriter(partial, reader.schema)
                     case "json":
                         writer = JsonWriter(partial)
                     case _:
-- 
2.43.0


From 4dd175d39288a1d3c2223704fdf7c84e900952be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 38/82] fix: give every table read or written through a store a
 local file of its own

---
 mplang/backends/table_impl.py | 55 +++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index b0fa4d7..e638358 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -24,7 +24,9 @@ import contextlib
 import json
 import math
 import os
+import shutil
 import uuid
+import weakref
 from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
@@ -853,6 +855,17 @@ def _infer_format(path: str, format_hint: str) -> str:
         return "parquet"
 
 
+def _local_dir() -> str:
+    """Make a local directory for one file of the store.
+
+    Stores of several parties may be used from one working directory, so a local
+    file is never shared.
+    """
+    path = os.path.abspath(os.path.join(".tmp", uuid.uuid4().hex))
+    os.makedirs(path)
+    return path
+
+
 @table.read_p.def_impl
 def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     """Read table from file.
@@ -864,18 +877,28 @@ def read_impl(interpreter: Interpreter, op: Operation) -> TableValue:
     format_hint: str = op.attrs.get("format", "auto")
     fmt = _infer_format(path, format_hint)
 
-    def _do_read(resolved: str) -> TableValue:
+    def _do_read(resolved: str) -> FileTableSource:
         if not os.path.exists(resolved):
             raise FileNotFoundError(f"{resolved} does not exist")
         pa_schema = _pa_schema(schema) if schema else None
-        return _wrap(FileTableSource(path=resolved, format=fmt, schema=pa_schema))
-
-    if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
-        os.makedirs(os.path.dirname(local_path), exist_ok=True)
+        return FileTableSource(path=resolved, format=fmt, schema=pa_schema)
+
+    if not interpreter.store:
+        return _wrap(_do_read(path))
+    if os.path.isabs(path):
+        interpreter.store.download(path, path)
+        return _wrap(_do_read(path))
+    local_dir = _local_dir()
+    try:
+        local_path = os.path.join(local_dir, os.path.basename(path))
         interpreter.store.download(path, local_path)
-        return _do_read(local_path)
-    return _do_read(path)
+        source = _do_read(local_path)
+    except BaseException:
+        shutil.rmtree(local_dir, ignore_errors=True)
+        raise
+    # It is read lazily
+    weakref.finalize(source, shutil.rmtree, local_dir, ignore_errors=True)
+    return _wrap(source)
 
 
 def _json_value(value: Any) -> Any:
@@ -1057,9 +1080,17 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
             raise
 
     if interpreter.store:
-        local_path = os.path.abspath(os.path.join(".tmp", path))
-        os.makedirs(os.path.dirname(local_path), exist_ok=True)
-        _do_write(local_path)
-        interpreter.store.upload(local_path, path)
+        if os.path.isabs(path):
+            os.makedirs(os.path.dirname(path), exist_ok=True)
+            _do_write(path)
+            interpreter.store.upload(path, path)
+        else:
+            local_dir = _local_dir()
+            try:
+                local_path = os.path.join(local_dir, os.path.basename(path))
+                _do_write(local_path)
+                interpreter.store.upload(local_path, path)
+            finally:
+                shutil.rmtree(local_dir, ignore_errors=True)
     else:
         _do_write(path)
-- 
2.43.0


From 5fcc7dbca31412922600d4a049d75d8497755e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 39/82] fix: recognise a registered table by its name in any
 case, and after it was read into memory

---
 mplang/backends/table_impl.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index e638358..b6213fb 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -570,6 +570,7 @@ class DuckDBState:
     def __init__(self, conn: duckdb.DuckDBPyConnection) -> None:
         self.conn = conn
         self.tables: dict[str, Any] = {}
+        self.values: dict[str, TableValue] = {}
 
 
 @dataclass(frozen=True)
@@ -745,12 +746,16 @@ def run_sql_impl(interpreter: Interpreter, op: Operation, *args: Any) -> TableVa
             data = tbl.unwrap()
             if isinstance(data, QueryTableSource) and data.state is not state:
                 data = tbl.data
-            if name in state.tables:
-                if state.tables[name] is not data:
+            # Names differing in case only are one name in SQL. A table keeps its
+            # name when it is read into memory after it was registered.
+            key = name.lower()
+            if key in state.tables:
+                if state.tables[key] is not data and state.values[key] is not tbl:
                     # TODO: rename and rewrite sql??
                     raise ValueError(f"{name} has been registered.")
             else:
-                state.tables[name] = data
+                state.tables[key] = data
+                state.values[key] = tbl
             if isinstance(data, TableSource):
                 data.register(state.conn, name)
             else:
-- 
2.43.0


From 9d9d87a867fa5e6ea08ecbb9a7ed2753a282da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 40/82] fix: let table.write return the written table, as
 declared, and not change its argument

---
 mplang/backends/table_impl.py | 77 ++++++++++++++++++++++++-----------
 mplang/dialects/table.py      |  4 +-
 2 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index b6213fb..8880433 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -28,6 +28,7 @@ import shutil
 import uuid
 import weakref
 from abc import ABC, abstractmethod
+from collections.abc import Sequence
 from dataclasses import dataclass
 from typing import Any, ClassVar, Protocol, Self, cast, runtime_checkable
 
@@ -964,9 +965,53 @@ class MultiTableReader(BatchReader):
             r.close()
 
 
+def _open_together(tables: Sequence[TableValue], batch_size: int) -> MultiTableReader:
+    """Read the tables side by side."""
+    # A connection streams one result at a time: read the others beforehand
+    states: set[int] = set()
+    for t in tables:
+        data = t.unwrap()
+        if isinstance(data, QueryTableSource):
+            if id(data.state) in states:
+                _ = t.data
+            states.add(id(data.state))
+    readers: list[TableReader] = []
+    for t in tables:
+        data = t.unwrap()
+        readers.append(
+            data.open(batch_size)
+            if isinstance(data, TableSource)
+            else TableReader(data, batch_size=batch_size)
+        )
+    return MultiTableReader(readers)
+
+
+@dataclass(frozen=True)
+class JoinedTableSource(TableSource):
+    """Tables of the same length, side by side."""
+
+    tables: Sequence[TableValue]
+
+    def register(
+        self, conn: duckdb.DuckDBPyConnection, name: str, replace: bool = True
+    ) -> None:
+        with self.open() as reader:
+            conn.register(name, reader.read_all())
+
+    def open(self, batch_size: int = DEFAULT_BATCH_SIZE) -> TableReader:
+        reader = _open_together(
+            self.tables, batch_size if batch_size > 0 else DEFAULT_BATCH_SIZE
+        )
+        return TableReader(
+            pa.RecordBatchReader.from_batches(reader.schema, iter(reader))
+        )
+
+
 @table.write_p.def_impl
-def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) -> None:
-    """Write table to file.
+def write_impl(
+    interpreter: Interpreter, op: Operation, *tables: TableValue
+) -> TableValue:
+    """Write table to file, and return it.
 
     Supported formats: parquet, csv, json
 
@@ -979,27 +1024,12 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
     fmt = _infer_format(path, format_hint)
 
     def _do_write(resolved: str) -> None:
-        batch_size = DEFAULT_BATCH_SIZE if len(tables) > 1 else -1
-        # A connection streams one result at a time: read the others beforehand
-        states: set[int] = set()
-        for t in tables:
-            data = t.unwrap()
-            if isinstance(data, QueryTableSource):
-                if id(data.state) in states:
-                    _ = t.data
-                states.add(id(data.state))
-        readers: list[TableReader] = []
-        for t in tables:
-            data = t.unwrap()
-            readers.append(
-                data.open(batch_size)
-                if isinstance(data, TableSource)
-                else TableReader(data, batch_size=batch_size)
-            )
-
-        reader: BatchReader = (
-            readers[0] if len(readers) == 1 else MultiTableReader(readers)
-        )
+        reader: BatchReader
+        if len(tables) == 1:
+            data = tables[0].unwrap()
+            reader = data.open(-1) if isinstance(data, TableSource) else TableReader(data)
+        else:
+            reader = _open_together(tables, DEFAULT_BATCH_SIZE)
 
         import pyarrow.csv as pa_csv
         import pyarrow.parquet as pa_pq
@@ -1099,3 +1129,4 @@ def write_impl(interpreter: Interpreter, op: Operation, *tables: TableValue) ->
                 shutil.rmtree(local_dir, ignore_errors=True)
     else:
         _do_write(path)
+    return tables[0] if len(tables) == 1 else _wrap(JoinedTableSource(tables))
diff --git a/mplang/dialects/table.py b/mplang/dialects/table.py
index a439eef..03aa5e2 100644
--- a/mplang/dialects/table.py
+++ b/mplang/dialects/table.py
@@ -408,9 +408,7 @@ def write(
     if not isinstance(tables, list):
         tables = [tables]
 
-    for idx, tbl in enumerate(tables):
-        if not isinstance(tbl, el.Object):
-            tables[idx] = constant(tbl)
+    tables = [tbl if isinstance(tbl, el.Object) else constant(tbl) for tbl in tables]
 
     return write_p.bind(*tables, path=path, format=format)  # type: ignore[no-any-return]
 
-- 
2.43.0


From 9010032ac02fa83fa6d9ef2fb5cd8eff6869a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 41/82] fix: register the vector column types, so that they
 survive serialization

---
 mplang/extend/arrow/vector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mplang/extend/arrow/vector.py b/mplang/extend/arrow/vector.py
index 1a84f53..184e551 100644
--- a/mplang/extend/arrow/vector.py
+++ b/mplang/extend/arrow/vector.py
@@ -485,8 +485,8 @@ class SparseVectorType(VectorType):
             )
         metadata = json.loads(serialized.decode("utf-8"))
         size = metadata["size"]
-        value_type = storage_type["values"].type
-        index_type = storage_type["indices"].type
+        value_type = storage_type["values"].type.value_type
+        index_type = storage_type["indices"].type.value_type
         return cls(size, value_type, index_type)
 
     def __arrow_ext_class__(self) -> type:
@@ -596,17 +596,17 @@ def _register_vector_types() -> None:
 
     # Simply attempt registration - PyArrow will handle duplicates gracefully
     try:
-        pa.register_extension_type(DenseVectorType(pa.float32(), 1))
+        pa.register_extension_type(DenseVectorType(1))
     except Exception:
         pass  # Type might already be registered
 
     try:
-        pa.register_extension_type(SparseVectorType(pa.float32(), 1))
+        pa.register_extension_type(SparseVectorType(1))
     except Exception:
         pass  # Type might already be registered
 
     try:
-        pa.register_extension_type(OneHotVectorType(pa.int32(), 1))
+        pa.register_extension_type(OneHotVectorType(1))
     except Exception:
         pass  # Type might already be registered
 
-- 
2.43.0


From dc54902eed346ec2421e5d4f285c799d2b3f979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:21 +0000
Subject: [PATCH 42/82] fix: keep the columns that were a pandas index when a
 table becomes a tensor

---
 mplang/extend/arrow/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mplang/extend/arrow/vector.py b/mplang/extend/arrow/vector.py
index 184e551..1c7e5af 100644
--- a/mplang/extend/arrow/vector.py
+++ b/mplang/extend/arrow/vector.py
@@ -633,7 +633,8 @@ def table_to_numpy(table: pa.Table) -> np.ndarray:
     # Fast path: no VectorType columns - use pandas which is more efficient
     has_vector_type = any(isinstance(col.type, VectorType) for col in table.columns)
     if not has_vector_type:
-        result = table.to_pandas().to_numpy()
+        # Every column counts, whatever pandas once made of it (an index, say)
+        result = table.to_pandas(ignore_metadata=True).to_numpy()
         return cast(np.ndarray, result)
 
     # Slow path: handle VectorType columns
-- 
2.43.0


From 3d69c7d9ea704cc716609bb94afd8253bdbeeb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 43/82] fix: keep a row for a missing dense vector

---
 mplang/extend/arrow/vector.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mplang/extend/arrow/vector.py b/mplang/extend/arrow/vector.py
index 1c7e5af..c1727ab 100644
--- a/mplang/extend/arrow/vector.py
+++ b/mplang/extend/arrow/vector.py
@@ -19,6 +19,7 @@ from typing import Any, cast
 
 import numpy as np
 import pyarrow as pa
+import pyarrow.compute as pc
 
 from mplang.extend.arrow.util import _str_to_type, _type_to_str
 
@@ -55,8 +56,18 @@ class DenseVectorArray(VectorArray):
 
         # Use flatten + reshape for efficient 2D array conversion
         # This is much faster than to_pylist() iteration
-        result: np.ndarray = self.storage.flatten().to_numpy(zero_copy_only=False)
-        return cast(np.ndarray, result.reshape(-1, self.type.size))
+        size = self.type.size
+        if self.storage.null_count:
+            # flatten() would drop a missing vector: its elements are all missing
+            valid = np.repeat(np.asarray(self.storage.is_valid()), size)
+            values = self.storage.values.slice(
+                self.storage.offset * size, len(self.storage) * size
+            )
+            values = pc.if_else(pa.array(valid), values, None)
+        else:
+            values = self.storage.flatten()
+        result: np.ndarray = values.to_numpy(zero_copy_only=False)
+        return cast(np.ndarray, result.reshape(-1, size))
 
 
 class SparseVectorItem:
-- 
2.43.0


From c8f516d113b80697420de29302d1f6e0698acac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 44/82] fix: read float16 columns, and dates among other
 declared columns, from text files

---
 mplang/backends/table_impl.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 8880433..44f590f 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -511,6 +511,19 @@ class FileTableSource(TableSource):
         nulls = ", ".join(f"'{v}'" for v in pa_csv.ConvertOptions().null_values)
         return f"CASE WHEN list_contains([{nulls}], {cell}) THEN NULL ELSE {cell} END"
 
+    def _text_schema(self, dates: pa.DataType | None = None) -> pa.Schema | None:
+        """The declared schema, in types that can be read from text."""
+        if not self.schema:
+            return None
+        return pa.schema([
+            f.with_type(pa.float32())
+            if pa.types.is_float16(f.type)
+            else f.with_type(dates)
+            if dates and pa.types.is_date(f.type)
+            else f
+            for f in self.schema
+        ])
+
     def open(self, batch_size: int = DEFAULT_BATCH_SIZE) -> TableReader:
         """Create a streaming reader for the file."""
         import pyarrow.csv as pa_csv
@@ -527,7 +540,7 @@ class FileTableSource(TableSource):
             case "csv":
                 read_options = pa_csv.ReadOptions(use_threads=True)
                 convert_options = pa_csv.ConvertOptions(
-                    column_types=self.schema,
+                    column_types=self._text_schema(),
                     include_columns=columns,
                 )
                 reader = pa_csv.open_csv(
@@ -553,7 +566,7 @@ class FileTableSource(TableSource):
                             self.path,
                             read_options=read_options,
                             parse_options=pa_json.ParseOptions(
-                                explicit_schema=self.schema
+                                explicit_schema=self._text_schema(pa.string())
                             ),
                         ).select(columns)
                 reader = table.to_reader()
-- 
2.43.0


From 16d87cd23cd3c27850c2a98b6cc89ae63acf084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 45/82] fix: let a query complete before its result is read

DuckDB loses rows of nested UNION ALLs when a result is streamed from
a relation with several threads.
---
 mplang/backends/table_impl.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/table_impl.py b/mplang/backends/table_impl.py
index 44f590f..421f78e 100644
--- a/mplang/backends/table_impl.py
+++ b/mplang/backends/table_impl.py
@@ -603,8 +603,10 @@ class QueryTableSource(TableSource):
         """Read from the DuckDB relation."""
         if batch_size <= 0:
             batch_size = DEFAULT_BATCH_SIZE
-        reader = self.relation.arrow(batch_size)
-        return TableReader(reader, batch_size=batch_size)
+        # DuckDB loses rows of nested UNION ALLs when it streams a result, so let it
+        # complete the result first.
+        result = self.relation.fetch_arrow_table()
+        return TableReader(result.to_reader(batch_size), batch_size=batch_size)
 
 
 # =============================================================================
-- 
2.43.0


From ee1940f412f0d5db6a11eed0358a5f46860f9db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 46/82] fix: let opposite points sum to the identity, and read
 the identity from its bytes

---
 mplang/backends/crypto_impl.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index 859a80b..d4d4c5e 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -182,8 +182,12 @@ def add_impl(
         return p2
     if p2 is None:
         return p1
-    result = p1.coincurve_key.combine([p2.coincurve_key])
-    return ECPointValue.from_coincurve(result)
+    k1, k2 = p1.coincurve_key, p2.coincurve_key
+    b1, b2 = k1.format(compressed=True), k2.format(compressed=True)
+    if b1 != b2 and b1[1:] == b2[1:]:
+        # P + (-P): coincurve has no representation of the identity
+        return None
+    return ECPointValue.from_coincurve(k1.combine([k2]))
 
 
 @crypto.sub_p.def_impl
@@ -201,11 +205,7 @@ def sub_impl(
     neg_scalar = (N - 1).to_bytes(32, "big")
     neg_p2 = p2.coincurve_key.multiply(neg_scalar)
 
-    if p1 is None:
-        return ECPointValue.from_coincurve(neg_p2)
-
-    result = p1.coincurve_key.combine([neg_p2])
-    return ECPointValue.from_coincurve(result)
+    return add_impl(interpreter, op, p1, ECPointValue.from_coincurve(neg_p2))
 
 
 @crypto.random_scalar_p.def_impl
@@ -256,7 +256,7 @@ def point_to_bytes_impl(
 @crypto.bytes_to_point_p.def_impl
 def bytes_to_point_impl(
     interpreter: Interpreter, op: Operation, b: TensorValue | BytesValue
-) -> ECPointValue:
+) -> ECPointValue | None:
     if isinstance(b, TensorValue):
         raw = b.unwrap().tobytes()
     elif isinstance(b, BytesValue):
@@ -266,7 +266,11 @@ def bytes_to_point_impl(
             f"bytes_to_point expects TensorValue or BytesValue, got {type(b)}"
         )
 
-    return ECPointValue(raw)
+    if raw == bytes(65):
+        # Infinity / Identity, as point_to_bytes writes it
+        return None
+
+    return ECPointValue.from_coincurve(coincurve.PublicKey(raw))
 
 
 # --- Sym / Hash Impl ---
-- 
2.43.0


From 0c24ddc0b1da2017f1c928115afbfba7f3a27ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:52 +0000
Subject: [PATCH 47/82] fix: refuse key exchange suites without an
 implementation

They were either answered with x25519 keys under another name, or with
two ends deriving different keys.
---
 mplang/backends/crypto_impl.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/mplang/backends/crypto_impl.py b/mplang/backends/crypto_impl.py
index d4d4c5e..b7e9d9e 100644
--- a/mplang/backends/crypto_impl.py
+++ b/mplang/backends/crypto_impl.py
@@ -554,9 +554,10 @@ class SymmetricKeyValue(Value):
 
 @crypto.kem_keygen_p.def_impl
 def kem_keygen_impl(
-    interpreter: Interpreter, op: Operation, suite: str = "x25519"
+    interpreter: Interpreter, op: Operation
 ) -> tuple[PrivateKeyValue, PublicKeyValue]:
     """Generate a KEM key pair."""
+    suite = op.attrs.get("suite", "x25519")
     if suite == "x25519":
         from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
 
@@ -580,13 +581,7 @@ def kem_keygen_impl(
             PublicKeyValue(suite=suite, key_bytes=pk_bytes),
         )
     else:
-        # Fallback to random bytes for unknown suites
-        sk_bytes = os.urandom(32)
-        pk_bytes = os.urandom(32)
-        return (
-            PrivateKeyValue(suite=suite, key_bytes=sk_bytes),
-            PublicKeyValue(suite=suite, key_bytes=pk_bytes),
-        )
+        raise ValueError(f"Unsupported KEM suite: {suite!r}. Supported suites: x25519")
 
 
 @crypto.kem_derive_p.def_impl
@@ -611,11 +606,7 @@ def kem_derive_impl(
 
         return SymmetricKeyValue(suite=suite, key_bytes=shared_secret)
     else:
-        # Fallback for unknown suites: XOR the key bytes (not cryptographically secure)
-        sk_bytes = private_key.key_bytes
-        pk_bytes = public_key.key_bytes
-        secret = bytes(a ^ b for a, b in zip(sk_bytes, pk_bytes, strict=True))
-        return SymmetricKeyValue(suite=suite, key_bytes=secret)
+        raise ValueError(f"Unsupported KEM suite: {suite!r}. Supported suites: x25519")
 
 
 @crypto.hkdf_p.def_impl
-- 
2.43.0


From fbdf56d4adeb857ef79e1134c501c7f68c462526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:40 +0000
Subject: [PATCH 48/82] fix: let the identity of a curve be an element of a
 tensor

---
 mplang/backends/tensor_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/tensor_impl.py b/mplang/backends/tensor_impl.py
index fbe0968..ab97aa1 100644
--- a/mplang/backends/tensor_impl.py
+++ b/mplang/backends/tensor_impl.py
@@ -361,14 +361,15 @@ def elementwise_impl(interpreter: Interpreter, op: Operation, *args: Value) -> A
                 # Tensor argument: pick element (arg is array-like at runtime)
                 # Wrap scalar in TensorValue to maintain Value-only contract
                 elem = cast(Any, arg)[index]
-                if isinstance(elem, Value):
+                # (the identity of a curve is None, which is no number either)
+                if isinstance(elem, Value) or elem is None:
                     scalar_inputs.append(elem)
                 else:
                     scalar_inputs.append(_wrap(np.array(elem)))  # type: ignore[index]
             else:
                 # Scalar/Broadcast argument: use as is
                 # Ensure it is wrapped (it should be, but double check)
-                if not isinstance(arg, Value):
+                if not isinstance(arg, Value) and arg is not None:
                     scalar_inputs.append(_wrap(np.array(arg)))
                 else:
                     scalar_inputs.append(arg)
-- 
2.43.0


From 5551468ff4fb3f604f02df3e0d0c3e80b4ffc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:54 +0000
Subject: [PATCH 49/82] fix: refuse malformed attestation quotes, and quotes of
 another kind of key than expected

---
 mplang/backends/tee_impl.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/tee_impl.py b/mplang/backends/tee_impl.py
index 760d069..309b702 100644
--- a/mplang/backends/tee_impl.py
+++ b/mplang/backends/tee_impl.py
@@ -98,15 +98,22 @@ class MockQuoteValue(Value):
 
     @classmethod
     def from_bytes(cls, data: bytes) -> MockQuoteValue:
-        """Deserialize quote."""
-        platform_len = data[0]
-        platform = data[1 : 1 + platform_len].decode("utf-8")
-        suite_start = 1 + platform_len
-        suite_len = data[suite_start]
-        suite = data[suite_start + 1 : suite_start + 1 + suite_len].decode("utf-8")
-        pk_start = suite_start + 1 + suite_len
-        bound_pk = data[pk_start : pk_start + 32]
-        return cls(platform=platform, bound_pk=bound_pk, suite=suite)
+        """Deserialize quote.
+
+        Raises:
+            ValueError: If data is not exactly one serialized quote.
+        """
+        fields: list[bytes] = []
+        rest = data
+        for _ in range(2):
+            if not rest or len(rest) < 1 + rest[0]:
+                raise ValueError("Malformed TEE quote: truncated")
+            fields.append(rest[1 : 1 + rest[0]])
+            rest = rest[1 + rest[0] :]
+        platform, suite = (f.decode("utf-8") for f in fields)
+        if not rest or (suite == "x25519" and len(rest) != 32):
+            raise ValueError(f"Malformed TEE quote: key of {len(rest)} bytes")
+        return cls(platform=platform, bound_pk=rest, suite=suite)
 
 
 # ==============================================================================
@@ -203,6 +210,12 @@ def _attest_impl(
     else:
         raise TypeError(f"Expected MockQuoteValue or BytesValue, got {type(quote)}")
 
+    expected = op.attrs.get("expected_curve", "x25519")
+    if mock_quote.suite != expected:
+        raise ValueError(
+            f"TEE quote binds a key of {mock_quote.suite!r}, expected {expected!r}"
+        )
+
     # Return a real PublicKeyValue that can be used directly with kem_derive
     return PublicKeyValue(
         suite=mock_quote.suite,
-- 
2.43.0


From dd4c0c72ba1fd5aa0068613131c2efb34242b152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 50/82] fix: make PHE programs run: runtime values, signed
 numbers, public keys without private part

---
 mplang/backends/__init__.py |   1 +
 mplang/backends/phe_impl.py | 154 +++++++++++++++++++++++++++++-------
 mplang/dialects/phe.py      |  36 ++++++++-
 3 files changed, 161 insertions(+), 30 deletions(-)

diff --git a/mplang/backends/__init__.py b/mplang/backends/__init__.py
index 0cc062f..b734d27 100644
--- a/mplang/backends/__init__.py
+++ b/mplang/backends/__init__.py
@@ -47,6 +47,7 @@ def load_builtins() -> None:
         "mplang.backends.crypto_impl",
         "mplang.backends.tee_impl",
         "mplang.backends.bfv_impl",
+        "mplang.backends.phe_impl",
         "mplang.backends.store_impl",
         "mplang.backends.func_impl",
         "mplang.backends.field_impl",
diff --git a/mplang/backends/phe_impl.py b/mplang/backends/phe_impl.py
index afe8632..7c4f4b1 100644
--- a/mplang/backends/phe_impl.py
+++ b/mplang/backends/phe_impl.py
@@ -17,46 +17,109 @@
 from __future__ import annotations
 
 from dataclasses import dataclass
-from typing import Any, cast
+from typing import Any, ClassVar, cast
 
+import numpy as np
 from lightphe import LightPHE
 from lightphe.models.Ciphertext import Ciphertext
 
+import mplang.edsl.typing as elt
+from mplang.backends.tensor_impl import TensorValue
 from mplang.dialects import phe
+from mplang.edsl import serde
 from mplang.edsl.graph import Operation
 from mplang.runtime.interpreter import Interpreter
+from mplang.runtime.value import Value
 
 
-class PHEContext:
+@serde.register_class
+class PHEContext(Value):
     """Wraps LightPHE context."""
 
-    def __init__(self, algorithm_name: str = "Paillier", key_size: int = 2048):
+    _serde_kind: ClassVar[str] = "phe_impl.PHEContext"
+
+    def __init__(
+        self,
+        algorithm_name: str = "Paillier",
+        key_size: int = 2048,
+        keys: dict[str, Any] | None = None,
+    ):
         # Normalize algorithm name (LightPHE expects capitalized names)
         normalized_name = algorithm_name.capitalize()
-        self.cs = LightPHE(algorithm_name=normalized_name, key_size=key_size)
+        self.cs = LightPHE(algorithm_name=normalized_name, keys=keys, key_size=key_size)
 
-    def encrypt(self, value: int) -> Ciphertext:
-        return self.cs.encrypt(value)
+    @property
+    def algorithm_name(self) -> str:
+        return self.cs.algorithm_name
 
-    def decrypt(self, ct: Ciphertext) -> int:
-        return cast(int, self.cs.decrypt(ct))
+    @property
+    def public_key(self) -> dict[str, int]:
+        return cast(dict[str, int], self.cs.cs.keys["public_key"])
 
+    def public(self) -> PHEContext:
+        """The same context without its private key."""
+        return PHEContext(self.algorithm_name, keys={"public_key": self.public_key})
+
+    def encrypt(self, value: int) -> Ciphertext:
+        return self.cs.encrypt(value % self.cs.cs.plaintext_modulo)
 
+    def decrypt(self, ct: Ciphertext) -> int:
+        """Decrypt to the signed number, i.e. the residue closest to zero."""
+        value = cast(int, self.cs.decrypt(ct))
+        modulo = self.cs.cs.plaintext_modulo
+        return value - modulo if value > modulo // 2 else value
+
+    def to_json(self) -> dict[str, Any]:
+        keys = self.cs.cs.keys
+        return {
+            "algorithm_name": self.algorithm_name,
+            # as texts: key numbers exceed what other JSON readers represent
+            "keys": {
+                kind: {name: str(number) for name, number in numbers.items()}
+                for kind, numbers in keys.items()
+            },
+        }
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PHEContext:
+        keys = {
+            kind: {name: int(number) for name, number in numbers.items()}
+            for kind, numbers in data["keys"].items()
+        }
+        return cls(data["algorithm_name"], keys=keys)
+
+
+@serde.register_class
 @dataclass
-class PHEEncoder:
+class PHEEncoder(Value):
     """Simple fixed-point encoder."""
 
-    scale: float
+    _serde_kind: ClassVar[str] = "phe_impl.PHEEncoder"
+
+    scale: int
+    max_value: int | None = None
+
+    def to_json(self) -> dict[str, Any]:
+        return {"scale": self.scale, "max_value": self.max_value}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PHEEncoder:
+        return cls(scale=data["scale"], max_value=data["max_value"])
 
 
+@serde.register_class
 @dataclass
-class WrappedCiphertext:
+class WrappedCiphertext(Value):
+    _serde_kind: ClassVar[str] = "phe_impl.WrappedCiphertext"
+
     ct: Ciphertext
     ctx: PHEContext
 
     def __add__(self, other: Any) -> WrappedCiphertext:
         if isinstance(other, WrappedCiphertext):
             # ct + ct
+            if self.ctx.public_key != other.ctx.public_key:
+                raise ValueError("Cannot add ciphertexts under different keys")
             new_ct = self.ct + other.ct
             return WrappedCiphertext(new_ct, self.ctx)
         elif isinstance(other, int):
@@ -69,10 +132,36 @@ class WrappedCiphertext:
     def __mul__(self, other: Any) -> WrappedCiphertext:
         if isinstance(other, int):
             # ct * int
-            new_ct = self.ct * other
+            new_ct = self.ct * (other % self.ctx.cs.cs.plaintext_modulo)
             return WrappedCiphertext(new_ct, self.ctx)
         return NotImplemented
 
+    def to_json(self) -> dict[str, Any]:
+        return {
+            "value": str(self.ct.value),
+            "ctx": serde.to_json(self.ctx.public()),
+        }
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> WrappedCiphertext:
+        ctx = serde.from_json(data["ctx"])
+        ct = Ciphertext(
+            algorithm_name=ctx.algorithm_name,
+            keys=ctx.cs.cs.keys,
+            value=int(data["value"]),
+        )
+        return cls(ct, ctx)
+
+
+def _as_int(value: TensorValue) -> int:
+    """The encoded integer held by a scalar runtime value."""
+    return int(value.unwrap().item())
+
+
+def _from_int(value: int) -> TensorValue:
+    # An object array, since encoded integers may be wider than any numpy type.
+    return TensorValue.wrap(np.array(value, dtype=object))
+
 
 @phe.keygen_p.def_impl
 def keygen_impl(
@@ -83,7 +172,7 @@ def keygen_impl(
 
     ctx = PHEContext(algorithm_name=scheme, key_size=key_size)
 
-    return ctx, ctx
+    return ctx.public(), ctx
 
 
 @phe.create_encoder_p.def_impl
@@ -91,37 +180,44 @@ def create_encoder_impl(
     interpreter: Interpreter, op: Operation, *args: Any
 ) -> PHEEncoder:
     fxp_bits = op.attrs.get("fxp_bits", 16)
-    scale = 2.0**fxp_bits
-    return PHEEncoder(scale=scale)
+    # Fixed-point bits are for float types, integers are encoded as they are.
+    is_float = op.attrs["dtype"] in (elt.f16, elt.f32, elt.f64)
+    scale = 2**fxp_bits if is_float else 1
+    return PHEEncoder(scale=scale, max_value=op.attrs.get("max_value"))
 
 
 @phe.encode_p.def_impl
 def encode_impl(
-    interpreter: Interpreter, op: Operation, value: float, encoder: PHEEncoder
-) -> int:
-    return int(value * encoder.scale)
+    interpreter: Interpreter, op: Operation, value: TensorValue, encoder: PHEEncoder
+) -> TensorValue:
+    encoded = int(value.unwrap().item() * encoder.scale)
+    if encoder.max_value is not None and abs(encoded) >= encoder.max_value:
+        raise ValueError(
+            f"Encoded value {encoded} is out of range (max_value={encoder.max_value})"
+        )
+    return _from_int(encoded)
 
 
 @phe.decode_p.def_impl
 def decode_impl(
-    interpreter: Interpreter, op: Operation, value: int, encoder: PHEEncoder
-) -> float:
-    return float(value) / encoder.scale
+    interpreter: Interpreter, op: Operation, value: TensorValue, encoder: PHEEncoder
+) -> TensorValue:
+    return TensorValue.wrap(np.array(_as_int(value) / encoder.scale, dtype=np.float64))
 
 
 @phe.encrypt_p.def_impl
 def encrypt_impl(
-    interpreter: Interpreter, op: Operation, value: int, pk: PHEContext
+    interpreter: Interpreter, op: Operation, value: TensorValue, pk: PHEContext
 ) -> WrappedCiphertext:
-    ct = pk.encrypt(value)
+    ct = pk.encrypt(_as_int(value))
     return WrappedCiphertext(ct, pk)
 
 
 @phe.decrypt_p.def_impl
 def decrypt_impl(
     interpreter: Interpreter, op: Operation, wct: WrappedCiphertext, sk: PHEContext
-) -> int:
-    return sk.decrypt(wct.ct)
+) -> TensorValue:
+    return _from_int(sk.decrypt(wct.ct))
 
 
 @phe.add_cc_p.def_impl
@@ -136,13 +232,13 @@ def add_cc_impl(
 
 @phe.add_cp_p.def_impl
 def add_cp_impl(
-    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
+    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: TensorValue
 ) -> WrappedCiphertext:
-    return lhs + rhs
+    return lhs + _as_int(rhs)
 
 
 @phe.mul_cp_p.def_impl
 def mul_cp_impl(
-    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: int
+    interpreter: Interpreter, op: Operation, lhs: WrappedCiphertext, rhs: TensorValue
 ) -> WrappedCiphertext:
-    return lhs * rhs
+    return lhs * _as_int(rhs)
diff --git a/mplang/dialects/phe.py b/mplang/dialects/phe.py
index 5f437b9..4069452 100644
--- a/mplang/dialects/phe.py
+++ b/mplang/dialects/phe.py
@@ -73,17 +73,19 @@ result = phe.decrypt_auto(ct, encoder, sk)
 from __future__ import annotations
 
 from collections.abc import Callable
-from typing import Any, NamedTuple
+from typing import Any, ClassVar, NamedTuple
 
 import mplang.edsl as el
 import mplang.edsl.typing as elt
 from mplang.dialects import tensor
+from mplang.edsl import serde
 
 # ==============================================================================
 # --- Type Definitions
 # ==============================================================================
 
 
+@serde.register_class
 class KeyType(elt.BaseType):
     """Type for PHE keys carrying scheme information."""
 
@@ -103,7 +105,18 @@ class KeyType(elt.BaseType):
     def __hash__(self) -> int:
         return hash((self.scheme, self.is_public))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.KeyType"
 
+    def to_json(self) -> dict[str, Any]:
+        return {"scheme": self.scheme, "is_public": self.is_public}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> KeyType:
+        return cls(scheme=data["scheme"], is_public=data["is_public"])
+
+
+@serde.register_class
 class PlaintextType(elt.ScalarType):
     """Represents an encoded integer ready for PHE encryption.
 
@@ -126,7 +139,18 @@ class PlaintextType(elt.ScalarType):
     def __hash__(self) -> int:
         return hash(("PlaintextType", self.bitwidth))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.PlaintextType"
+
+    def to_json(self) -> dict[str, Any]:
+        return {"bitwidth": self.bitwidth}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> PlaintextType:
+        return cls(bitwidth=data["bitwidth"])
 
+
+@serde.register_class
 class CiphertextType(elt.ScalarType, elt.EncryptedTrait):
     """Represents a single scalar value encrypted with a PHE scheme.
 
@@ -151,6 +175,16 @@ class CiphertextType(elt.ScalarType, elt.EncryptedTrait):
     def __hash__(self) -> int:
         return hash(("CiphertextType", self._scheme))
 
+    # --- Serde methods ---
+    _serde_kind: ClassVar[str] = "phe.CiphertextType"
+
+    def to_json(self) -> dict[str, Any]:
+        return {"scheme": self._scheme}
+
+    @classmethod
+    def from_json(cls, data: dict[str, Any]) -> CiphertextType:
+        return cls(scheme=data["scheme"])
+
 
 # Opaque types for PHE (singleton instances)
 EncoderType: elt.CustomType = elt.CustomType("Encoder")
-- 
2.43.0


From cf4561f2b15fa60f28c71bf05d10e369b209f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:26 +0000
Subject: [PATCH 51/82] fix: keep the BFV secret key out of relinearization and
 rotation keys

---
 mplang/backends/bfv_impl.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 53d1b76..671fdf5 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -158,14 +158,16 @@ class BFVSecretContextValue(BFVPublicContextValue):
 
         self.secret_key = self.ts_ctx.secret_key().data
         self.decryptor = sealapi.Decryptor(self.cpp_ctx, self.secret_key)
+        self._public: BFVPublicContextValue | None = None
 
     def make_public(self) -> BFVPublicContextValue:
         """Create a public-only version of this context."""
-        # Serialize without secret key
-        serialized = self.ts_ctx.serialize(save_secret_key=False)
-        # Deserialize to create a new context
-        new_ts_ctx = ts.context_from(serialized)
-        return BFVPublicContextValue(new_ts_ctx)
+        if self._public is None:
+            # Serialize without secret key
+            serialized = self.ts_ctx.serialize(save_secret_key=False)
+            # Deserialize to create a new context
+            self._public = BFVPublicContextValue(ts.context_from(serialized))
+        return self._public
 
     def to_json(self) -> dict[str, Any]:
         # Serialize TenSEAL context (with secret key)
@@ -288,15 +290,15 @@ def keygen_impl(
 @bfv.make_relin_keys_p.def_impl
 def make_relin_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    return sk.make_public()
 
 
 @bfv.make_galois_keys_p.def_impl
 def make_galois_keys_impl(
     interpreter: Interpreter, op: Operation, sk: BFVSecretContextValue
-) -> BFVSecretContextValue:
-    return sk
+) -> BFVPublicContextValue:
+    return sk.make_public()
 
 
 @bfv.create_encoder_p.def_impl
-- 
2.43.0


From 72f20b1265df95bd28a217d8dae6f8155964339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 52/82] fix: accept every BFV operand, results without
 randomness and received ciphertexts included

---
 mplang/backends/bfv_impl.py | 271 ++++++++++--------------------------
 1 file changed, 70 insertions(+), 201 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 671fdf5..7d025d0 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -419,6 +419,37 @@ def _ensure_plaintext(ctx: BFVPublicContextValue, data: BFVValue | TensorValue)
     return pt
 
 
+def _evaluate(ctx: BFVPublicContextValue, fn: Any, *operands: Any) -> BFVValue:
+    """Run a SEAL evaluator function and return its result.
+
+    SEAL computes, but complains about, transparent results: those whose randomness
+    cancelled out, like x - x or x * 0. They are valid ciphertexts. If the public key
+    is at hand they are hidden again, under a fresh encryption of zero.
+    """
+    result = sealapi.Ciphertext()
+    try:
+        fn(*operands, result)
+    except RuntimeError as e:
+        if "transparent" not in str(e):
+            raise
+        # (a context that travelled along with a ciphertext has no keys)
+        if isinstance(ctx, BFVPublicContextValue):
+            zero, hidden = sealapi.Ciphertext(), sealapi.Ciphertext()
+            ctx.encryptor.encrypt_zero(zero)
+            ctx.evaluator.add(result, zero, hidden)
+            result = hidden
+    return BFVValue(result, ctx, is_cipher=True)
+
+
+def _is_cipher(data: BFVValue | TensorValue) -> bool:
+    return isinstance(data, BFVValue) and data.is_cipher
+
+
+def _common_context(lhs: BFVValue, rhs: BFVValue) -> BFVPublicContextValue:
+    """The context of two ciphertexts, preferably one with keys."""
+    return lhs.ctx if isinstance(lhs.ctx, BFVPublicContextValue) else rhs.ctx
+
+
 @bfv.add_p.def_impl
 def add_impl(
     interpreter: Interpreter,
@@ -426,74 +457,16 @@ def add_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
-    # Case 1: Both are BFVValues
-    if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
-        result_ct = sealapi.Ciphertext()
-
-        if lhs.is_cipher and rhs.is_cipher:
-            # Optimization: Handle transparent ciphertexts (zero)
-            if lhs.data.is_transparent():
-                return rhs
-            if rhs.data.is_transparent():
-                return lhs
-
-            lhs.ctx.evaluator.add(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        elif lhs.is_cipher and not rhs.is_cipher:
-            # Optimization: Handle transparent ciphertext
-            if lhs.data.is_transparent():
-                # 0 + Plaintext -> Encrypt(Plaintext)
-                # This is expensive, but necessary for correctness if we want to return a Ciphertext
-                # Alternatively, if we allow returning Plaintext, we could just return rhs.
-                # But BFV add usually expects to return Ciphertext if one input is Ciphertext.
-                # For now, let's encrypt it.
-                new_ct = sealapi.Ciphertext()
-                lhs.ctx.encryptor.encrypt(rhs.data, new_ct)
-                return BFVValue(new_ct, lhs.ctx, is_cipher=True)
-
-            lhs.ctx.evaluator.add_plain(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        elif not lhs.is_cipher and rhs.is_cipher:
-            # Optimization: Handle transparent ciphertext
-            if rhs.data.is_transparent():
-                new_ct = sealapi.Ciphertext()
-                rhs.ctx.encryptor.encrypt(lhs.data, new_ct)
-                return BFVValue(new_ct, rhs.ctx, is_cipher=True)
-
-            rhs.ctx.evaluator.add_plain(rhs.data, lhs.data, result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-        else:
-            raise NotImplementedError(
-                "BFV Plaintext + Plaintext addition not implemented yet"
-            )
-
-    # Case 2: One is BFVValue (Ciphertext), other is Raw
-    if isinstance(lhs, BFVValue) and lhs.is_cipher:
-        # Optimization: Handle transparent ciphertext
-        if lhs.data.is_transparent():
-            # 0 + Raw -> Encrypt(Raw)
-            pt = _ensure_plaintext(lhs.ctx, rhs)
-            new_ct = sealapi.Ciphertext()
-            lhs.ctx.encryptor.encrypt(pt, new_ct)
-            return BFVValue(new_ct, lhs.ctx, is_cipher=True)
-
+    if _is_cipher(lhs) and _is_cipher(rhs):
+        lhs, rhs = cast(BFVValue, lhs), cast(BFVValue, rhs)
+        ctx = _common_context(lhs, rhs)
+        return _evaluate(ctx, ctx.evaluator.add, lhs.data, rhs.data)
+    if _is_cipher(rhs):
+        lhs, rhs = rhs, lhs
+    if _is_cipher(lhs):
+        lhs = cast(BFVValue, lhs)
         pt = _ensure_plaintext(lhs.ctx, rhs)
-        result_ct = sealapi.Ciphertext()
-        lhs.ctx.evaluator.add_plain(lhs.data, pt, result_ct)
-        return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-
-    if isinstance(rhs, BFVValue) and rhs.is_cipher:
-        # Optimization: Handle transparent ciphertext
-        if rhs.data.is_transparent():
-            pt = _ensure_plaintext(rhs.ctx, lhs)
-            new_ct = sealapi.Ciphertext()
-            rhs.ctx.encryptor.encrypt(pt, new_ct)
-            return BFVValue(new_ct, rhs.ctx, is_cipher=True)
-
-        pt = _ensure_plaintext(rhs.ctx, lhs)
-        result_ct = sealapi.Ciphertext()
-        rhs.ctx.evaluator.add_plain(rhs.data, pt, result_ct)
-        return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+        return _evaluate(lhs.ctx, lhs.ctx.evaluator.add_plain, lhs.data, pt)
 
     # Handle Plaintext + Plaintext (TensorValue + TensorValue)
     if isinstance(lhs, TensorValue) and isinstance(rhs, TensorValue):
@@ -508,41 +481,20 @@ def sub_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
-    # Case 1: Both are BFVValues
-    if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
-        result_ct = sealapi.Ciphertext()
-
-        if lhs.is_cipher and rhs.is_cipher:
-            lhs.ctx.evaluator.sub(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        elif lhs.is_cipher and not rhs.is_cipher:
-            lhs.ctx.evaluator.sub_plain(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        elif not lhs.is_cipher and rhs.is_cipher:
-            neg_ct = sealapi.Ciphertext()
-            rhs.ctx.evaluator.negate(rhs.data, neg_ct)
-            rhs.ctx.evaluator.add_plain(neg_ct, lhs.data, result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-        else:
-            raise NotImplementedError(
-                "BFV Plaintext - Plaintext subtraction not implemented yet"
-            )
-
-    # Case 2: One is BFVValue (Ciphertext), other is Raw
-    if isinstance(lhs, BFVValue) and lhs.is_cipher:
+    if _is_cipher(lhs) and _is_cipher(rhs):
+        lhs, rhs = cast(BFVValue, lhs), cast(BFVValue, rhs)
+        ctx = _common_context(lhs, rhs)
+        return _evaluate(ctx, ctx.evaluator.sub, lhs.data, rhs.data)
+    if _is_cipher(lhs):
+        lhs = cast(BFVValue, lhs)
         pt = _ensure_plaintext(lhs.ctx, rhs)
-        result_ct = sealapi.Ciphertext()
-        lhs.ctx.evaluator.sub_plain(lhs.data, pt, result_ct)
-        return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-
-    if isinstance(rhs, BFVValue) and rhs.is_cipher:
-        # Raw - CT
+        return _evaluate(lhs.ctx, lhs.ctx.evaluator.sub_plain, lhs.data, pt)
+    if _is_cipher(rhs):
+        # Plaintext - CT
+        rhs = cast(BFVValue, rhs)
         pt = _ensure_plaintext(rhs.ctx, lhs)
-        result_ct = sealapi.Ciphertext()
-        neg_ct = sealapi.Ciphertext()
-        rhs.ctx.evaluator.negate(rhs.data, neg_ct)
-        rhs.ctx.evaluator.add_plain(neg_ct, pt, result_ct)
-        return BFVValue(result_ct, rhs.ctx, is_cipher=True)
+        neg = _evaluate(rhs.ctx, rhs.ctx.evaluator.negate, rhs.data)
+        return _evaluate(rhs.ctx, rhs.ctx.evaluator.add_plain, neg.data, pt)
 
     # Handle Plaintext - Plaintext (TensorValue - TensorValue)
     if isinstance(lhs, TensorValue) and isinstance(rhs, TensorValue):
@@ -557,90 +509,16 @@ def mul_impl(
     lhs: BFVValue | TensorValue,
     rhs: BFVValue | TensorValue,
 ) -> BFVValue | TensorValue:
-    # Case 1: Both are BFVValues
-    if isinstance(lhs, BFVValue) and isinstance(rhs, BFVValue):
-        result_ct = sealapi.Ciphertext()
-
-        if lhs.is_cipher and rhs.is_cipher:
-            lhs.ctx.evaluator.multiply(lhs.data, rhs.data, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        elif lhs.is_cipher and not rhs.is_cipher:
-            # Optimization: Check for zero plaintext to avoid expensive exception handling
-            if rhs.data.is_zero():
-                # Return transparent zero ciphertext (no noise, size 0)
-                # SEAL arithmetic ops handle transparent ciphertexts as zero.
-                # We must ensure relinearize/rotate also handle it.
-                return BFVValue(sealapi.Ciphertext(), lhs.ctx, is_cipher=True)
-
-            try:
-                lhs.ctx.evaluator.multiply_plain(lhs.data, rhs.data, result_ct)
-                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-            except RuntimeError as e:
-                if "transparent" in str(e):
-                    return BFVValue(sealapi.Ciphertext(), lhs.ctx, is_cipher=True)
-                raise e
-        elif not lhs.is_cipher and rhs.is_cipher:
-            # Optimization: Check for zero plaintext
-            if lhs.data.is_zero():
-                return BFVValue(sealapi.Ciphertext(), rhs.ctx, is_cipher=True)
-
-            try:
-                rhs.ctx.evaluator.multiply_plain(rhs.data, lhs.data, result_ct)
-                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-            except RuntimeError as e:
-                if "transparent" in str(e):
-                    return BFVValue(sealapi.Ciphertext(), rhs.ctx, is_cipher=True)
-                raise e
-        else:
-            raise NotImplementedError(
-                "BFV Plaintext * Plaintext multiplication not implemented yet"
-            )
-
-    # Case 2: One is BFVValue (Ciphertext), other is TensorValue
-    if isinstance(lhs, BFVValue) and lhs.is_cipher:
-        # Check for zero plaintext to avoid "transparent ciphertext" error
-        # Also check if plaintext is BFVValue(Plaintext)
-        if isinstance(rhs, TensorValue) and np.all(rhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            lhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-
-        try:
-            pt = _ensure_plaintext(lhs.ctx, rhs)
-            result_ct = sealapi.Ciphertext()
-            lhs.ctx.evaluator.multiply_plain(lhs.data, pt, result_ct)
-            return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-        except RuntimeError as e:
-            # SEAL throws "result ciphertext is transparent" when multiplying by a zero plaintext.
-            # This is mathematically valid (Enc(x) * 0 = Enc(0)), but SEAL enforces explicit zero encryption.
-            # We catch this error and return a valid zero ciphertext to maintain operator semantics.
-            if "transparent" in str(e):
-                # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                lhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, lhs.ctx, is_cipher=True)
-            raise e
-
-    if isinstance(rhs, BFVValue) and rhs.is_cipher:
-        # Check for zero plaintext to avoid "transparent ciphertext" error
-        if isinstance(lhs, TensorValue) and np.all(lhs.unwrap() == 0):
-            result_ct = sealapi.Ciphertext()
-            rhs.ctx.encryptor.encrypt_zero(result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-
-        try:
-            pt = _ensure_plaintext(rhs.ctx, lhs)
-            result_ct = sealapi.Ciphertext()
-            rhs.ctx.evaluator.multiply_plain(rhs.data, pt, result_ct)
-            return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-        except RuntimeError as e:
-            # See comment above regarding "transparent ciphertext"
-            if "transparent" in str(e):
-                # Fallback for zero plaintext
-                result_ct = sealapi.Ciphertext()
-                rhs.ctx.encryptor.encrypt_zero(result_ct)
-                return BFVValue(result_ct, rhs.ctx, is_cipher=True)
-            raise e
+    if _is_cipher(lhs) and _is_cipher(rhs):
+        lhs, rhs = cast(BFVValue, lhs), cast(BFVValue, rhs)
+        ctx = _common_context(lhs, rhs)
+        return _evaluate(ctx, ctx.evaluator.multiply, lhs.data, rhs.data)
+    if _is_cipher(rhs):
+        lhs, rhs = rhs, lhs
+    if _is_cipher(lhs):
+        lhs = cast(BFVValue, lhs)
+        pt = _ensure_plaintext(lhs.ctx, rhs)
+        return _evaluate(lhs.ctx, lhs.ctx.evaluator.multiply_plain, lhs.data, pt)
 
     # Handle Plaintext * Plaintext (TensorValue * TensorValue)
     if isinstance(lhs, TensorValue) and isinstance(rhs, TensorValue):
@@ -657,15 +535,10 @@ def relinearize_impl(
 ) -> BFVValue:
     # rk is BFVPublicContextValue (same as ciphertext.ctx)
 
-    # Optimization: Handle transparent ciphertext (zero)
-    if ciphertext.data.is_transparent():
-        return ciphertext
-
     # Check if relinearization is needed (size > 2)
     if ciphertext.data.size() > 2:
-        new_ct = sealapi.Ciphertext()
-        ciphertext.ctx.evaluator.relinearize(ciphertext.data, rk.relin_keys, new_ct)
-        return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
+        ctx = ciphertext.ctx
+        return _evaluate(ctx, ctx.evaluator.relinearize, ciphertext.data, rk.relin_keys)
 
     return ciphertext
 
@@ -682,16 +555,13 @@ def rotate_impl(
     if steps == 0:
         return ciphertext
 
-    # Optimization: Handle transparent ciphertext (zero)
-    if ciphertext.data.is_transparent():
-        return ciphertext
-
     # ciphertext is BFVValue
     # gk is BFVPublicContextValue
 
-    new_ct = sealapi.Ciphertext()
-    ciphertext.ctx.evaluator.rotate_rows(ciphertext.data, steps, gk.galois_keys, new_ct)
-    return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
+    ctx = ciphertext.ctx
+    return _evaluate(
+        ctx, ctx.evaluator.rotate_rows, ciphertext.data, steps, gk.galois_keys
+    )
 
 
 @bfv.rotate_columns_p.def_impl
@@ -702,6 +572,5 @@ def rotate_columns_impl(
     gk: BFVPublicContextValue,
 ) -> BFVValue:
     """Swap the two rows in SIMD batching (row 0 <-> row 1)."""
-    new_ct = sealapi.Ciphertext()
-    ciphertext.ctx.evaluator.rotate_columns(ciphertext.data, gk.galois_keys, new_ct)
-    return BFVValue(new_ct, ciphertext.ctx, is_cipher=True)
+    ctx = ciphertext.ctx
+    return _evaluate(ctx, ctx.evaluator.rotate_columns, ciphertext.data, gk.galois_keys)
-- 
2.43.0


From c0f955c0a4deea69ef569cfd1da92ce24f55f6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 53/82] fix: reduce BFV slot contents modulo the plaintext
 modulus

---
 mplang/backends/bfv_impl.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 7d025d0..4bac605 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -317,6 +317,19 @@ def encode_impl(
     return TensorValue.wrap(np.asarray(data.unwrap()))
 
 
+def _to_slots(
+    ctx: BFVParamContextValue | BFVPublicContextValue, arr: np.ndarray
+) -> list[int]:
+    """Slot contents for the batch encoder, which expects reduced numbers."""
+    # (the low-level API has no accessor for the modulus; -1 is encoded as t - 1)
+    minus_one = sealapi.Plaintext()
+    ctx.batch_encoder.encode([-1], minus_one)
+    modulus = ctx.batch_encoder.decode_uint64(minus_one)[0] + 1
+    wide = arr.astype(np.uint64 if arr.dtype.kind == "u" else np.int64)
+    # Optimization: Use tolist() instead of list comprehension
+    return np.mod(wide, wide.dtype.type(modulus)).tolist()
+
+
 @bfv.batch_encode_p.def_impl
 def batch_encode_impl(
     interpreter: Interpreter,
@@ -340,9 +353,7 @@ def batch_encode_impl(
     # Iterate rows
     for i in range(arr.shape[0]):
         pt = sealapi.Plaintext()
-        # Use tolist() for speed
-        vec = arr[i].tolist()
-        ctx.batch_encoder.encode(vec, pt)
+        ctx.batch_encoder.encode(_to_slots(ctx, arr[i]), pt)
         results.append(BFVValue(pt, ctx, is_cipher=False))
 
     return tuple(results)
@@ -363,10 +374,7 @@ def encrypt_impl(
     pt = sealapi.Plaintext()
 
     # 2. Encode
-    # We need to handle types. Assuming int64 vector.
-    # Optimization: Use tolist() instead of list comprehension
-    vec = plaintext_arr.tolist()
-    pk.batch_encoder.encode(vec, pt)
+    pk.batch_encoder.encode(_to_slots(pk, plaintext_arr), pt)
 
     # 3. Encrypt
     ct = sealapi.Ciphertext()
@@ -414,8 +422,7 @@ def _ensure_plaintext(ctx: BFVPublicContextValue, data: BFVValue | TensorValue)
         raise TypeError(f"Expected BFVValue or TensorValue, got {type(data)}")
     pt = sealapi.Plaintext()
     arr = data.unwrap()
-    vec = arr.flatten().tolist()
-    ctx.batch_encoder.encode(vec, pt)
+    ctx.batch_encoder.encode(_to_slots(ctx, arr.flatten()), pt)
     return pt
 
 
-- 
2.43.0


From c10b25d9abf4aceea346c1e25542ccc1728d58ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 54/82] fix: decode BFV plaintexts as declared, and plaintexts
 that were never encrypted

---
 mplang/backends/bfv_impl.py | 16 ++++++++++++----
 mplang/dialects/bfv.py      |  3 ++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 4bac605..338a93b 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -327,7 +327,7 @@ def _to_slots(
     modulus = ctx.batch_encoder.decode_uint64(minus_one)[0] + 1
     wide = arr.astype(np.uint64 if arr.dtype.kind == "u" else np.int64)
     # Optimization: Use tolist() instead of list comprehension
-    return np.mod(wide, wide.dtype.type(modulus)).tolist()
+    return cast(list[int], np.mod(wide, wide.dtype.type(modulus)).tolist())
 
 
 @bfv.batch_encode_p.def_impl
@@ -401,11 +401,19 @@ def decrypt_impl(
 
 @bfv.decode_p.def_impl
 def decode_impl(
-    interpreter: Interpreter, op: Operation, plaintext: BFVValue, encoder: Any
+    interpreter: Interpreter,
+    op: Operation,
+    plaintext: BFVValue | TensorValue,
+    encoder: dict[str, Any],
 ) -> TensorValue:
-    # plaintext is BFVValue(Plaintext)
-    # encoder is dummy config
+    if isinstance(plaintext, TensorValue):
+        # "Logical Plaintext" (from encode_impl): fill the remaining slots
+        raw = plaintext.unwrap().astype(np.int64)
+        return TensorValue.wrap(
+            np.pad(raw, (0, encoder["poly_modulus_degree"] - raw.size))
+        )
 
+    # plaintext is BFVValue(Plaintext)
     vec = plaintext.ctx.batch_encoder.decode_int64(plaintext.data)
     return TensorValue.wrap(np.array(vec))
 
diff --git a/mplang/dialects/bfv.py b/mplang/dialects/bfv.py
index 9eb96f2..ed1c850 100644
--- a/mplang/dialects/bfv.py
+++ b/mplang/dialects/bfv.py
@@ -409,7 +409,8 @@ def _decode_ae(plain: PlaintextType, encoder: EncoderType) -> elt.TensorType:
     # Returns a 1D tensor of i64 (default assumption for BFV)
     # The shape is technically (slots,), but we might not know slots exactly here
     # if it wasn't tracked perfectly.
-    return elt.TensorType(plain.vector_type.element_type, (plain.slots,))
+    # Slots hold numbers modulo the plaintext modulus, decoded as signed integers.
+    return elt.TensorType(elt.i64, (plain.slots,))
 
 
 # ==============================================================================
-- 
2.43.0


From e822627e9e18ce250277e16941647c8295a84c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:33 +0000
Subject: [PATCH 55/82] fix: return the plaintext of a single batch-encoded row
 itself

---
 mplang/backends/bfv_impl.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index 338a93b..a21f8cb 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -335,7 +335,7 @@ def batch_encode_impl(
     interpreter: Interpreter,
     op: Operation,
     *args: Value,
-) -> tuple[BFVValue | TensorValue, ...]:
+) -> BFVValue | tuple[BFVValue, ...]:
     # args will be (tensor, encoder, key)
     key = args[-1]
     _encoder = args[-2]
@@ -356,7 +356,8 @@ def batch_encode_impl(
         ctx.batch_encoder.encode(_to_slots(ctx, arr[i]), pt)
         results.append(BFVValue(pt, ctx, is_cipher=False))
 
-    return tuple(results)
+    # An operation with a single output yields the value itself
+    return results[0] if len(results) == 1 else tuple(results)
 
 
 @bfv.encrypt_p.def_impl
-- 
2.43.0


From 04dfff840b348f5622200dacd56e749812bf29c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 56/82] fix: sum every sample into its own bucket in encrypted
 SecureBoost histograms, without overflow

A ciphertext's slots cannot be moved by multiplying with a mask: samples are
now repeated in every bucket's region before encryption, and the mask keeps
each in the region of its bucket. The histograms were also cumulated twice.
---
 mplang/libs/ml/sgb.py | 190 +++++++++++++++++++++++++-----------------
 1 file changed, 112 insertions(+), 78 deletions(-)

diff --git a/mplang/libs/ml/sgb.py b/mplang/libs/ml/sgb.py
index f263a31..c38abff 100644
--- a/mplang/libs/ml/sgb.py
+++ b/mplang/libs/ml/sgb.py
@@ -54,13 +54,55 @@ from mplang.libs.mpc.analytics import aggregation
 # ==============================================================================
 
 DEFAULT_FXP_BITS = 15  # Fixed-point scale = 2^15 = 32768
+DEFAULT_PLAIN_MODULUS = 1032193
+_SMALL_PRIMES = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41)
 # BFV slot count (Increased for depth)
-# NOTE: For 1M samples, the sum of gradients can reach ~3.2e10 (2^35).
-# The default plain_modulus (1032193 ~ 2^20) will cause overflow.
-# For large datasets, you MUST increase plain_modulus (e.g. to a 40-bit prime).
 DEFAULT_POLY_MODULUS_DEGREE = 8192
 
 
+def choose_plain_modulus(max_abs: int, poly_modulus_degree: int) -> int:
+    """Choose a plaintext modulus for sums with absolute values up to max_abs.
+
+    For 1M samples, the sum of gradients can reach ~3.3e10 (2^35), which overflows
+    BFV's default plain_modulus (1032193 ~ 2^20).
+
+    Returns the default if it is large enough, otherwise the smallest prime which is,
+    among those supporting SIMD slots (1 modulo 2 * poly_modulus_degree).
+    """
+
+    def is_prime(n: int) -> bool:
+        # Miller-Rabin, deterministic for n < 3.3e24
+        if any(n % p == 0 for p in _SMALL_PRIMES):
+            return n in _SMALL_PRIMES
+        d, r = n - 1, 0
+        while d % 2 == 0:
+            d, r = d // 2, r + 1
+        for a in _SMALL_PRIMES:
+            x = pow(a, d, n)
+            if x not in (1, n - 1) and all(
+                (x := x * x % n) != n - 1 for _ in range(r - 1)
+            ):
+                return False
+        return True
+
+    if 2 * max_abs < DEFAULT_PLAIN_MODULUS:
+        return DEFAULT_PLAIN_MODULUS
+    step = 2 * poly_modulus_degree
+    candidate = (2 * max_abs // step + 1) * step + 1
+    while not is_prime(candidate):
+        candidate += step
+    return candidate
+
+
+def bucket_stride(n_buckets: int, slot_count: int) -> int:
+    """Number of slots of each bucket's region.
+
+    A power of two, so that no region extends over both rows of slots (rotations act
+    within the rows).
+    """
+    return slot_count // (1 << (n_buckets - 1).bit_length())
+
+
 # ==============================================================================
 # Data Structures
 # ==============================================================================
@@ -235,30 +277,15 @@ def local_compute_best_splits(
 # ==============================================================================
 
 
-def _build_packed_mask_jit(node_mask, feat_bins, n_buckets, stride, slot_count):
-    valid = node_mask == 1
-    bucket_onehot = (jnp.arange(n_buckets)[None, :] == feat_bins[:, None]) & valid[
-        :, None
-    ]
-    running_counts = jnp.cumsum(bucket_onehot, axis=0)
-    shifted_counts = jnp.zeros_like(running_counts)
-    shifted_counts = shifted_counts.at[1:].set(running_counts[:-1])
-    sample_offsets = jnp.take_along_axis(
-        shifted_counts, feat_bins[:, None], axis=1
-    ).squeeze(-1)
-
-    scatter_indices = jnp.where(valid, feat_bins * stride + sample_offsets, -1)
-
-    valid_mask = scatter_indices >= 0
-    valid_indices = jnp.where(valid_mask, scatter_indices, 0).astype(jnp.int32)
-    valid_ones = jnp.where(valid_mask, 1, 0).astype(jnp.int64)
-    output = segment_sum(valid_ones, valid_indices, num_segments=slot_count)
-    return output
+def _build_packed_mask_jit(node_mask, feat_bins, stride, slot_count):
+    # The samples of a chunk are repeated in every bucket's region: keep each of the
+    # node's samples in the region of its bucket only.
+    regions = jnp.arange(slot_count // stride)
+    mask = (regions[:, None] == feat_bins[None, :]) & (node_mask == 1)[None, :]
+    return mask.astype(jnp.int64).reshape(slot_count)
 
 
-def compute_all_masks(
-    subgroup_map, bin_indices, n_buckets, stride, slot_count, n_chunks
-):
+def compute_all_masks(subgroup_map, bin_indices, stride, slot_count, n_chunks):
     # subgroup_map: (n_nodes, m)
     # bin_indices: (m, n_features)
 
@@ -267,21 +294,21 @@ def compute_all_masks(
     n_nodes = subgroup_map.shape[0]
 
     # Pad
-    pad_len = n_chunks * slot_count - m
+    pad_len = n_chunks * stride - m
     if pad_len > 0:
         subgroup_map = jnp.pad(subgroup_map, ((0, 0), (0, pad_len)))
         bin_indices = jnp.pad(bin_indices, ((0, pad_len), (0, 0)))
 
     # Reshape chunks
-    # subgroup_map: (n_nodes, n_chunks, slot_count)
-    sg_chunks = subgroup_map.reshape(n_nodes, n_chunks, slot_count)
+    # subgroup_map: (n_nodes, n_chunks, stride)
+    sg_chunks = subgroup_map.reshape(n_nodes, n_chunks, stride)
 
-    # bin_indices: (n_chunks, slot_count, n_features) -> (n_features, n_chunks, slot_count)
-    bi_chunks = bin_indices.reshape(n_chunks, slot_count, n_features).transpose(2, 0, 1)
+    # bin_indices: (n_chunks, stride, n_features) -> (n_features, n_chunks, stride)
+    bi_chunks = bin_indices.reshape(n_chunks, stride, n_features).transpose(2, 0, 1)
 
     # vmap over chunks
     def process_chunk(nm, fb):
-        return _build_packed_mask_jit(nm, fb, n_buckets, stride, slot_count)
+        return _build_packed_mask_jit(nm, fb, stride, slot_count)
 
     v_chunk = jax.vmap(process_chunk, in_axes=(0, 0))
 
@@ -316,7 +343,6 @@ def _compute_histogram_chunk_batch(
     # Precompute all masks in one go
     compute_all_masks_jit = partial(
         compute_all_masks,
-        n_buckets=n_buckets,
         stride=stride,
         slot_count=slot_count,
         n_chunks=n_chunks,
@@ -401,14 +427,14 @@ def _compute_histogram_chunk_batch(
                 # This reduces rotations by a factor of n_chunks
                 g_feat_acc = aggregation.batch_bucket_aggregate(
                     g_masked_acc,
-                    n_buckets,
+                    slot_count // stride,
                     max_samples_per_bucket,
                     galois_keys,
                     slot_count,
                 )
                 h_feat_acc = aggregation.batch_bucket_aggregate(
                     h_masked_acc,
-                    n_buckets,
+                    slot_count // stride,
                     max_samples_per_bucket,
                     galois_keys,
                     slot_count,
@@ -480,11 +506,8 @@ def _process_decrypted_jit(
     g_buckets = g_flat.astype(jnp.float32) / scale
     h_buckets = h_flat.astype(jnp.float32) / scale
 
-    g_cumsum = jnp.cumsum(g_buckets, axis=1)
-    h_cumsum = jnp.cumsum(h_buckets, axis=1)
-
-    g_reshaped = g_cumsum.reshape(n_nodes, n_features, n_buckets)
-    h_reshaped = h_cumsum.reshape(n_nodes, n_features, n_buckets)
+    g_reshaped = g_buckets.reshape(n_nodes, n_features, n_buckets)
+    h_reshaped = h_buckets.reshape(n_nodes, n_features, n_buckets)
 
     combined = jnp.stack([g_reshaped, h_reshaped], axis=-1)
     return combined
@@ -526,13 +549,15 @@ def fhe_encrypt_gh(
     encoder: Any,
     ap_rank: int,
     n_samples: int,
+    n_buckets: int,
     slot_count: int = DEFAULT_POLY_MODULUS_DEGREE,
 ) -> tuple[list[Any], list[Any], int]:
-    """Encrypt quantized G/H vectors at AP, splitting into chunks if m > slot_count.
+    """Encrypt quantized G/H vectors at AP, splitting into chunks if m > stride.
 
-    When m > slot_count, the vectors are split into ceil(m / slot_count) chunks,
-    each encrypted as a separate ciphertext. This enables processing arbitrarily
-    large datasets with a fixed poly_modulus_degree.
+    The slots are divided into one region of `stride` slots per bucket. The vectors
+    are split into ceil(m / stride) chunks, each repeated in every region and
+    encrypted as a separate ciphertext. This enables processing arbitrarily large
+    datasets with a fixed poly_modulus_degree.
 
     Args:
         qg: Quantized G vector, shape (m,)
@@ -541,36 +566,36 @@ def fhe_encrypt_gh(
         encoder: BFV encoder
         ap_rank: Active party rank
         n_samples: Number of samples (m)
-        slot_count: Number of slots per ciphertext (default 4096)
+        n_buckets: Number of histogram buckets
+        slot_count: Number of slots per ciphertext (default 8192)
 
     Returns:
         (g_cts, h_cts, n_chunks): Lists of encrypted G/H chunks and chunk count
     """
     # Calculate n_chunks at trace time (known statically)
-    n_chunks = (n_samples + slot_count - 1) // slot_count
+    stride = bucket_stride(n_buckets, slot_count)
+    n_chunks = (n_samples + stride - 1) // stride
 
     g_cts: list[Any] = []
     h_cts: list[Any] = []
 
     for chunk_idx in range(n_chunks):
-        start = chunk_idx * slot_count
-        end = min((chunk_idx + 1) * slot_count, n_samples)
+        start = chunk_idx * stride
+        end = min((chunk_idx + 1) * stride, n_samples)
         chunk_size = end - start
 
         # Extract, pad, encode and encrypt both G and H chunks together
         def slice_pad_encode_encrypt(
-            g_vec, h_vec, enc, key, s=start, e=end, cs=chunk_size, sc=slot_count
+            g_vec, h_vec, enc, key, s=start, e=end, cs=chunk_size
         ):
-            # Slice and pad using JAX
-            def slice_and_pad_both(gv, hv):
-                g_chunk = gv[s:e]
-                h_chunk = hv[s:e]
-                if cs < sc:
-                    g_chunk = jnp.pad(g_chunk, (0, sc - cs))
-                    h_chunk = jnp.pad(h_chunk, (0, sc - cs))
-                return g_chunk, h_chunk
-
-            g_chunk, h_chunk = tensor.run_jax(slice_and_pad_both, g_vec, h_vec)
+            # Slice, pad and repeat using JAX
+            def slice_and_repeat_both(gv, hv):
+                g_chunk = jnp.pad(gv[s:e], (0, stride - cs))
+                h_chunk = jnp.pad(hv[s:e], (0, stride - cs))
+                n_regions = slot_count // stride
+                return jnp.tile(g_chunk, n_regions), jnp.tile(h_chunk, n_regions)
+
+            g_chunk, h_chunk = tensor.run_jax(slice_and_repeat_both, g_vec, h_vec)
             # Encode and encrypt
             g_pt = bfv.encode(g_chunk, enc)
             h_pt = bfv.encode(h_chunk, enc)
@@ -607,9 +632,9 @@ def fhe_histogram_optimized(
 
     **Multi-CT Support**
 
-    When m > slot_count, data is split into n_chunks ciphertexts:
-    - Chunk 0: samples [0, slot_count)
-    - Chunk 1: samples [slot_count, 2*slot_count)
+    Data is split into n_chunks ciphertexts:
+    - Chunk 0: samples [0, stride)
+    - Chunk 1: samples [stride, 2*stride)
     - ...
 
     For each chunk, we compute the histogram separately, then add results
@@ -617,20 +642,21 @@ def fhe_histogram_optimized(
 
     **SIMD Bucket Packing** (per chunk)
 
-    1. Divide slot_count into n_buckets regions, each with `stride` slots
-    2. Build scatter mask placing sample i at slot (bucket[i] * stride + offset[i])
+    1. Divide slot_count into regions of `stride` slots, one per bucket, each holding
+       all samples of the chunk (see fhe_encrypt_gh)
+    2. Build mask keeping sample i in the region of its bucket, at slot
+       (bucket[i] * stride + i)
     3. Single CT × packed_mask multiplication
-    4. Single rotate_and_sum aggregates ALL buckets simultaneously
-    5. Add chunk results together
+    4. Add chunk results together
+    5. Single rotate_and_sum aggregates ALL buckets simultaneously
 
     Returns:
         g_enc[node][feat]: List of packed encrypted G histograms (one CT per feature)
         h_enc[node][feat]: List of packed encrypted H histograms (one CT per feature)
     """
-    stride = slot_count // n_buckets
-    # Estimate max samples per bucket per chunk
-    samples_per_chunk = (m + n_chunks - 1) // n_chunks
-    max_samples_per_bucket = min(stride, max(samples_per_chunk // n_buckets * 2, 64))
+    stride = bucket_stride(n_buckets, slot_count)
+    # All samples of a chunk may be in the same bucket
+    max_samples_per_bucket = min(stride, m)
 
     # Use partial to bake in static arguments (integers) so they are treated as static by JAX
     fn = partial(
@@ -688,14 +714,13 @@ def decrypt_histogram_results(
     With SIMD bucket packing, each ciphertext contains ALL buckets for one feature:
     - g_enc_flat is a list of packed CTs (one per feature per node)
     - slot[b * stride] contains histogram[b] for bucket b
-    - stride = slot_count // n_buckets
+    - stride = bucket_stride(n_buckets, slot_count)
 
-    We extract bucket results from strided positions, then compute cumulative sum.
+    We extract bucket results from strided positions.
 
-    Returns list of (n_features, n_buckets, 2) arrays, one per node.
-    The returned histograms are CUMULATIVE (sum of all bins <= bucket_idx).
+    Returns the histograms, shape (n_nodes, n_features, n_buckets, 2).
     """
-    stride = slot_count // n_buckets
+    stride = bucket_stride(n_buckets, slot_count)
 
     fn = partial(
         _decrypt_batch,
@@ -916,6 +941,7 @@ def _find_splits_pps(
                 n_pp_features,
                 n_buckets,
                 ap_rank,
+                slot_count,
             )
             # Store for next level
             last_level_hists[pp_idx + 1] = pp_hists
@@ -962,6 +988,7 @@ def _find_splits_pps(
                 n_pp_features,
                 n_buckets,
                 ap_rank,
+                slot_count,
             )
 
             # 4. Derive Right and Reconstruct
@@ -1229,8 +1256,8 @@ def build_tree(
     3. Update tree structure and sample assignments
     4. Repeat until max_depth reached
 
-    **Multi-CT Support**: When n_samples > slot_count, data is split into
-    n_chunks ciphertexts. Each chunk is processed separately and results
+    **Multi-CT Support**: Data is split into n_chunks ciphertexts
+    (see fhe_encrypt_gh). Each chunk is processed separately and results
     are accumulated in the FHE domain.
     """
     m = n_samples
@@ -1602,9 +1629,16 @@ def fit_tree_ensemble(
     # BFV key generation at AP (only if we have passive parties)
     pk, sk, relin_keys, galois_keys, encoder = None, None, None, None, None
     if pp_ranks:
+        # |g| and h are at most 1, so are the fixed-point values at most fxp_scale
+        plain_modulus = choose_plain_modulus(
+            n_samples * fxp_scale, DEFAULT_POLY_MODULUS_DEGREE
+        )
 
         def keygen_fn():
-            pub, sec = bfv.keygen(poly_modulus_degree=DEFAULT_POLY_MODULUS_DEGREE)
+            pub, sec = bfv.keygen(
+                poly_modulus_degree=DEFAULT_POLY_MODULUS_DEGREE,
+                plain_modulus=plain_modulus,
+            )
             rk = bfv.make_relin_keys(sec)
             gk = bfv.make_galois_keys(sec)
             enc = bfv.create_encoder(poly_modulus_degree=DEFAULT_POLY_MODULUS_DEGREE)
@@ -1634,7 +1668,7 @@ def fit_tree_ensemble(
         g_cts, h_cts, n_chunks = [], [], 1
         if pp_ranks:
             g_cts, h_cts, n_chunks = fhe_encrypt_gh(
-                qg, qh, pk, encoder, ap_rank, n_samples
+                qg, qh, pk, encoder, ap_rank, n_samples, n_buckets
             )
 
         tree = build_tree(
-- 
2.43.0


From 8d83c47a326a5c509dcdf8fc76c673751c9dbdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 57/82] fix: keep SecureBoost thresholds as precise as the
 features

---
 mplang/libs/ml/sgb.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/libs/ml/sgb.py b/mplang/libs/ml/sgb.py
index c38abff..d6996c5 100644
--- a/mplang/libs/ml/sgb.py
+++ b/mplang/libs/ml/sgb.py
@@ -1142,9 +1142,9 @@ def _update_tree_state(
             # Get actual threshold values from bins
             best_thresh = bins_arr[best_feat, best_thresh_idx]
             tmp = thresholds.at[indices].set(best_thresh)
-            tmp = jnp.where(leaf.astype(bool), jnp.float32(jnp.inf), tmp)
+            tmp = jnp.where(leaf.astype(bool), jnp.inf, tmp)
             mask = owned == pid
-            return jnp.where(mask, tmp, jnp.float32(jnp.inf))
+            return jnp.where(mask, tmp, jnp.inf)
 
         all_thresholds[party_idx] = simp.pcall_static(
             (party_rank,),
@@ -1272,7 +1272,16 @@ def build_tree(
         )
 
     all_feats = [init_array(r, n_nodes, np.int64, -1) for r in all_ranks]
-    all_thresholds = [init_array(r, n_nodes, np.float32, np.inf) for r in all_ranks]
+    # Thresholds are as precise as the bins they are taken from
+    all_thresholds = [
+        simp.pcall_static(
+            (r,),
+            lambda b=bins: tensor.run_jax(
+                lambda bins_arr: jnp.full(n_nodes, jnp.inf, dtype=bins_arr.dtype), b
+            ),
+        )
+        for r, bins in zip(all_ranks, all_bins, strict=True)
+    ]
     values = init_array(ap_rank, n_nodes, np.float32, 0.0)
     is_leaf = init_array(ap_rank, n_nodes, np.int64, 0)
     owned_party = init_array(ap_rank, n_nodes, np.int64, -1)
-- 
2.43.0


From 5dd2f107e1cfff428b92d368935652e13caafdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:26 +0000
Subject: [PATCH 58/82] fix: sum exactly the asked slots in rotation-based
 aggregation, rows included

---
 mplang/libs/mpc/analytics/aggregation.py | 102 +++++++++++------------
 1 file changed, 51 insertions(+), 51 deletions(-)

diff --git a/mplang/libs/mpc/analytics/aggregation.py b/mplang/libs/mpc/analytics/aggregation.py
index c05dc64..1164350 100644
--- a/mplang/libs/mpc/analytics/aggregation.py
+++ b/mplang/libs/mpc/analytics/aggregation.py
@@ -19,7 +19,6 @@ This module implements efficient aggregation algorithms using BFV rotation.
 
 from __future__ import annotations
 
-import math
 from typing import Any
 
 import numpy as np
@@ -58,26 +57,36 @@ def _safe_rotate(
 
 
 def _rotate_and_sum_row(
-    ciphertext: Any, k: int, galois_keys: Any, max_step: int = 1024
+    ciphertext: Any,
+    k: int,
+    galois_keys: Any,
+    max_step: int = 1024,
+    stride: int = 1,
 ) -> Any:
-    """Sum first k elements within a single row (k <= row_size).
+    """Sum k elements, `stride` slots apart, within a single row (k <= row_size).
 
+    Every slot receives the sum of itself and the k - 1 elements following it, and
+    of no other element.
     Uses the recursive doubling algorithm with O(log k) rotations.
     """
     if k <= 1:
         return ciphertext
 
-    num_steps = math.ceil(math.log2(k))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= k:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
-
-    return current
+    total = None
+    done = 0  # number of elements in total
+    window = ciphertext  # sums of 1, 2, 4, ... elements
+    size = 1
+
+    while True:
+        if k & size:
+            part = _safe_rotate(window, done * stride, galois_keys, max_step)
+            total = part if total is None else bfv.add(total, part)
+            done += size
+        if done == k:
+            return total
+        rotated = _safe_rotate(window, size * stride, galois_keys, max_step)
+        window = bfv.add(window, rotated)
+        size *= 2
 
 
 def rotate_and_sum(
@@ -180,18 +189,24 @@ def aggregate_sparse(
     # Rot -8: Mask[0]=1. -> Mask = [1, 0...]
     # Rot -4: Mask[1]=1. -> Mask = [0, 1, 0...]
 
-    rotations = {}  # shift -> mask_list
+    # Slots form two rows: rotations act within the rows, a source in the other row
+    # than its target has to change rows first.
+    row_size = encoder.type.poly_modulus_degree // 2
+
+    rotations = {}  # (other row, shift) -> mask_list
 
     for target, sources in aggregations:
         for src in sources:
-            shift = src - target
-            if shift not in rotations:
-                rotations[shift] = [0] * vector_size
-            rotations[shift][target] = 1
+            src_row, src_col = divmod(src, row_size)
+            target_row, target_col = divmod(target, row_size)
+            key = (src_row != target_row, src_col - target_col)
+            if key not in rotations:
+                rotations[key] = [0] * vector_size
+            rotations[key][target] = 1
 
     final_result = None
 
-    for shift, mask_list in rotations.items():
+    for (other_row, shift), mask_list in rotations.items():
         # Optimization: Skip if mask is all zeros (no contribution from this rotation)
         if not any(mask_list):
             continue
@@ -202,10 +217,11 @@ def aggregate_sparse(
         mask_pt = bfv.encode(mask_tensor, encoder)
 
         # Rotate
-        if shift == 0:
-            rotated_c = ciphertext
-        else:
-            rotated_c = bfv.rotate(ciphertext, shift, galois_keys)
+        rotated_c = ciphertext
+        if other_row:
+            rotated_c = bfv.rotate_columns(rotated_c, galois_keys)
+        if shift != 0:
+            rotated_c = bfv.rotate(rotated_c, shift, galois_keys)
 
         # Mask
         masked_c = bfv.mul(rotated_c, mask_pt)
@@ -284,20 +300,7 @@ def strided_rotate_and_sum(
         return ciphertext
 
     # Use recursive doubling with strided rotations
-    # Step 1: rotate by stride, add -> pairs summed at even positions
-    # Step 2: rotate by 2*stride, add -> quads summed at positions 0, 4*stride, ...
-    # ...
-    num_steps = math.ceil(math.log2(n_elements))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = stride * (1 << i)
-        if step >= n_elements * stride:
-            break
-        rotated = _safe_rotate(current, step, galois_keys, max_step)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _rotate_and_sum_row(ciphertext, n_elements, galois_keys, max_step, stride)
 
 
 def batch_bucket_aggregate(
@@ -329,22 +332,19 @@ def batch_bucket_aggregate(
     if samples_per_bucket <= 1:
         return ciphertext
 
+    # Rotations are cyclic within each row, so no bucket may extend over both rows
+    row_size = slot_count // 2
+    stride = slot_count // n_buckets
+    for start in range(0, n_buckets * stride, stride):
+        if start < row_size < start + samples_per_bucket:
+            raise ValueError(
+                f"Samples of bucket {start // stride} extend over both rows of slots"
+            )
+
     # Use recursive doubling within each bucket region
     # Since all buckets use the same relative positions, one set of rotations
     # aggregates ALL buckets simultaneously!
-    num_steps = math.ceil(math.log2(samples_per_bucket))
-    current = ciphertext
-
-    for i in range(num_steps):
-        step = 1 << i
-        if step >= samples_per_bucket:
-            break
-        # Rotating by `step` shifts values within each bucket region
-        # Add original + rotated to sum pairs/quads/etc.
-        rotated = _safe_rotate(current, step, galois_keys)
-        current = bfv.add(current, rotated)
-
-    return current
+    return _rotate_and_sum_row(ciphertext, samples_per_bucket, galois_keys)
 
 
 def extract_bucket_results(
-- 
2.43.0


From e2f80a920a1c38cc505cbf00f1c87c1456a14e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:39 +0000
Subject: [PATCH 59/82] fix: reduce the upper half of native field products

The selector 0x10 multiplies the low half of the product by the high half
of the polynomial, which is zero, so the upper 64 bits of every 256-bit
product were dropped: the native product was neither associative nor the
one of the portable kernels.
---
 mplang/kernels/gf128.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mplang/kernels/gf128.cpp b/mplang/kernels/gf128.cpp
index f4c7bb2..4692b84 100644
--- a/mplang/kernels/gf128.cpp
+++ b/mplang/kernels/gf128.cpp
@@ -118,7 +118,7 @@ extern "C" {
         __m128i r1_lo = r1;
 
         __m128i m0 = _mm_clmulepi64_si128(r1, Q, 0x00); // r1_lo * Q
-        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x10); // r1_hi * Q
+        __m128i m1 = _mm_clmulepi64_si128(r1, Q, 0x01); // r1_hi * Q
 
         __m128i m1_shifted = _mm_slli_si128(m1, 8);
         __m128i M_lo = _mm_xor_si128(m0, m1_shifted);
-- 
2.43.0


From a0ef1d533bc6586551425c97648232dd5d46640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 60/82] fix: refuse operands the field kernels would read past

field.mul handed tensors of different sizes to the native kernel, which read
beyond the smaller one; one-dimensional expansion seeds were counted twice
and three-dimensional ones expanded only in part.
---
 mplang/backends/field_impl.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a73c8e6..cb9c3c0 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -112,6 +112,12 @@ def _get_lib() -> ctypes.CDLL | None:
 
 def _gf128_mul_impl(a: np.ndarray, b: np.ndarray) -> np.ndarray:
     # a, b are numpy arrays (uint64) usually (N, 2)
+    # The kernels pair up elements by position and do not know where b ends.
+    if a.shape[-1:] != (2,) or b.shape[-1:] != (2,) or b.size < a.size:
+        raise ValueError(
+            f"field.mul expects an element (..., 2) of b for every one of a, "
+            f"got {a.shape} and {b.shape}"
+        )
 
     lib = _get_lib()
     if lib is None:
@@ -338,10 +344,13 @@ def _aes_expand_impl_prim(
 
     # Check if bytes
     if seeds.dtype == np.uint8 and seeds.shape[-1] == 16:
-        seeds = seeds.view(np.uint64)
+        seeds = np.ascontiguousarray(seeds).view(np.uint64)
 
-    if seeds.shape[-1] != 2:
-        seeds = seeds.reshape(-1, 2)
+    if seeds.ndim != 2 or seeds.shape[-1] != 2:
+        raise ValueError(
+            f"field.aes_expand expects seeds of shape (N, 2) (or (N, 16) bytes), "
+            f"got {seeds.shape}"
+        )
 
     num_seeds = seeds.shape[0]
     out_shape = (num_seeds, length, 2)
-- 
2.43.0


From cb3a19b1cf4a43ef1f158a717ea5a7a660ad54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 61/82] fix: expand different seeds differently in the portable
 kernels

---
 mplang/backends/field_impl.py | 13 +------------
 mplang/kernels/py_kernels.py  |  7 +++++--
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index cb9c3c0..a868442 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -369,18 +369,7 @@ def _aes_expand_impl_prim(
         )
     else:
         # Slow Python Path (Fallback)
-        # Iterate and generate
-        for i in range(num_seeds):
-            # Seed from pair
-            s0 = int(seeds[i, 0])
-            s1 = int(seeds[i, 1])
-            seed_val = [s0, s1]
-
-            rng = np.random.default_rng(seed_val)
-            vals = rng.integers(
-                0, 0xFFFFFFFFFFFFFFFF, size=(length, 2), dtype=np.uint64
-            )
-            output[i] = vals
+        output = py_kernels.aes_expand(seeds, length)
 
     # Return as JAX array to keep downstream happy
     res_jax = jnp.array(output)
diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index aa9ade6..aa7800e 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -354,9 +354,12 @@ def aes_expand(seeds: np.ndarray, length: int) -> np.ndarray:
     num_seeds = seeds.shape[0]
     output = np.zeros((num_seeds, length, 2), dtype=np.uint64)
 
+    # Always four 32-bit words: the generator would otherwise drop the upper halves
+    # that are zero, and expand e.g. the seeds (a + b * 2^32, 0) and (a, b) alike.
+    words = np.ascontiguousarray(seeds, dtype=np.uint64).view(np.uint32)
+
     for i in range(num_seeds):
-        seed_val = [int(seeds[i, 0]), int(seeds[i, 1])]
-        rng = np.random.default_rng(seed_val)
+        rng = np.random.default_rng(words[i])
         output[i] = rng.integers(
             0, 0xFFFFFFFFFFFFFFFF, size=(length, 2), dtype=np.uint64
         )
-- 
2.43.0


From 74d99e474ea15d2bbc56a0096bbbf12f6fbcfee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 62/82] fix: keep the two words of field elements apart in a
 sum over everything

---
 mplang/dialects/field.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mplang/dialects/field.py b/mplang/dialects/field.py
index aac1f88..ee86ba3 100644
--- a/mplang/dialects/field.py
+++ b/mplang/dialects/field.py
@@ -202,9 +202,15 @@ def add(a: el.Object, b: el.Object) -> el.Object:
 
 
 def sum(x: el.Object, axis: int | None = None) -> el.Object:
-    """GF(2^128) Summation (XOR Sum)."""
+    """GF(2^128) Summation (XOR Sum).
+
+    Sums over all elements (the trailing dimension holds the two words of an
+    element and is kept) if `axis` is None.
+    """
 
     def _sum_impl(val: Any) -> Any:
+        if axis is None:
+            return jnp.bitwise_xor.reduce(val.reshape(-1, val.shape[-1]), axis=0)
         return jnp.bitwise_xor.reduce(val, axis=axis)
 
     return cast(el.Object, tensor.run_jax(_sum_impl, x))
-- 
2.43.0


From ef1d10fc5bc81624236709a9c6a98b831cb1c195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 63/82] fix: refuse sparse matrices that point outside the
 message

---
 mplang/backends/field_impl.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index a868442..c5508fd 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -284,17 +284,27 @@ def _okvs_decode_impl(
 def ldpc_encode_impl(
     message: np.ndarray, h_indices: np.ndarray, h_indptr: np.ndarray, m: int
 ) -> np.ndarray:
+    # The kernel follows the matrix without knowing any bounds.
+    idx_c = np.ascontiguousarray(h_indices, dtype=np.uint64).reshape(-1)
+    ptr_c = np.ascontiguousarray(h_indptr, dtype=np.uint64).reshape(-1)
+    if (
+        ptr_c.shape != (m + 1,)
+        or int(ptr_c[-1]) > idx_c.size
+        or bool(np.any(ptr_c[1:] < ptr_c[:-1]))
+        or (idx_c.size > 0 and int(idx_c.max()) >= message.shape[0])
+    ):
+        raise ValueError(
+            f"field.ldpc_encode: not a CSR matrix of {m} rows "
+            f"and {message.shape[0]} columns"
+        )
+
     lib = _get_lib()
     if lib is None:
         # Use pure Python fallback
-        h_idx_flat = h_indices.flatten() if h_indices.ndim > 1 else h_indices
-        h_ptr_flat = h_indptr.flatten() if h_indptr.ndim > 1 else h_indptr
-        return py_kernels.ldpc_encode(message, h_idx_flat, h_ptr_flat, m)
+        return py_kernels.ldpc_encode(message, idx_c, ptr_c, m)
 
     # Fast C++ Path
     msg_c = np.ascontiguousarray(message, dtype=np.uint64)
-    idx_c = np.ascontiguousarray(h_indices, dtype=np.uint64)
-    ptr_c = np.ascontiguousarray(h_indptr, dtype=np.uint64)
 
     output = np.zeros((m, 2), dtype=np.uint64)
 
-- 
2.43.0


From d31812d5bcae1da7d900afa98d6a164cbc451713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:42 +0000
Subject: [PATCH 64/82] fix: draw the third OKVS index independently of the
 other two

As v1 ^ v2 it was determined by the other indices whenever the table size is
a power of two, and partly whenever it is even. Keys then share all three
indices and the store cannot be built: for 1280 keys in 2048 cells, 66% of
the seeds failed, and with sizes rounded to 128, as private set intersection
does, up to 8% at 1000 keys. The portable hash was not mixed well enough
either: keys differing in their upper bits only met in the same cells.
---
 mplang/kernels/okvs.cpp      |  8 +++++++-
 mplang/kernels/py_kernels.py | 29 +++++++++++++++++------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 185d2e1..8ab9ed1 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -38,10 +38,16 @@ extern "C" {
         uint64_t v1 = _mm_extract_epi64(h, 0);
         uint64_t v2 = _mm_extract_epi64(h, 1);
 
+        // The third index needs a round of its own. Taken as v1 ^ v2, it is
+        // determined by the other two indices if m is a power of two (and partly
+        // if m is even), and keys that share all three cannot be told apart.
+        h = _mm_aesenc_si128(h, seed);
+        uint64_t v3 = _mm_extract_epi64(h, 0);
+
         Indices idx;
         idx.h1 = v1 % m;
         idx.h2 = v2 % m;
-        idx.h3 = (v1 ^ v2) % m;
+        idx.h3 = v3 % m;
 
         // Enforce distinct indices
         if(idx.h2 == idx.h1) {
diff --git a/mplang/kernels/py_kernels.py b/mplang/kernels/py_kernels.py
index aa7800e..69fbb8a 100644
--- a/mplang/kernels/py_kernels.py
+++ b/mplang/kernels/py_kernels.py
@@ -25,9 +25,8 @@ import numpy as np
 
 from mplang.libs.mpc.common.constants import (
     GOLDEN_RATIO_64,
+    SPLITMIX64_GAMMA_1,
     SPLITMIX64_GAMMA_2,
-    SPLITMIX64_GAMMA_3,
-    SPLITMIX64_GAMMA_4,
 )
 
 # =============================================================================
@@ -183,26 +182,32 @@ def gf128_mul_batch(a: np.ndarray, b: np.ndarray) -> np.ndarray:
 # =============================================================================
 
 
+def _mix64(x: int) -> int:
+    """SplitMix64 finalizer."""
+    mask = (1 << 64) - 1
+    x = (x + GOLDEN_RATIO_64) & mask
+    x = ((x ^ (x >> 30)) * SPLITMIX64_GAMMA_1) & mask
+    x = ((x ^ (x >> 27)) * SPLITMIX64_GAMMA_2) & mask
+    return x ^ (x >> 31)
+
+
 def _hash_key_py(key: int, m: int, seed: tuple[int, int]) -> tuple[int, int, int]:
-    """Hash a key to 3 distinct indices using simple polynomial hashing.
+    """Hash a key to 3 distinct indices.
 
     This is a pure Python approximation of the AES-based hash in C++.
     For compatibility, we use a deterministic hash based on the key.
     """
-    # Simple polynomial hash (not as secure as AES, but deterministic)
+    # Not as secure as AES, but deterministic and well mixed: every index depends
+    # on all bits of the key, and no index is determined by the others.
     s0, s1 = seed
 
-    # Mix key with seed
-    h1 = ((key * GOLDEN_RATIO_64) ^ s0) & ((1 << 64) - 1)
-    h2 = ((key * SPLITMIX64_GAMMA_2) ^ s1) & ((1 << 64) - 1)
-
-    # Additional mixing
-    h1 = ((h1 ^ (h1 >> 33)) * SPLITMIX64_GAMMA_3) & ((1 << 64) - 1)
-    h2 = ((h2 ^ (h2 >> 33)) * SPLITMIX64_GAMMA_4) & ((1 << 64) - 1)
+    h1 = _mix64(key ^ s0)
+    h2 = _mix64(h1 + s1)
+    h3 = _mix64(h2 + s0)
 
     idx1 = h1 % m
     idx2 = h2 % m
-    idx3 = (h1 ^ h2) % m
+    idx3 = h3 % m
 
     # Enforce distinct indices
     if idx2 == idx1:
-- 
2.43.0


From a21c8f4d6f69ab8490d05f6b5bdff3647778d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 65/82] fix: report OKVS stores that could not be built

The native solver only wrote to stderr and returned a store of zeros, which
decodes to zero for every key: private set intersection then silently
reported wrong members. The portable solver raises already.
---
 mplang/backends/field_impl.py | 4 +++-
 mplang/kernels/okvs.cpp       | 8 ++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index c5508fd..2547b1c 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -239,7 +239,7 @@ def _okvs_solve_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs(
+    status = lib.solve_okvs(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -247,6 +247,8 @@ def _okvs_solve_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if status != 0:
+        raise RuntimeError(f"OKVS core detected. Failed to peel all rows. n={n}, m={m}")
     return output
 
 
diff --git a/mplang/kernels/okvs.cpp b/mplang/kernels/okvs.cpp
index 8ab9ed1..e35b5e4 100644
--- a/mplang/kernels/okvs.cpp
+++ b/mplang/kernels/okvs.cpp
@@ -64,7 +64,8 @@ extern "C" {
     }
 
     // Solve OKVS System: H * P = V
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0 on success, 1 if the system could not be peeled (the output is zeroed).
+    int solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         // Load dynamic seed
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
@@ -174,11 +175,9 @@ extern "C" {
         }
 
         if(assignment_stack.size() != n) {
-            fprintf(stderr, "[ERROR] OKVS Peeling Failed. N=%lu M=%lu Solved=%lu\n",
-                    n, m, assignment_stack.size());
             // Zero output to identify failure clearly
             memset(output, 0, m * 16);
-            return;
+            return 1;
         }
 
         // 6. Back Substitution
@@ -202,6 +201,7 @@ extern "C" {
 
             _mm_storeu_si128(&P_vec[a.col], diff);
         }
+        return 0;
     }
 
     void decode_okvs(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
-- 
2.43.0


From 7616b6383954f7d1985040a72b376ccf9fcb8465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 66/82] fix: decode binned OKVS stores the way they were built

Whether a store was binned depended on how many keys the caller had, so a
large store decoded for a few keys gave other values. A bin that could not
be solved was solved with hashes the decoder does not use, and with 1024
bins that happened to practically every set of up to a million keys.
---
 mplang/backends/field_impl.py |  26 ++++----
 mplang/kernels/okvs_opt.cpp   | 115 +++++++++++++++++-----------------
 2 files changed, 67 insertions(+), 74 deletions(-)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index 2547b1c..55d380d 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -144,6 +144,12 @@ def _gf128_mul_impl(a: np.ndarray, b: np.ndarray) -> np.ndarray:
     return out
 
 
+# Mega-Binning only pays off for large stores (about 200k keys). Which scheme a store
+# is built with must follow from its size alone: whoever decodes it may hold any
+# number of keys.
+_MIN_BINNED_COLUMNS = 264_000
+
+
 def _okvs_solve_opt_impl(
     keys: np.ndarray, values: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
@@ -157,13 +163,7 @@ def _okvs_solve_opt_impl(
 
     n = keys.shape[0]
 
-    # Heuristic: Mega-Binning is unstable < 200k.
-    if n < 200_000:
-        return _okvs_solve_impl(keys, values, m, seed)
-
-    # Heuristic: Mega-Binning requires higher expansion (epsilon ~ 1.35)
-    # If m/n is too tight, fallback to Naive (which works with 1.25)
-    if m / n < 1.32:
+    if m < _MIN_BINNED_COLUMNS:
         return _okvs_solve_impl(keys, values, m, seed)
 
     keys_c = np.ascontiguousarray(keys, dtype=np.uint64)
@@ -171,7 +171,7 @@ def _okvs_solve_opt_impl(
     seed_c = np.ascontiguousarray(seed, dtype=np.uint64)
     output = np.zeros((m, 2), dtype=np.uint64)
 
-    lib.solve_okvs_opt(
+    status = lib.solve_okvs_opt(
         keys_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         values_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
         output.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
@@ -179,6 +179,8 @@ def _okvs_solve_opt_impl(
         m,
         seed_c.ctypes.data_as(ctypes.POINTER(ctypes.c_uint64)),
     )
+    if status != 0:
+        raise RuntimeError(f"OKVS core detected. Failed to peel all rows. n={n}, m={m}")
     return output
 
 
@@ -194,13 +196,7 @@ def _okvs_decode_opt_impl(
 
     n = keys.shape[0]
 
-    # Heuristic: Mega-Binning (1024 Bins) is unstable for small N due to variance.
-    # It requires ~1000 items/bin to be efficient and stable with epsilon=1.3.
-    # Threshold: 200,000 (approx 200 items/bin). Below this, Naive is fast enough (<50ms).
-    if n < 200_000:
-        return _okvs_decode_impl(keys, storage, m, seed)
-
-    if m / n < 1.32:
+    if m < _MIN_BINNED_COLUMNS:
         return _okvs_decode_impl(keys, storage, m, seed)
 
     keys_c = np.ascontiguousarray(keys, dtype=np.uint64)
diff --git a/mplang/kernels/okvs_opt.cpp b/mplang/kernels/okvs_opt.cpp
index fe9731c..5f76ee6 100644
--- a/mplang/kernels/okvs_opt.cpp
+++ b/mplang/kernels/okvs_opt.cpp
@@ -27,27 +27,33 @@
 
 extern "C" {
 
-    // Number of Bins for Mega-Binning strategy.
-    // 1024 bins implies ~1000 items per bin for N=1M, fitting the working set
-    // entirely in L1 cache (32KB/48KB) for maximum performance.
-    static const uint64_t NUM_BINS = 1024;
+    // Columns per bin and maximal number of bins of the Mega-Binning strategy.
+    // Bins must stay large: the number of keys that meet in a bin deviates from the
+    // average by its square root, and so does the chance that two keys of a bin share
+    // all their columns. (With 1024 bins, some bin fails for practically every set of
+    // up to a million keys.)
+    static const uint64_t BIN_COLUMNS = 1 << 17;
+    static const uint64_t MAX_BINS = 64;
+
+    // Number of bins of a store of m columns. Solver and decoder must agree on it,
+    // so that it must not depend on the keys at hand.
+    inline uint64_t num_bins(uint64_t m) {
+        uint64_t bins = m / BIN_COLUMNS;
+        return bins < 1 ? 1 : (bins > MAX_BINS ? MAX_BINS : bins);
+    }
 
     struct Indices {
         uint64_t h1, h2, h3;
     };
 
-    // Declaration of the safe (robust) solver implemented in okvs.cpp
-    // Signature: solve_okvs(keys, values, output, n, m, seed_ptr)
-    void solve_okvs(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr);
-
     // Stateless Bin Selection
-    // Maps a key to a deterministic bin index [0, NUM_BINS).
-    inline uint64_t get_bin_index(uint64_t key, __m128i seed) {
+    // Maps a key to a deterministic bin index [0, bins).
+    inline uint64_t get_bin_index(uint64_t key, uint64_t bins, __m128i seed) {
         __m128i k = _mm_set_epi64x(0, key);
         __m128i h = _mm_aesenc_si128(k, seed);
         h = _mm_aesenc_si128(h, seed);
         uint64_t v1 = _mm_extract_epi64(h, 0);
-        return v1 % NUM_BINS;
+        return v1 % bins;
     }
 
     // Generate 3 positions within a local bin of size m_local.
@@ -59,15 +65,12 @@ extern "C" {
         h = _mm_aesenc_si128(h, s2);
         h = _mm_aesenc_si128(h, s2);
 
-        uint64_t r = _mm_extract_epi64(h, 0);
         Indices idx;
-
-        // Fast modulo for local indices
-        idx.h1 = r % m_local;
-        r = r * 6364136223846793005ULL + 1442695040888963407ULL; // LCG step
-        idx.h2 = r % m_local;
-        r = r * 6364136223846793005ULL + 1442695040888963407ULL;
-        idx.h3 = r % m_local;
+        idx.h1 = (uint64_t)_mm_extract_epi64(h, 0) % m_local;
+        idx.h2 = (uint64_t)_mm_extract_epi64(h, 1) % m_local;
+        // One more round: no index may be determined by the others.
+        h = _mm_aesenc_si128(h, s2);
+        idx.h3 = (uint64_t)_mm_extract_epi64(h, 0) % m_local;
 
         // Ensure distinct indices
         if(idx.h2 == idx.h1) idx.h2 = (idx.h2 + 1) % m_local;
@@ -187,24 +190,27 @@ extern "C" {
         return true;
     }
 
-    void solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
+    // Returns 0 on success, 1 if the system could not be peeled (the output is zeroed).
+    int solve_okvs_opt(uint64_t* keys, uint64_t* values, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
         __m128i seed = _mm_loadu_si128((__m128i*)seed_ptr);
 
+        const uint64_t bins = num_bins(m);
+
         // 1. Calculate Bin Boundaries
         // We divide M evenly among bins. The remainder is distributed to the first few bins.
-        std::vector<uint64_t> bin_offsets(NUM_BINS + 1);
-        std::vector<uint64_t> m_per_bin(NUM_BINS);
+        std::vector<uint64_t> bin_offsets(bins + 1);
+        std::vector<uint64_t> m_per_bin(bins);
 
-        uint64_t base_m = m / NUM_BINS;
-        uint64_t remainder = m % NUM_BINS;
+        uint64_t base_m = m / bins;
+        uint64_t remainder = m % bins;
 
         uint64_t current_offset = 0;
-        for(uint64_t b=0; b<NUM_BINS; ++b) {
+        for(uint64_t b=0; b<bins; ++b) {
             bin_offsets[b] = current_offset;
             m_per_bin[b] = base_m + (b < remainder ? 1 : 0);
             current_offset += m_per_bin[b];
         }
-        bin_offsets[NUM_BINS] = m;
+        bin_offsets[bins] = m;
 
         // 2. Partition Data (Stateless)
         // Note on "Two-Choice Hashing":
@@ -217,20 +223,20 @@ extern "C" {
         // We mitigate the resulting variance ("Balls-in-Bins" problem) by using a slightly larger
         // expansion factor (epsilon ~ 1.35) which is bandwidth-acceptable and ensures stability.
 
-        std::vector<std::vector<uint64_t>> bin_keys(NUM_BINS);
-        std::vector<std::vector<__m128i>> bin_vals(NUM_BINS);
+        std::vector<std::vector<uint64_t>> bin_keys(bins);
+        std::vector<std::vector<__m128i>> bin_vals(bins);
 
         // Pre-allocate to reduce reallocation overhead (assume ~uniform distribution)
         // 1.5x margin for pre-allocation safety
-        size_t est_size = (n / NUM_BINS) * 3 / 2;
-        for(int b=0; b<NUM_BINS; ++b) {
+        size_t est_size = (n / bins) * 3 / 2;
+        for(uint64_t b=0; b<bins; ++b) {
             bin_keys[b].reserve(est_size);
             bin_vals[b].reserve(est_size);
         }
 
         const __m128i* V_ptr = (const __m128i*)values;
         for(uint64_t i=0; i<n; ++i) {
-            uint64_t b = get_bin_index(keys[i], seed);
+            uint64_t b = get_bin_index(keys[i], bins, seed);
             bin_keys[b].push_back(keys[i]);
             bin_vals[b].push_back(_mm_loadu_si128(&V_ptr[i]));
         }
@@ -241,32 +247,21 @@ extern "C" {
         memset(output, 0, m * 16);
         __m128i* P_vec = (__m128i*)output;
 
+        std::atomic<bool> failed(false);
+
         #pragma omp parallel for schedule(dynamic)
-        for(uint64_t b=0; b<NUM_BINS; ++b) {
+        for(uint64_t b=0; b<bins; ++b) {
             if(bin_keys[b].empty()) continue;
-
-            uint64_t offset = bin_offsets[b];
-            uint64_t valid_m = m_per_bin[b];
-
-            if(!solve_bin(bin_keys[b], bin_vals[b], &P_vec[offset], valid_m, seed)) {
-                // On failure, log and fall back to the robust solver for this bin.
-                // The fallback is executed inside a critical section to avoid nested OpenMP
-                // regions and to serialize rare fallbacks.
-                #pragma omp critical
-                {
-                    fprintf(stderr, "[WARN] Bin %lu failed optimized peeling; falling back to safe solver. Items: %lu / M: %lu (Ratio: %.2f)\n",
-                        b, bin_keys[b].size(), valid_m, (double)valid_m / bin_keys[b].size());
-
-                    // Prepare pointers for the safe solver
-                    uint64_t* keys_ptr = &bin_keys[b][0];
-                    uint64_t* vals_ptr = (uint64_t*)&bin_vals[b][0];  // Cast __m128i* to uint64_t*
-                    uint64_t* out_ptr = output + (offset * 2ULL); // each 128-bit slot == 2 uint64_t
-
-                    // Call the safe solver implemented in okvs.cpp
-                    solve_okvs(keys_ptr, vals_ptr, out_ptr, bin_keys[b].size(), valid_m, seed_ptr);
-                }
+            if(!solve_bin(bin_keys[b], bin_vals[b], &P_vec[bin_offsets[b]], m_per_bin[b], seed)) {
+                failed = true;
             }
         }
+
+        if(failed) {
+            memset(output, 0, m * 16);
+            return 1;
+        }
+        return 0;
     }
 
     void decode_okvs_opt(uint64_t* keys, uint64_t* storage, uint64_t* output, uint64_t n, uint64_t m, uint64_t* seed_ptr) {
@@ -274,13 +269,15 @@ extern "C" {
         __m128i* P_vec = (__m128i*)storage;
         __m128i* out_vec = (__m128i*)output;
 
+        const uint64_t bins = num_bins(m);
+
         // Replicate Boundary Logic
-        std::vector<uint64_t> bin_offsets(NUM_BINS + 1);
-        std::vector<uint64_t> m_per_bin(NUM_BINS);
-        uint64_t base_m = m / NUM_BINS;
-        uint64_t remainder = m % NUM_BINS;
+        std::vector<uint64_t> bin_offsets(bins + 1);
+        std::vector<uint64_t> m_per_bin(bins);
+        uint64_t base_m = m / bins;
+        uint64_t remainder = m % bins;
         uint64_t current_offset = 0;
-        for(uint64_t b=0; b<NUM_BINS; ++b) {
+        for(uint64_t b=0; b<bins; ++b) {
             bin_offsets[b] = current_offset;
             m_per_bin[b] = base_m + (b < remainder ? 1 : 0);
             current_offset += m_per_bin[b];
@@ -289,7 +286,7 @@ extern "C" {
         // Parallel Stateless Decode
         #pragma omp parallel for schedule(static)
         for(uint64_t i=0; i<n; ++i) {
-            uint64_t b = get_bin_index(keys[i], seed);
+            uint64_t b = get_bin_index(keys[i], bins, seed);
 
             uint64_t m_local = m_per_bin[b];
             uint64_t offset = bin_offsets[b];
-- 
2.43.0


From 6b195ccd0107cd497ef3cafa991314955aa20bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:28 +0000
Subject: [PATCH 67/82] fix: refuse keys, values and stores of sizes that do
 not fit together

The native OKVS kernels read beyond the smaller operand; both ignored extra
values.
---
 mplang/backends/field_impl.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mplang/backends/field_impl.py b/mplang/backends/field_impl.py
index 55d380d..aae6fee 100644
--- a/mplang/backends/field_impl.py
+++ b/mplang/backends/field_impl.py
@@ -144,6 +144,17 @@ def _gf128_mul_impl(a: np.ndarray, b: np.ndarray) -> np.ndarray:
     return out
 
 
+def _check_okvs_operands(
+    keys: np.ndarray, cells: np.ndarray, num_cells: int, seed: np.ndarray
+) -> None:
+    """Refuse operands the kernels (which know no bounds) would misread."""
+    if keys.size != keys.shape[0] or cells.shape != (num_cells, 2) or seed.size != 2:
+        raise ValueError(
+            f"OKVS kernels expect (N,) keys, ({num_cells}, 2) values or storage "
+            f"and a (2,) seed, got {keys.shape}, {cells.shape} and {seed.shape}"
+        )
+
+
 # Mega-Binning only pays off for large stores (about 200k keys). Which scheme a store
 # is built with must follow from its size alone: whoever decodes it may hold any
 # number of keys.
@@ -153,6 +164,7 @@ _MIN_BINNED_COLUMNS = 264_000
 def _okvs_solve_opt_impl(
     keys: np.ndarray, values: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_operands(keys, values, keys.shape[0], seed)
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
@@ -187,6 +199,7 @@ def _okvs_solve_opt_impl(
 def _okvs_decode_opt_impl(
     keys: np.ndarray, storage: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_operands(keys, storage, m, seed)
     lib = _get_lib()
     if seed.ndim > 1:
         seed = seed.flatten()
@@ -218,6 +231,7 @@ def _okvs_decode_opt_impl(
 def _okvs_solve_impl(
     keys: np.ndarray, values: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_operands(keys, values, keys.shape[0], seed)
     lib = _get_lib()
     # Ensure seed is flat tuple or array
     if seed.ndim > 1:
@@ -251,6 +265,7 @@ def _okvs_solve_impl(
 def _okvs_decode_impl(
     keys: np.ndarray, storage: np.ndarray, m: int, seed: np.ndarray
 ) -> np.ndarray:
+    _check_okvs_operands(keys, storage, m, seed)
     lib = _get_lib()
     # Ensure seed is flat tuple or array
     if seed.ndim > 1:
-- 
2.43.0


From 337eb8a6d3b9cac9a0987f35ef53fbfa2858eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 68/82] fix: give every chunk of a silent VOLE its own masks

Chunks of 100000 positions were all expanded from the same seeds, so the
vectors repeated with that period.
---
 mplang/libs/mpc/ot/silent.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mplang/libs/mpc/ot/silent.py b/mplang/libs/mpc/ot/silent.py
index 917d0ba..cf1885a 100644
--- a/mplang/libs/mpc/ot/silent.py
+++ b/mplang/libs/mpc/ot/silent.py
@@ -173,10 +173,9 @@ def silent_vole_random_u(
 
         master_seed = tensor.run_jax(_view_slice_reshape, seed_val)
 
-        # Expand to K seeds: (1, K, 2)
-        row_seeds_packed = field.aes_expand(master_seed, base_k)
-        # Reshape using run_jax for XLA optimization
-        row_seeds = tensor.run_jax(lambda x: x.reshape(base_k, 2), row_seeds_packed)
+        # Expand to K seeds per chunk (no two chunks may share their masks):
+        # (1, chunks * K, 2)
+        row_seeds_packed = field.aes_expand(master_seed, num_chunks * base_k)
 
         # Iterate chunks
         local_res = []
@@ -186,6 +185,12 @@ def silent_vole_random_u(
             # Generate mask for this chunk using AES
             # Need ceil(this_len / 128) blocks
             num_blocks = (this_len + 127) // 128
+
+            # Slice and reshape using run_jax for XLA optimization
+            def _chunk_seeds(x: Any, first: int = i * base_k) -> Any:
+                return x.reshape(-1, 2)[first : first + base_k]
+
+            row_seeds = tensor.run_jax(_chunk_seeds, row_seeds_packed)
             mask_packed = field.aes_expand(row_seeds, num_blocks)
 
             # We must use `tensor.run_jax` so logic runs on device
-- 
2.43.0


From 01d5b3584af7feee345788c08713554ba3072018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 69/82] fix: place sparse noise at exactly the asked number of
 positions

The offset of a position counted earlier positions out of order, so a
position could be drawn twice and the noise was lighter than stated.
---
 mplang/libs/mpc/vole/ldpc.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/mplang/libs/mpc/vole/ldpc.py b/mplang/libs/mpc/vole/ldpc.py
index 840e32a..2afd7fb 100644
--- a/mplang/libs/mpc/vole/ldpc.py
+++ b/mplang/libs/mpc/vole/ldpc.py
@@ -285,6 +285,9 @@ def generate_sparse_noise(n: int, weight: int) -> el.Object:
     Returns:
         (n, 2) uint64 tensor with exactly `weight` non-zero 128-bit elements
     """
+    if not 0 < weight <= n:
+        raise ValueError(f"Cannot place {weight} non-zero elements in {n} positions.")
+
     # Phase 1: Generate runtime entropy
     # 8 bytes per position (for index selection) + 16 bytes per value
     entropy_needed = weight * 8 + weight * 16
@@ -298,20 +301,20 @@ def generate_sparse_noise(n: int, weight: int) -> el.Object:
             ent[weight * 8 :].view(jnp.uint64).reshape(weight, 2)
         )  # (weight, 2)
 
-        # Generate unique indices using rejection-free Fisher-Yates-like approach
-        # Map random u64 to positions while ensuring uniqueness
+        # Generate unique indices using Floyd's rejection-free sampling: every
+        # set of `weight` positions is equally likely
         # Use int64 to avoid dtype mismatch warning in scatter operations
         positions = jnp.zeros(weight, dtype=jnp.int64)
 
         # Build positions array (unrolled for JAX compatibility)
         for i in range(weight):
-            # Map random value to remaining range [0, n-i)
-            pos = jnp.int64(idx_entropy[i] % (n - i))
+            # Map random value to the range [0, last]
+            last = n - weight + i
+            pos = jnp.int64(idx_entropy[i] % (last + 1))
 
-            # Shift position to avoid already-used indices
-            # Count how many existing positions are <= current pos
-            offset = jnp.sum(positions[:i] <= pos)
-            pos = pos + offset
+            # Take `last` itself (unused so far) if the position is already used
+            used = jnp.any(positions[:i] == pos)
+            pos = jnp.where(used, last, pos)
 
             positions = positions.at[i].set(pos)
 
-- 
2.43.0


From 1f925d4002474bcc70559a6f296af5de48308fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:47 +0000
Subject: [PATCH 70/82] fix: make bits_to_bytes the inverse of bytes_to_bits,
 rows kept

bytes_to_bits flattened its operand and wrote the lowest bit first,
bits_to_bytes read the highest bit first.
---
 mplang/libs/mpc/_utils.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mplang/libs/mpc/_utils.py b/mplang/libs/mpc/_utils.py
index 1ef0e9d..d816941 100644
--- a/mplang/libs/mpc/_utils.py
+++ b/mplang/libs/mpc/_utils.py
@@ -33,24 +33,20 @@ def bytes_to_bits(data: el.Object) -> el.Object:
     def _to_bits(arr: Any) -> Any:
         # View as u8
         y_u8 = arr.view(jnp.uint8)
-        # Unpack produces Big Endian bits [b7, b6, ..., b0] per byte
-        bits = jnp.unpackbits(y_u8)
-        # Reshape to (N, 8) and flip to get [b0, ..., b7]
-        bits = bits.reshape(-1, 8)
-        bits = jnp.fliplr(bits)
-        return bits.reshape(-1)
+        # Unpack to [b0, ..., b7] per byte
+        return jnp.unpackbits(y_u8, axis=-1, bitorder="little")
 
     return cast(el.Object, tensor.run_jax(_to_bits, data))
 
 
 def bits_to_bytes(bits: el.Object) -> el.Object:
-    """Convert bits to bytes.
+    """Convert bits to bytes (the inverse of `bytes_to_bits`).
 
     Output shape logic: (..., N * 8) -> (..., N)
     """
 
     def _to_bytes(arr: Any) -> Any:
-        return jnp.packbits(arr, axis=-1)
+        return jnp.packbits(arr, axis=-1, bitorder="little")
 
     return cast(el.Object, tensor.run_jax(_to_bytes, bits))
 
-- 
2.43.0


From 4191de40208c472e5260a71a57ff9455e1ad04f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 71/82] fix: evaluate the oblivious PRF of a single candidate

The result was flattened with a slice of the wrong rank, which always failed.
---
 mplang/libs/mpc/psi/oprf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index 45791e7..a2e71a5 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -304,7 +304,7 @@ def sender_eval_prf(
             raw_out_batch, domain_sep=0x0CDF, num_rows=1
         )
 
-        # Flatten back to (32,) using slice to avoid extra run_jax node
-        return tensor.slice_tensor(hashed_batch, (0, 0), (32,))
+        # Flatten back to (32,) using reshape to avoid extra run_jax node
+        return tensor.reshape(hashed_batch, (32,))
 
     return cast(el.Object, simp.pcall_static((sender,), _eval, sender_key, candidate))
-- 
2.43.0


From 4158b7a441fd744abf31d869a8586fb3871d695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 72/82] fix: refuse PRF evaluations of more items than the key
 has rows

Such items were all given the same output.
---
 mplang/libs/mpc/psi/oprf.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index a2e71a5..2da4e7f 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -223,6 +223,8 @@ def sender_eval_prf_batch(
             t_matrix, s = key_tuple
             M = x.shape[0]
             N = t_matrix.shape[0]
+            if M > N:
+                raise ValueError(f"Cannot evaluate {M} items with a key of {N} rows.")
 
             # Encode items to get choice bits
             # Unpack: (M, 16) -> (M, 128) bits
@@ -234,21 +236,13 @@ def sender_eval_prf_batch(
             code_masked = jnp.where(codes, s, 0).astype(t_matrix.dtype)
 
             # Use row i for item i
-            M_clipped = min(M, N)
-            t_rows = t_matrix[:M_clipped]  # (M_clipped, K)
+            t_rows = t_matrix[:M]  # (M, K)
 
-            # KKRT: output = T[i] XOR (first_bit[i] · s)
-            xored = jnp.bitwise_xor(t_rows, code_masked[:M_clipped])  # (M_clipped, K)
+            # KKRT: output = T[i] XOR (code[i] · s)
+            xored = jnp.bitwise_xor(t_rows, code_masked)  # (M, K)
 
             # Pack to bytes
-            packed = jnp.packbits(xored, axis=1)  # (M_clipped, 16)
-
-            # Pad if needed
-            if M > N:
-                padding = jnp.zeros((M - N, 16), dtype=packed.dtype)
-                packed = jnp.concatenate([packed, padding], axis=0)
-
-            return packed
+            return jnp.packbits(xored, axis=1)  # (M, 16)
 
         raw_outputs = cast(el.Object, tensor.run_jax(_eval, key, items))
 
-- 
2.43.0


From 584745d22e433db0b3502cb06d492df4a93315b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 73/82] fix: encode PRF items by their hash

The bits of an item were used as its code, so items that differ in few bits
got the same output whenever the sender's secret was zero there.
---
 mplang/libs/mpc/psi/oprf.py | 67 ++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/mplang/libs/mpc/psi/oprf.py b/mplang/libs/mpc/psi/oprf.py
index 2da4e7f..f9568b7 100644
--- a/mplang/libs/mpc/psi/oprf.py
+++ b/mplang/libs/mpc/psi/oprf.py
@@ -29,6 +29,22 @@ from mplang.dialects import simp, tensor
 from mplang.libs.mpc.ot import extension as ot_extension
 
 
+def _encode_items(items: Any, num_items: int) -> el.Object:
+    """Encode (N, 16) byte items to (N, 128) bit codes.
+
+    The codes of different items must differ in many bits: where they differ is
+    where the sender's secret enters the output. So the code of an item is its
+    hash, not its bits.
+    """
+    hashes = ot_extension.vec_hash(items, domain_sep=0x0C0D, num_rows=num_items)
+
+    def _unpack(h: Any) -> Any:
+        # (N, 32) -> (N, 128): unpack the first 16 bytes to 8 bits each
+        return jnp.unpackbits(h[:, :16], axis=1)
+
+    return cast(el.Object, tensor.run_jax(_unpack, hashes))
+
+
 def eval_oprf(
     receiver_inputs: el.Object,  # (N, 16) bytes
     sender: int,
@@ -83,29 +99,18 @@ def eval_oprf(
         - sender_key: (T, s) tuple on sender - T is (N, K) bit matrix, s is (K,)
         - receiver_outputs: (N, 32) byte tensor of OPRF outputs on receiver (SHA256)
     """
-    K = 128  # Security parameter (OT extension width)
-
     # ═════════════════════════════════════════════════════════════════════════
     # Step 1: Encode receiver's inputs to choice bits for IKNP
     # ═════════════════════════════════════════════════════════════════════════
     # For each input x_i, we need K choice bits for IKNP OT Extension.
-    # We use a deterministic encoding: unpack bytes to bits.
+    # We use a deterministic encoding: unpack the item's hash to bits.
 
     def encode_inputs(inputs: el.Object) -> el.Object:
         """Encode (N, 16) byte inputs to (N, K) bit codes.
 
-        Each 16-byte input is unpacked to 128 bits.
         These bits serve as the receiver's OT choices.
         """
-
-        def _encode(x: Any) -> Any:
-            # x: (N, 16) uint8 array
-            # Unpack each byte to 8 bits: (N, 16) -> (N, 128)
-            unpacked = jnp.unpackbits(x, axis=1)  # (N, 128)
-            # Ensure exactly K bits
-            return unpacked[:, :K].astype(jnp.uint8)  # (N, K)
-
-        return cast(el.Object, tensor.run_jax(_encode, inputs))
+        return _encode_items(inputs, num_items)
 
     choice_codes = simp.pcall_static((receiver,), encode_inputs, receiver_inputs)
     # choice_codes: (N, K) bit matrix on receiver
@@ -214,22 +219,18 @@ def sender_eval_prf_batch(
     Returns:
         (M, 32) byte tensor of PRF outputs on sender.
     """
-    K = 128
 
     def compute_sender_outputs(key: el.Object, items: el.Object) -> el.Object:
         """Compute sender's PRF outputs using KKRT formula."""
 
-        def _eval(key_tuple: Any, x: Any) -> Any:
+        def _eval(key_tuple: Any, codes: Any) -> Any:
+            # codes: (M, K), the encoded items
             t_matrix, s = key_tuple
-            M = x.shape[0]
+            M = codes.shape[0]
             N = t_matrix.shape[0]
             if M > N:
                 raise ValueError(f"Cannot evaluate {M} items with a key of {N} rows.")
 
-            # Encode items to get choice bits
-            # Unpack: (M, 16) -> (M, 128) bits
-            codes = jnp.unpackbits(x, axis=1)[:, :K]  # (M, K)
-
             # Compute (codes · s) for each item
             # Masking s with item codes ensures result depends on EVERY bit
             # codes: (M, K), s: (K,) -> broadcast to (M, K)
@@ -244,7 +245,8 @@ def sender_eval_prf_batch(
             # Pack to bytes
             return jnp.packbits(xored, axis=1)  # (M, 16)
 
-        raw_outputs = cast(el.Object, tensor.run_jax(_eval, key, items))
+        codes = _encode_items(items, num_items)
+        raw_outputs = cast(el.Object, tensor.run_jax(_eval, key, codes))
 
         return ot_extension.vec_hash(raw_outputs, domain_sep=0x0CDF, num_rows=num_items)
 
@@ -271,27 +273,22 @@ def sender_eval_prf(
     Returns:
         (32,) byte tensor of PRF output on sender.
     """
-    K = 128
 
     def _eval(key: el.Object, cand: el.Object) -> el.Object:
-        def _compute(key_tuple: Any, c: Any) -> Any:
+        def _compute(key_tuple: Any, code: Any) -> Any:
+            # code: (1, K), the encoded candidate
             t_matrix, s = key_tuple
 
-            # Encode candidate to K bits
-            code = jnp.unpackbits(c)[:K]  # (K,)
-
             # KKRT formula: output = pack(t_row XOR (code * s))
-            t_row = t_matrix[0]  # (K,) - use first row
-            code_masked = jnp.bitwise_and(code, s)  # (K,)
-            xored = jnp.bitwise_xor(t_row, code_masked)  # (K,)
-
-            # Pack to bytes
-            packed = jnp.packbits(xored)  # (16,)
+            t_row = t_matrix[:1]  # (1, K) - use first row
+            code_masked = jnp.bitwise_and(code, s)  # (1, K)
+            xored = jnp.bitwise_xor(t_row, code_masked)  # (1, K)
 
-            # Reshape to (1, 16) for vec_hash
-            return packed.reshape(1, 16)
+            # Pack to bytes: (1, 16) for vec_hash
+            return jnp.packbits(xored, axis=1)
 
-        raw_out_batch = cast(el.Object, tensor.run_jax(_compute, key, cand))
+        code = _encode_items(tensor.reshape(cand, (1, 16)), 1)
+        raw_out_batch = cast(el.Object, tensor.run_jax(_compute, key, code))
 
         # Use batched hash with num_rows=1
         hashed_batch = ot_extension.vec_hash(
-- 
2.43.0


From 19bec85ea2828a283deed33f5e2e15a2ed602dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:16 +0000
Subject: [PATCH 74/82] fix: select whole elements in the dense LDPC encoding

The 0/1 matrix entries were used as bit masks, which kept only the lowest bit
of each word.
---
 mplang/libs/mpc/vole/ldpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mplang/libs/mpc/vole/ldpc.py b/mplang/libs/mpc/vole/ldpc.py
index 2afd7fb..04607b3 100644
--- a/mplang/libs/mpc/vole/ldpc.py
+++ b/mplang/libs/mpc/vole/ldpc.py
@@ -348,14 +348,14 @@ def ldpc_encode_dense_jax(message: el.Object, H_dense: el.Object) -> el.Object:
         # msg: (N, 2)
         # h:   (M, N)
 
-        # Broadcast for element-wise AND
+        # Broadcast for element-wise selection (h is 0/1)
         # msg: (1, N, 2) -> Broadcasts across M rows
         # h:   (M, N, 1) -> Broadcasts across 2 columns
         msg_broad = msg.reshape(1, msg.shape[0], 2)
         h_broad = h.reshape(h.shape[0], h.shape[1], 1).astype(jnp.uint64)
 
         # Select active message elements
-        terms = jnp.bitwise_and(msg_broad, h_broad)
+        terms = msg_broad * h_broad
 
         # Reduce: Sum (XOR) across N (axis 1)
         # Using scan for memory efficiency over direct reduce
-- 
2.43.0


From 17fd6e1597cbeecb01d42e3fb3ca8dcf2e9c303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:41 +0000
Subject: [PATCH 75/82] fix: share only integers in group-by sums, unsigned
 ones exactly

Masks of 64 bits were subtracted from floating-point data, or turned unsigned
data into floating-point data, which lost the data in rounding.
---
 mplang/libs/mpc/analytics/groupby.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mplang/libs/mpc/analytics/groupby.py b/mplang/libs/mpc/analytics/groupby.py
index 101d517..0efeb16 100644
--- a/mplang/libs/mpc/analytics/groupby.py
+++ b/mplang/libs/mpc/analytics/groupby.py
@@ -277,9 +277,11 @@ def oblivious_groupby_sum_shuffle(
         mask_bytes = crypto.random_bytes(total_bytes)
 
         def _apply_mask(arr, m_bytes):
-            # View random bytes as int64 (same as typical input dtype)
-            # For generality, we use arr.dtype, but assume int64 for now.
-            mask = m_bytes.view(jnp.int64).reshape(arr.shape)
+            # Shares are 64-bit integers: only they add up exactly.
+            if jnp.issubdtype(arr.dtype, jnp.inexact):
+                raise TypeError(f"Data must be integers, got {arr.dtype}.")
+            dtype = jnp.uint64 if arr.dtype == jnp.uint64 else jnp.int64
+            mask = m_bytes.view(dtype).reshape(arr.shape)
             d0 = arr - mask
             d1 = mask
             return d0, d1
-- 
2.43.0


From 3eec74ff2595c81d7ec7cd965daec1ed3bf3a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 76/82] fix: refuse to evaluate a trace with other structure or
 constants

---
 mplang/edsl/tracer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index 7b5e019..a0e2a36 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -369,6 +369,10 @@ class Tracer(Context):
         return var_demorph(trace_objects, out_morph)
 
 
+def _same_constant(a: Any, b: Any) -> bool:
+    return a is b or (type(a) is type(b) and np.array_equal(a, b))
+
+
 @dataclass
 class TracedFunction:
     """Result of tracing a Python function into Graph IR.
@@ -472,7 +476,7 @@ class TracedFunction:
         if self.out_tree != other.out_tree or self.out_var_pos != other.out_var_pos:
             return False
         if not all(
-            a is b or (type(a) is type(b) and np.array_equal(a, b))
+            _same_constant(a, b)
             for a, b in zip(self.out_imms, other.out_imms, strict=True)
         ):
             return False
@@ -565,7 +569,19 @@ class TracedFunction:
             List of values corresponding to graph.inputs (may include InterpObject).
             The caller is responsible for unwrapping InterpObject at execution boundary.
         """
-        flat_args, _ = tree_flatten((args, kwargs))
+        flat_args, tree = tree_flatten((args, kwargs))
+        if tree != self.in_tree:
+            raise ValueError(
+                f"Arguments of '{self.name}' are structured as {tree}, "
+                f"but it was traced with {self.in_tree}."
+            )
+        constants = [a for i, a in enumerate(flat_args) if i not in self.in_var_pos]
+        for given, traced in zip(constants, self.in_imms, strict=True):
+            if not _same_constant(given, traced):
+                raise ValueError(
+                    f"'{self.name}' was traced with the constant {traced!r} and "
+                    f"cannot be evaluated with {given!r}; trace it again."
+                )
 
         # Map to graph inputs using var positions from in_morph
         # Note: graph.inputs = [explicit_inputs...] + [captured_inputs...]
-- 
2.43.0


From a5a88f8aa1e54f5b8a69d23d5a6f53994cd6747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 77/82] fix: refuse to evaluate a trace with values of other
 types

---
 mplang/__init__.py    |  3 ++-
 mplang/edsl/tracer.py | 32 +++++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/mplang/__init__.py b/mplang/__init__.py
index 7cee11f..8db0755 100644
--- a/mplang/__init__.py
+++ b/mplang/__init__.py
@@ -148,7 +148,7 @@ def evaluate(
         >>> # Or explicitly:
         >>> result = mp.evaluate(traced, context=sim)
     """
-    from mplang.edsl.tracer import TracedFunction
+    from mplang.edsl.tracer import TracedFunction, check_inputs
     from mplang.runtime.interpreter import InterpObject
 
     interp = _get_context(context)
@@ -180,6 +180,7 @@ def evaluate(
                     f"expected {fn.signature.input_arity}, got {len(args)}."
                 )
 
+            check_inputs(fn.name or "program", fn.graph, list(args))
             return eval_graph(fn.graph, list(args))
 
         if isinstance(fn, TracedFunction):
diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index a0e2a36..fc9bba5 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -36,7 +36,7 @@ from mplang.edsl.context import Context
 from mplang.edsl.graph import Graph
 from mplang.edsl.graph import Value as GraphValue
 from mplang.edsl.object import Object
-from mplang.edsl.typing import BaseType
+from mplang.edsl.typing import BaseType, MPType, TensorType
 from mplang.utils.func_utils import MorphStruct, var_demorph, var_morph
 from mplang.utils.logging import get_logger
 
@@ -373,6 +373,35 @@ def _same_constant(a: Any, b: Any) -> bool:
     return a is b or (type(a) is type(b) and np.array_equal(a, b))
 
 
+def _accepts(expected: BaseType, given: BaseType) -> bool:
+    """Whether a graph input takes a value; dynamic dimensions take any."""
+    if isinstance(expected, MPType) and isinstance(given, MPType):
+        return expected.parties == given.parties and _accepts(
+            expected.value_type, given.value_type
+        )
+    if isinstance(expected, TensorType) and isinstance(given, TensorType):
+        return (
+            expected.element_type == given.element_type
+            and len(expected.shape) == len(given.shape)
+            and all(
+                a == b or -1 in (a, b)
+                for a, b in zip(expected.shape, given.shape, strict=True)
+            )
+        )
+    return expected == given
+
+
+def check_inputs(name: str, graph: Graph, args: list[Any]) -> None:
+    """Refuse arguments whose type is not that of the graph's leading inputs."""
+    for i, arg in enumerate(args):
+        expected = graph.inputs[i].type
+        if isinstance(arg, Object) and not _accepts(expected, arg.type):
+            raise TypeError(
+                f"'{name}' was traced with {expected} as argument {i} and cannot "
+                f"be evaluated with {arg.type}."
+            )
+
+
 @dataclass
 class TracedFunction:
     """Result of tracing a Python function into Graph IR.
@@ -586,6 +615,7 @@ class TracedFunction:
         # Map to graph inputs using var positions from in_morph
         # Note: graph.inputs = [explicit_inputs...] + [captured_inputs...]
         explicit_inputs = [flat_args[i] for i in self.in_morph[1]]
+        check_inputs(self.name, self.graph, explicit_inputs)
         all_inputs = explicit_inputs + list(self.captured)
         return all_inputs
 
-- 
2.43.0


From 0b6e280a73d90275353eb16058170cf43c2b6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:21 +0000
Subject: [PATCH 78/82] fix: refuse calls of traced functions with arguments
 that do not fit

---
 mplang/dialects/func.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mplang/dialects/func.py b/mplang/dialects/func.py
index e2fdcc0..cc8f25d 100644
--- a/mplang/dialects/func.py
+++ b/mplang/dialects/func.py
@@ -26,6 +26,7 @@ from typing import Any
 
 import mplang.edsl as el
 import mplang.edsl.typing as elt
+from mplang.edsl.tracer import check_inputs
 from mplang.utils.func_utils import var_demorph
 
 func_def_p = el.Primitive[el.TraceObject]("func.func")
@@ -87,6 +88,13 @@ def _call_trace(fn_handle: el.TraceObject, *args: Any) -> Any:
     fn_op = fn_handle._graph_value.defining_op
     if fn_op is None:
         raise ValueError("Function handle has no defining operation")
+    region = fn_op.regions[0]
+    if len(args) != len(region.inputs):
+        raise ValueError(
+            f"func.call gives {len(args)} arguments to a function of "
+            f"{len(region.inputs)}"
+        )
+    check_inputs(fn_op.attrs.get("sym_name", "function"), region, list(args))
     output_types = fn_op.attrs.get("output_types", [elt.TensorType(elt.i64, ())])
     out_morph = fn_op.attrs.get("out_morph")
 
-- 
2.43.0


From 692cc4184695320938be9debc66671e508de60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:40 +0000
Subject: [PATCH 79/82] fix: trace the operations of a synchronous run, as the
 simulator's tracing and --profile promise

---
 mplang/runtime/interpreter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mplang/runtime/interpreter.py b/mplang/runtime/interpreter.py
index dca477f..5dcbc23 100644
--- a/mplang/runtime/interpreter.py
+++ b/mplang/runtime/interpreter.py
@@ -989,7 +989,12 @@ class Interpreter(AbstractInterpreter):
                 # Pass interpreter to support recursive execution (HOFs)
                 # Pass op to access attributes and regions
                 # Pass args as runtime values
-                results = handler(self, op, *args)
+                if self.tracer:
+                    start_ts = self.tracer.log_start(op, pid=self.trace_pid)
+                    results = handler(self, op, *args)
+                    self.tracer.log_end(op, start_ts, pid=self.trace_pid)
+                else:
+                    results = handler(self, op, *args)
             else:
                 raise NotImplementedError(
                     f"No implementation registered for opcode: {op.opcode}"
-- 
2.43.0


From 8aae9d1129da16cbeff0dc336d3873bf42d0a2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:26 +0000
Subject: [PATCH 80/82] fix: refuse a quote whose key does not fit its suite,
 however it arrives

---
 mplang/backends/tee_impl.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mplang/backends/tee_impl.py b/mplang/backends/tee_impl.py
index 309b702..45ea891 100644
--- a/mplang/backends/tee_impl.py
+++ b/mplang/backends/tee_impl.py
@@ -111,9 +111,15 @@ class MockQuoteValue(Value):
             fields.append(rest[1 : 1 + rest[0]])
             rest = rest[1 + rest[0] :]
         platform, suite = (f.decode("utf-8") for f in fields)
-        if not rest or (suite == "x25519" and len(rest) != 32):
-            raise ValueError(f"Malformed TEE quote: key of {len(rest)} bytes")
-        return cls(platform=platform, bound_pk=rest, suite=suite)
+        quote = cls(platform=platform, bound_pk=rest, suite=suite)
+        quote.check_key()
+        return quote
+
+    def check_key(self) -> None:
+        """Raise ValueError if the bound key cannot be one of its suite."""
+        size = len(self.bound_pk)
+        if not size or (self.suite == "x25519" and size != 32):
+            raise ValueError(f"Malformed TEE quote: key of {size} bytes")
 
 
 # ==============================================================================
@@ -200,6 +206,7 @@ def _attest_impl(
     # Handle different quote formats
     if isinstance(quote, MockQuoteValue):
         mock_quote = quote
+        mock_quote.check_key()
     elif isinstance(quote, BytesValue):
         mock_quote = MockQuoteValue.from_bytes(quote.unwrap())
     elif isinstance(quote, (bytes, bytearray, np.ndarray)):
-- 
2.43.0


From 5a1d99a2c2ded0e68de856f278966883a1ab5e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:55 +0000
Subject: [PATCH 81/82] fix: refuse to decode unencrypted BFV plaintexts beyond
 int64 instead of wrapping them

---
 mplang/backends/bfv_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mplang/backends/bfv_impl.py b/mplang/backends/bfv_impl.py
index a21f8cb..94e25e1 100644
--- a/mplang/backends/bfv_impl.py
+++ b/mplang/backends/bfv_impl.py
@@ -409,7 +409,10 @@ def decode_impl(
 ) -> TensorValue:
     if isinstance(plaintext, TensorValue):
         # "Logical Plaintext" (from encode_impl): fill the remaining slots
-        raw = plaintext.unwrap().astype(np.int64)
+        raw = np.asarray(plaintext.unwrap())
+        if raw.dtype == np.uint64 and np.any(raw > np.iinfo(np.int64).max):
+            raise OverflowError("Plaintext contains values that do not fit into int64")
+        raw = raw.astype(np.int64)
         return TensorValue.wrap(
             np.pad(raw, (0, encoder["poly_modulus_degree"] - raw.size))
         )
-- 
2.43.0


From 822f82f75a5900706ad0764a1aee62202144cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 82/82] fix: give tracers the state slots of every context, so
 that state can be looked up inside a trace

---
 mplang/edsl/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mplang/edsl/tracer.py b/mplang/edsl/tracer.py
index fc9bba5..2cb2e1d 100644
--- a/mplang/edsl/tracer.py
+++ b/mplang/edsl/tracer.py
@@ -96,6 +96,7 @@ class Tracer(Context):
     """
 
     def __init__(self) -> None:
+        super().__init__()
         self.reset()
 
     def reset(self) -> None:
-- 
2.43.0

