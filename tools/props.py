"""Source of properties.jsonl (python3 tools/props.py)."""
import json, pathlib

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)


p("S01", "Serialization returns the value that went in, in every wire format",
  "Any value, type, program graph or container the system can send or store is read back equal to what was written (same kind, dtype, shape, bits, key order-insensitive mapping content, and nesting), in the JSON, base64 and binary formats alike. The formats agree with each other, and serializing never changes the original.",
  ["inputs"], "every nesting of every serializable value: numbers, strings, bytes, lists, tuples, dicts, numpy arrays of any dtype/shape/layout, tables, keys, ciphertexts, types, graphs",
  "tests serialize a few hand-picked values, mostly in one format and with contiguous non-empty arrays",
  ["mplang/edsl/serde.py", "mplang/runtime/value.py", "mplang/backends/tensor_impl.py", "mplang/backends/table_impl.py", "mplang/backends/crypto_impl.py", "mplang/backends/bfv_impl.py", "mplang/backends/phe_impl.py"],
  [("tagged encoding to_json/from_json and the class registry", "mplang/edsl/serde.py"), ("binary container with out-of-band segments", "mplang/edsl/serde.py dumps_binary/loads_binary"), ("per-value to_json/from_json", "mplang/backends/*_impl.py")])

p("S02", "Malformed wire data is rejected, never read as some other value",
  "Data cut short at any point, compressed data with a changed byte, an array whose payload or segment table does not fill its shape, and data naming an unknown kind are rejected with an error at reading time, never silently decoded to another value. Reading hostile data of any form only builds values: it executes no code, imports nothing and writes nothing.",
  ["inputs", "fault_sequences"], "every truncation point and structural corruption of every container, plus arbitrary bytes and arbitrary JSON trees",
  "tests try a couple of fixed corruptions", ["mplang/edsl/serde.py", "mplang/tool/program.py"],
  [("length, magic and header checks of the binary container", "mplang/edsl/serde.py loads_binary"), ("explicit class registry", "mplang/edsl/serde.py register_class"), ("artifact validation", "mplang/tool/program.py unpack")])

p("E01", "A program computes the same result however it is run",
  "Running a function directly, as a traced graph, as a graph that was serialized and read back, as a packed program artifact, and on the asynchronous scheduler all give the same result, and it is the result the plain Python/numpy reading of the function gives.",
  ["programs", "inputs"], "every straight-line or nested program over the tensor operations and function calls, all fan-outs, shared sub-expressions, unused values, captured values and multi-output operations",
  "tests trace a handful of tiny functions and compare the graph text or one result", ["mplang/edsl/tracer.py", "mplang/edsl/primitive.py", "mplang/edsl/graph.py", "mplang/runtime/interpreter.py", "mplang/dialects/func.py", "mplang/backends/func_impl.py"],
  [("tracing of primitives into graphs, captures", "mplang/edsl/tracer.py"), ("graph evaluation", "mplang/runtime/interpreter.py evaluate_graph"), ("nested call regions", "mplang/backends/func_impl.py")],
  ["mplang.evaluate / mplang.trace / mplang.fetch"])

p("E02", "A value's declared type is the type it has at run time",
  "The type the system declares for a result before running (element type, shape with unknown dimensions allowed, table columns and their types, parties, tuple arity) describes the value actually produced. Ill-typed uses are rejected when the program is built, not turned into wrong values.",
  ["programs", "inputs"], "every operation over every accepted combination of element types, shapes, schemas and parameters",
  "tests check declared types and run-time values separately, for a few shapes", ["mplang/dialects/tensor.py", "mplang/dialects/table.py", "mplang/dialects/simp.py", "mplang/dialects/crypto.py", "mplang/dialects/dtypes.py"],
  [("abstract evaluation rule of each primitive", "mplang/dialects/*.py"), ("dtype conversions", "mplang/dialects/dtypes.py")])

p("E03", "Structured arguments, constants and captures reach the function intact",
  "Whatever nesting of lists, tuples, dicts and keyword arguments mixes traced values with plain constants, the function receives exactly that structure and the caller gets back exactly the structure returned, constants and repeated values included. A traced function reused with new arguments uses the new values.",
  ["inputs", "programs"], "every pytree shape, every split of leaves into values and constants, positional and keyword, repeated leaves, captured outer values at any nesting depth",
  "tests use flat argument lists and one or two nested examples", ["mplang/edsl/tracer.py", "mplang/utils/func_utils.py", "mplang/__init__.py"],
  [("splitting leaves into variables and immediates", "mplang/utils/func_utils.py var_morph/var_demorph/normalize_fn"), ("signature match and input preparation", "mplang/edsl/tracer.py TracedFunction")])

p("E04", "Types are equal exactly when they mean the same, everywhere",
  "Two types compare equal exactly when they have the same constructor and parameters; equal types hash alike, and a type that was written out and read back is equal to the original, interchangeable as a dict key, and prints the same. Invalid parameters are rejected at construction.",
  ["inputs"], "every type expression of bounded depth: scalars of any width, tensors, vectors, tables, custom, secret-shared and multi-party types, HE and crypto types",
  "tests compare a few pairs", ["mplang/edsl/typing.py", "mplang/dialects/phe.py", "mplang/dialects/bfv.py", "mplang/dialects/crypto.py", "mplang/dialects/tee.py", "mplang/dialects/dtypes.py"],
  [("__eq__/__hash__/to_json/from_json of each type", "mplang/edsl/typing.py")])

p("E05", "A packed program is the program, and a changed one is noticed",
  "A compiled program that is packed, stored, read back and run has the same signature, metadata and behaviour as the original; its digest is the same for the same program in any process and differs when the program differs. An artifact whose graph, opcodes, parties or signature disagree with its own metadata is refused.",
  ["programs", "inputs", "fault_sequences"], "every traced program; every single-field alteration of the artifact",
  "tests pack one small program and try a few alterations", ["mplang/tool/program.py", "mplang/edsl/program.py", "mplang/edsl/graph.py"],
  [("graph digest", "mplang/edsl/program.py compute_graph_digest"), ("validation at unpack", "mplang/tool/program.py _validate_program")])

p("E06", "Code runs in the innermost context, and contexts are left as they were found",
  "Whatever nesting of interpreters, simulators, traces and explicit context arguments, an operation runs where the innermost context says: at once in an interpreter, recorded in a trace, on the cluster and with the state of the nearest context that has one; an explicitly named context takes precedence. A value of one interpreter is refused by another, or captured by a trace. Leaving a context in any way, exceptions included, restores exactly what was there before.",
  ["programs", "configurations", "fault_sequences"], "every nesting of contexts, every point an exception can leave them, every value carried from one context to another",
  "tests enter one or two contexts in a fixed order and leave them normally", ["mplang/edsl/context.py", "mplang/edsl/tracer.py", "mplang/edsl/primitive.py", "mplang/__init__.py", "mplang/libs/device/api.py"],
  [("context stack, lookup and state", "mplang/edsl/context.py"), ("explicit contexts", "mplang/__init__.py evaluate/compile/fetch/function"), ("cluster lookup", "mplang/libs/device/api.py _resolve_cluster")])

p("R01", "The asynchronous scheduler is invisible in results and errors",
  "For any program graph and any order in which concurrently running operations finish, the result equals sequential evaluation, every operation runs exactly once and only after its inputs exist, and a failing operation makes the evaluation fail with that error instead of hanging or yielding a value. Values still needed are never released early.",
  ["schedules", "programs", "fault_sequences"], "every dependency graph, every completion order of asynchronous operations, every choice of failing operation, repeated inputs and outputs, dead values",
  "tests run two or three fixed graphs under whatever schedule the machine gives", ["mplang/runtime/interpreter.py"],
  [("ready-queue scheduler with reference-counted values", "mplang/runtime/interpreter.py _evaluate_graph_async")])

p("R02", "The object store behaves like a dictionary on every backend",
  "After any sequence of put, get, delete, exists, list, upload and download, in memory or on the file system and across re-opening a persistent store, each key yields the last value written and deleted or never-written keys are reported missing. Stored values do not influence each other.",
  ["histories", "inputs"], "every operation sequence over many keys (nested names, odd characters, prefixes of each other) and values, with re-open in between",
  "tests run short fixed sequences", ["mplang/runtime/object_store.py", "mplang/dialects/store.py", "mplang/backends/store_impl.py"],
  [("URI resolution to backends", "mplang/runtime/object_store.py ObjectStore"), ("memory and file-system backends", "mplang/runtime/object_store.py")])

p("R03", "A store never leaves its root and never loses data to a failed write",
  "No key, however spelled, makes the file-system store read, write, list or delete anything outside its own root directory (the absolute data paths, and files of the working directory, that upload and download are documented to accept are not keys). A write that fails or is interrupted at any point leaves the previous value readable, never a torn one.",
  ["inputs", "crash_points", "fault_sequences"], "every key string (dot segments, absolute paths, sibling-prefix names, odd encodings), every failure point of a write",
  "tests try one or two '../' keys and no interrupted write", ["mplang/runtime/object_store.py"],
  [("key resolution with containment check", "mplang/runtime/object_store.py FileSystemBackend._resolve_key"), ("put/download/upload of files", "mplang/runtime/object_store.py FileSystemBackend")])

p("C01", "Messages between parties arrive once, in order, at the right receiver",
  "Under any interleaving of sends and receives by all parties, each receive returns exactly the message its peer sent for that exchange; messages of different senders, channels, nested contexts or jobs are never mixed, lost or delivered twice. Parties that run the same communication script never wait for each other forever.",
  ["schedules", "histories"], "every number of parties, every matched script of point-to-point exchanges (bidirectional included) over nested contexts, every delivery interleaving",
  "tests exchange a few messages between two parties in one order", ["mplang/backends/simp_worker/base.py", "mplang/backends/simp_worker/mem.py", "mplang/backends/simp_worker/comm_context.py", "mplang/backends/channel.py"],
  [("mailbox keyed by sender and tag", "mplang/backends/simp_worker/base.py"), ("deterministic key sequence per context", "mplang/backends/simp_worker/comm_context.py"), ("bridge for external links", "mplang/backends/channel.py")])

p("C02", "Collectives give every party the same correct answer",
  "For any group of parties, any root and any per-party data, every collective (transfer, replicate, distribute, collect, all-replicate and permute between parties; broadcast, all-gather, boolean all-reduce, barrier and uniformity check among workers) delivers exactly the mathematically defined result to each member and nothing to others, under any timing, any number of times in a row, and for concurrent groups.",
  ["schedules", "inputs", "configurations"], "every group (non-contiguous, any order, size one to eight), root, payload and sequence of collectives",
  "tests use two or three contiguous parties and one collective at a time", ["mplang/libs/collective.py", "mplang/backends/simp_worker/collectives.py", "mplang/backends/simp_worker/collective_algorithms.py"],
  [("collective algorithms over point-to-point messages", "mplang/backends/simp_worker/collective_algorithms.py")])

p("C03", "Running over HTTP is indistinguishable from running in memory",
  "Any value sent between HTTP workers arrives equal to what was sent, whichever wire mode is used, and a program run on HTTP workers yields the results it yields on the in-memory cluster. A finished asynchronous job always shows its result or its error along with its final status, and bad requests are refused without disturbing the worker.",
  ["inputs", "histories", "schedules"], "every payload kind and size around the streaming thresholds, every poll timing, duplicate and malformed requests, store operations by URI",
  "tests post a few payloads; polling is tested at one timing", ["mplang/backends/simp_worker/http.py", "mplang/backends/simp_driver/http.py"],
  [("worker endpoints and communicator", "mplang/backends/simp_worker/http.py"), ("driver", "mplang/backends/simp_driver/http.py")])

p("C04", "Concurrent requests to one cluster do not disturb each other",
  "When several programs run at the same time on the same workers, each returns exactly what it returns when run alone, whatever their relative timing; on HTTP workers, a program that fails does not affect the others.",
  ["schedules", "programs", "fault_sequences"], "every mix of concurrently submitted communicating programs and every timing of their messages",
  "tests run at most two concurrent requests", ["mplang/backends/simp_worker/request.py", "mplang/backends/simp_worker/infra.py", "mplang/backends/simp_driver/mem.py", "mplang/backends/simp_worker/comm_context.py"],
  [("per-request interpreter, communication context and SPU state", "mplang/backends/simp_worker/request.py")])

p("P01", "Multi-party operations do to each party exactly what they say",
  "Executing a function at a set of parties applies it to each listed party's own value and to no other's; moving, swapping, broadcasting, scattering, collecting and merging values gives each target exactly its declared source's value, and parties outside the operation hold nothing. Invalid routings are refused.",
  ["programs", "inputs", "configurations"], "every number of parties, every routing map, every party subset, every composition of these operations, statically and dynamically placed",
  "tests cover a few routings on two or three parties", ["mplang/dialects/simp.py", "mplang/backends/simp_worker/ops.py", "mplang/backends/simp_driver/ops.py", "mplang/libs/collective.py"],
  [("per-party call, shuffle and converge", "mplang/backends/simp_worker/ops.py"), ("collective redistribution library", "mplang/libs/collective.py")])

p("P02", "Secure control flow takes the right branch and the right number of turns",
  "A conditional executes exactly the branch its agreed predicate selects, on every party, and a loop ends after exactly the iterations its condition dictates, with carried values, captured values and party placement intact; a predicate on which parties disagree is reported when verification is on.",
  ["programs", "inputs"], "every predicate history, carried-value structure, nesting of conditionals and loops, and party set",
  "tests run one conditional and one counting loop", ["mplang/dialects/simp.py", "mplang/backends/simp_worker/ops.py"],
  [("uniform_cond / while_loop", "mplang/dialects/simp.py"), ("their worker implementations", "mplang/backends/simp_worker/ops.py")])

p("D01", "Where a computation is placed does not change what it computes",
  "The same computation gives the same result on a plain device, a secure device or a trusted device, with inputs coming from any mixture of devices; moving a value along any chain of supported transfers preserves it, and an ambiguous or unknown placement is refused.",
  ["programs", "configurations", "inputs"], "every cluster layout, every assignment of inputs and computations to devices, every chain of transfers",
  "tests place two or three computations on one fixed cluster", ["mplang/libs/device/api.py", "mplang/dialects/spu.py", "mplang/backends/spu_impl.py", "mplang/backends/spu_state.py"],
  [("device inference and automatic transfer", "mplang/libs/device/api.py"), ("share making/reconstruction", "mplang/backends/spu_impl.py"), ("link/runtime cache", "mplang/backends/spu_state.py")])

p("D02", "A cluster description is validated and survives being written out",
  "Any valid cluster description is parsed to nodes and devices with the ranks, members, endpoints, kinds and settings it states, and writing it out and reading it again gives the same cluster; inconsistent descriptions are rejected.",
  ["inputs", "configurations"], "every cluster description, valid or with any single inconsistency",
  "tests parse a few", ["mplang/libs/device/cluster.py"], [("parsing, validation, to_dict", "mplang/libs/device/cluster.py ClusterSpec")])

p("D03", "A command does to the described cluster what it says",
  "For every cluster described by a file or by flags, the command line acts on exactly that cluster: starting all workers starts one per rank, each exactly as starting it alone would, and ends them on a signal; the status of every worker is reported as it answers; the objects listed for a rank are those its worker holds; running a job calls the named entry of the given file with the given arguments on that cluster, with the same answer on the simulator and over HTTP. Missing files, entries and addresses are refused.",
  ["inputs", "configurations"], "every cluster description by file or flags, every mixture of healthy and failing workers, every job, entry and argument list",
  "no test runs a job or queries a cluster from the command line", ["mplang/cli.py", "mplang/backends/simp_driver/http.py", "mplang/backends/simp_worker/http.py"],
  [("commands", "mplang/cli.py"), ("driver built from a description", "mplang/backends/simp_driver/http.py make_driver"), ("health and object listing", "mplang/backends/simp_worker/http.py")])

p("T01", "Tensor operations agree with numpy",
  "Transpose, reshape, concatenate, gather, slice, elementwise application, constants and arbitrary numeric functions give the values, shapes and element types numpy gives, for all shapes and types they accept, in eager and compiled form.",
  ["inputs", "programs"], "every rank, shape, dtype, permutation, slice with stride, index array",
  "tests use two or three small arrays per operation", ["mplang/dialects/tensor.py", "mplang/backends/tensor_impl.py"],
  [("structural operations and elementwise", "mplang/backends/tensor_impl.py"), ("compiled numeric functions", "mplang/backends/tensor_impl.py run_jax")])

p("T02", "Reusing compiled code never changes an answer",
  "The result of a numeric function depends only on the function and its inputs: not on what was compiled or run before, on which shape of a shape-polymorphic function came first, on repeated or unused arguments, or on whether a cached executable was loaded from disk.",
  ["histories", "programs", "inputs"], "every history of calls over similar functions, differing shapes, dtypes, constants and argument patterns, with and without a persisted cache",
  "tests call each function once", ["mplang/backends/tensor_impl.py", "mplang/dialects/_jax_utils.py", "mplang/backends/util.py"],
  [("executable caches in memory and on disk", "mplang/backends/tensor_impl.py"), ("shape refinement", "mplang/backends/util.py"), ("unused-argument map", "mplang/dialects/_jax_utils.py")])

p("B01", "Table queries and relational operations return the relational answer",
  "Every query or table operation returns exactly the rows, columns, order and nulls that the relational definition gives on its inputs, whether inputs are in memory or lazily read, and does not alter its inputs or depend on earlier queries.",
  ["inputs", "programs", "histories"], "generated schemas, rows with nulls and duplicates, and query compositions from a grammar, over any mix of table sources",
  "tests run a few fixed queries on tiny tables", ["mplang/dialects/table.py", "mplang/backends/table_impl.py"],
  [("SQL engine bridge", "mplang/backends/table_impl.py run_sql")])

p("B02", "Tables written to files and read back lose nothing",
  "For every supported file format, batch size, chunking and number of tables written together, reading back what was written gives all rows, once, in order, with the declared columns, types and nulls; up to what the format can represent; a failed write leaves no partial file behind, and mismatched inputs are refused rather than truncated.",
  ["inputs", "configurations", "fault_sequences"], "every schema, row count around batch and chunk boundaries, chunk layout, format, batch size and failing column source",
  "tests write small single-batch tables", ["mplang/backends/table_impl.py", "mplang/dialects/table.py"],
  [("streaming readers/writers", "mplang/backends/table_impl.py")])

p("B03", "Converting between tables, tensors and columns preserves every cell",
  "Turning tables into tensors and back preserves every cell value, the order of rows and columns, and the type; vector-typed columns (dense, sparse, one-hot) show the same vectors through every accessor, slice, chunking, message and file, and one-hot encoding yields the vectors its indices name.",
  ["inputs"], "every numeric schema, row count, chunking, null pattern and column operation",
  "tests convert one or two tables", ["mplang/backends/table_impl.py", "mplang/dialects/table.py", "mplang/extend/arrow/vector.py", "mplang/extend/arrow/compute.py"],
  [("table_to_tensor / tensor_to_table", "mplang/backends/table_impl.py"), ("column vector wrapper", "mplang/extend/arrow/vector.py")])

p("K01", "Only the right key opens a ciphertext, and it yields the plaintext",
  "Decrypting with the right key returns exactly the encrypted value of any type and size; any change to the ciphertext or a different key is detected. Both ends of a key exchange derive the same key, derived keys are determined by secret and context, digests agree with the standard, and random material has the requested form and is fresh on every use.",
  ["inputs", "fault_sequences"], "every payload type and size, every single-bit change, every key pair and context string",
  "tests encrypt one value and hash one string", ["mplang/dialects/crypto.py", "mplang/backends/crypto_impl.py"],
  [("authenticated encryption, KEM, HKDF, hashing", "mplang/backends/crypto_impl.py")])

p("K02", "Elliptic-curve operations form the group they claim to",
  "Point addition, subtraction, scalar multiplication and conversion obey the curve's group laws for all points and scalars, the identity and inverse pairs included, and points survive conversion to bytes and serialization.",
  ["inputs"], "all scalars (0, 1, order-1 and beyond), all sums including inverse and equal points, identity in every position",
  "tests add and multiply generic points only", ["mplang/backends/crypto_impl.py", "mplang/dialects/crypto.py"],
  [("curve operations", "mplang/backends/crypto_impl.py ec_*")])

p("K03", "Homomorphic (Paillier-style) arithmetic equals plaintext arithmetic",
  "Adding ciphertexts, adding or multiplying by plaintexts, and rearranging encrypted tensors decrypt to what the same operations give on the plaintexts, within the documented number range, for any shape and chain of operations, also after ciphertexts and keys were serialized. Values an encoder cannot represent, and operations the scheme does not support, are refused; the public key alone does not decrypt.",
  ["inputs", "programs"], "signed values and floats over the accepted range, all shapes, chains of operations, key round-trips",
  "tests do one or two operations on fixed values", ["mplang/dialects/phe.py", "mplang/backends/phe_impl.py"],
  [("PHE operations", "mplang/backends/phe_impl.py")])

p("K04", "Batched homomorphic arithmetic equals modular plaintext arithmetic",
  "Encoding, encrypting, adding, subtracting, multiplying, relinearizing and rotating batched ciphertexts decrypt to slot-wise arithmetic modulo the plaintext modulus for any slot contents (all-zero operands included), any mixture of plaintext and ciphertext operands, and also after the operands travelled between parties; of all that is handed to others, nothing contains the secret key.",
  ["inputs", "programs"], "all slot vectors, operand mixtures, rotation steps, chains within the noise budget, serialized operands",
  "tests use one vector per operation, never zero plaintexts or serialized operands", ["mplang/dialects/bfv.py", "mplang/backends/bfv_impl.py", "mplang/libs/mpc/analytics/aggregation.py"],
  [("BFV operations", "mplang/backends/bfv_impl.py"), ("rotation-based aggregation", "mplang/libs/mpc/analytics/aggregation.py")])

p("K05", "An attestation vouches for exactly the key it was made for",
  "Verifying a quote returns exactly the public key the quote was made from, for every key and suite and after transport, and anything that is not exactly one well-formed quote of the expected kind of key is rejected.",
  ["inputs", "fault_sequences"], "every key, every suite, every altered quote",
  "tests attest one key", ["mplang/dialects/tee.py", "mplang/backends/tee_impl.py"],
  [("quote generation and attestation", "mplang/backends/tee_impl.py")])

p("F01", "Binary-field arithmetic is a field, on native and portable kernels alike",
  "Products and sums of 128-bit field elements satisfy the field laws and equal polynomial arithmetic modulo the documented polynomial, elementwise over any shape, and so do sums of elements selected by a sparse matrix; native and portable kernels agree bit for bit on all of these. The pseudo-random expansion of a seed depends only on the seed and the position, and different seeds are expanded differently, on either kernel build. Operands that do not fit together are refused, never read past their end.",
  ["inputs", "configurations"], "all pairs of 128-bit elements (edge patterns included), all shapes, both kernel builds",
  "tests multiply a few fixed elements", ["mplang/dialects/field.py", "mplang/backends/field_impl.py", "mplang/kernels/gf128.cpp", "mplang/kernels/py_kernels.py"],
  [("carry-less multiplication and reduction", "mplang/kernels/gf128.cpp, mplang/kernels/py_kernels.py")])

p("F02", "An encoded key-value store returns every value it was built from",
  "Decoding an oblivious key-value store at each key it was encoded with yields exactly the stored value, for any set of distinct keys and any values and seed, on both kernel builds, or building the store reports failure (rare at the documented expansion); decoding is linear in the store and independent of how many keys are decoded together. Keys, values and stores of sizes that do not fit together are refused.",
  ["inputs", "configurations"], "every set of distinct 64-bit keys (adversarial patterns included), values, seed, size, and subset of keys decoded",
  "tests encode random keys at a few sizes", ["mplang/backends/field_impl.py", "mplang/kernels/okvs.cpp", "mplang/kernels/okvs_opt.cpp", "mplang/kernels/py_kernels.py", "mplang/libs/mpc/psi/okvs_gct.py"],
  [("solve/decode kernels", "mplang/kernels/okvs.cpp, mplang/kernels/okvs_opt.cpp, mplang/kernels/py_kernels.py")])

p("M01", "Private set intersection returns exactly the intersection",
  "Every private-set-intersection protocol returns, for any two sets and either role assignment, exactly the membership of each item in the other set: no false match, no miss, in the order of the asked items. The oblivious pseudo-random function such protocols build on gives both sides equal outputs exactly for equal items.",
  ["inputs", "configurations"], "all pairs of item sets (disjoint, equal, nested, adversarial patterns, extreme values), sizes, seeds and party roles",
  "tests use one pair of sets per protocol", ["mplang/libs/mpc/psi/rr22.py", "mplang/libs/mpc/psi/unbalanced.py", "mplang/libs/mpc/psi/oprf.py", "mplang/libs/mpc/psi/cuckoo.py", "mplang/libs/mpc/psi/okvs_gct.py"],
  [("OKVS/VOLE-based and OPRF/cuckoo-based intersection", "mplang/libs/mpc/psi")])

p("M02", "Oblivious transfer hands over exactly the chosen messages",
  "In every oblivious-transfer protocol the receiver obtains, for each position, exactly the message its choice bit selects and nothing is shifted between positions, for any messages, choices, lengths and party roles; extended variants produce correlations that satisfy their defining equation, nothing hidden travels in the clear and no mask is used twice.",
  ["inputs", "configurations"], "all choice vectors, message contents, lengths around padding boundaries, role assignments",
  "tests use one choice vector per protocol", ["mplang/libs/mpc/ot/base.py", "mplang/libs/mpc/ot/extension.py", "mplang/libs/mpc/_utils.py"],
  [("base OT", "mplang/libs/mpc/ot/base.py"), ("OT extension", "mplang/libs/mpc/ot/extension.py")])

p("M03", "Vector OLE correlations always satisfy w = v + u*delta",
  "Every vector-OLE protocol gives its two parties vectors satisfying the defining equation in the 128-bit field at every position, for every length, role assignment and variant, fresh on every run (the LDPC variant, noisy by design, at every position but exactly the stated number of noise positions); the sparse error terms they use have exactly the stated weight.",
  ["inputs", "configurations"], "all lengths, role assignments, sender-chosen inputs, both kernel builds",
  "tests check one length per protocol", ["mplang/libs/mpc/vole/gilboa.py", "mplang/libs/mpc/ot/silent.py", "mplang/libs/mpc/vole/silver.py", "mplang/libs/mpc/vole/ldpc.py"],
  [("Gilboa multiplication", "mplang/libs/mpc/vole/gilboa.py"), ("LDPC-based expansion", "mplang/libs/mpc/vole/silver.py, mplang/libs/mpc/vole/ldpc.py")])

p("M04", "Oblivious shuffling and grouping equal the plain computation",
  "Obliviously permuted data equals the data indexed by the permutation, and oblivious group-by sums equal the plain sums per group (empty groups zero), for all data, group assignments, sizes, and choices of parties.",
  ["inputs", "configurations"], "all permutations, data, group assignments with empty groups, sizes off powers of two, distinct party roles",
  "tests use one permutation and one grouping", ["mplang/libs/mpc/analytics/permutation.py", "mplang/libs/mpc/analytics/groupby.py", "mplang/libs/mpc/analytics/aggregation.py"],
  [("switching network over OT", "mplang/libs/mpc/analytics/permutation.py"), ("group-by protocols", "mplang/libs/mpc/analytics/groupby.py")])

p("M05", "Federated tree boosting equals its plaintext counterpart",
  "Training on vertically split, encrypted data chooses the splits and leaf weights that the same algorithm chooses on the joined plaintext data, and prediction with the distributed model equals walking those trees, for every feature split between parties.",
  ["inputs", "configurations"], "all small datasets, feature partitions, depths, bucket counts and party layouts",
  "tests train one or two models and look at accuracy", ["mplang/libs/ml/sgb.py"], [("histograms, split finding, prediction", "mplang/libs/ml/sgb.py")])

p("O01", "Observing an execution tells what happened and changes nothing",
  "Tracing, profiling, communication statistics and printed graphs report exactly the operations, messages, bytes and failures that occurred, each once, whichever thread, party or scheduler they ran on, also in the files written; merging trace files loses, alters and misattributes no event; two graphs that differ print differently. A program gives the same result, or fails the same, with observation on or off, and with it off nothing is recorded.",
  ["programs", "schedules", "fault_sequences"], "every program, party count and scheduler; every mix of successful, refused, lost and late messages; every graph with nested regions",
  "tests look at single counters after one or two calls and at one or two printed lines", ["mplang/runtime/interpreter.py", "mplang/edsl/registry.py", "mplang/edsl/printer.py", "mplang/edsl/graph.py", "mplang/backends/simp_worker/http.py", "mplang/cli.py"],
  [("trace events per executed operation and their file", "mplang/runtime/interpreter.py ExecutionTracer"), ("operation profile", "mplang/edsl/registry.py OpProfiler"), ("communication statistics", "mplang/backends/simp_worker/http.py CommStats"), ("printing of graphs", "mplang/edsl/printer.py GraphPrinter"), ("merging of trace files", "mplang/cli.py cmd_trace_merge")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(d) + "\n" for d in P))
print(len(P))
