NA = {}
NOTES = {
 "S01": ("round-trip of generated values through seven encodings", "The equality oracle is the harness's own strict comparison (types, dtypes, bits, order); SPU shares come from a stand-in for the spu package."),
 "S02": ("generated truncations, corruptions, unknown kinds, inconsistent payloads and hostile trees, under an audit hook", "Only the classes of damage listed in the statement are promised to be noticed; any exception counts as a rejection."),

 "E04": ("generated type expressions: pairwise identity, seven round trips, rejected parameters", "Whether column order is part of table-type equality is left open."),
 "E01": ("random tensor programs run six ways against numpy", "Protocol and device programs are covered by their own properties; async opcodes are leaf operations, as the shipped set is."),
 "E03": ("generated nestings of traced values and constants through calls, nested functions and compiled numeric functions", "Only structure delivery is promised; how a mismatching later call is refused is left open."),
 "E05": ("generated tensor and party programs: packing round trips, digests across processes and install paths, differing pairs, single-field alterations, damaged archives", "An artifact whose digest was blanked out is not covered; name, time and version are not protected by design."),
 "E02": ("generated programs and block calls: each run-time value against its declaration; generated ill-typed constructions must be refused", "Types stated by the caller (SQL schema, file schema) are not checked; unknown dimensions run through structural operations only."),
 "T01": ("generated arrays, types, memory layouts and parameters: every operation against numpy / jax called directly", "Out-of-range indices and empty dimensions are outside the statement."),
 "T02": ("generated histories of look-alike compiled calls, process restarts with damaged caches, size sequences of shape-polymorphic functions, against numpy", "The external refinement tool is a stand-in over the same compiler passes."),
 "E06": ("generated nestings of contexts, traces, evaluations and exceptions against a model stack, and programs on several live simulators", "Every generated nesting decided exactly after every statement; one thread only, as the stack is one per process."),
 "R01": ("generated graphs under generated completion orders and faults against a sequential model", "every generated graph, schedule and fault decided exactly by a sequential reference model; schedules are driven by a scripted pool, not exhaustively"),
 "R02": ("generated operation histories against a dictionary model (stateful)", "every step of every generated history is compared with a dictionary; concurrent use sampled with threads"),
 "R03": ("generated hostile keys (unprivileged child, scratch tree with bait) and generated crash points against the previous value", "keys and crash points are sampled; crash points include every line of the store and byte limits enforced by the kernel"),
 "C01": ("generated message scripts and interleavings against the script itself", "every generated script decided exactly; thread interleavings are sampled under forced switching"),
 "C02": ("generated groups, roots and pipelines against a per-party model", "every generated call decided exactly against the mathematical definition; timings are sampled"),
 "C03": ("generated values, programs, job histories and request sessions on real loopback HTTP workers, against the value itself and a model of mailbox and store", "every generated exchange decided exactly; network faults other than refused requests are not injected"),
 "C04": ("generated sets of concurrent programs with injected message delays, each compared with its result alone", "every generated mix decided exactly; interleavings are sampled under delays and forced switching"),
 "P01": ("random multi-party programs against a per-party numpy model", "Random straight-line programs (calls in five styles, routings, merges, refused operations) over one to six parties; run eagerly, traced, packed, in memory and over HTTP; every party's value of every variable compared, absent parties included."),
 "P02": ("random nested control flow against a per-party numpy model", "Random nests of conditionals and loops with captures and communication inside; generated disagreeing predicates; generated return structures of branches and bodies, equal or not (right result or refused)."),
 "D01": ("random device programs against numpy, with a secure-device stand-in that checks every share", "Random clusters (several secure devices over any ordered subsets, trusted devices, several plain devices per node) and programs with explicit or inferred placement; chains of transfers of any element type; the real spu library is not installed, its arithmetic is not covered."),
 "D03": ("generated clusters, jobs and worker states driven through the command line, compared with the library and with the workers' stores", "Everything printed and every worker started is decided exactly; workers that `up` starts are recorded, not started."),
 "D02": ("generated cluster descriptions round-tripped through every written form, single-fault mutations that must be refused, and generated command lines", "Random descriptions (any ranks, devices, endpoints) decided exactly; endpoints are bound on loopback only; worker start-up is driven with a stand-in server."),
 "B01": ("generated histories of SQL queries, differential against sqlite3", "Random queries from a grammar (joins, sets, grouping, windows, subqueries) over memory, files, earlier queries and written tables, the results looked at in any order; restricted to what both SQL engines define alike."),
 "B02": ("round trips of generated tables through every format, with injected faults", "Random schemas, chunks, batch sizes and sources decided exactly, up to what each format can represent; failing sources at random points; stores shared by several parties."),
 "B03": ("generated tables and vector columns against a numpy/python model", "Every numeric type, chunking, missing pattern and pandas index; vector columns through random chains of slices, messages and files, every accessor compared."),
 "K01": ("generated values, keys and single changes, against independent x25519, HKDF and SHA references", "Every payload type and size, byte and bit changes, wrong keys and truncations decided exactly; randomness is only checked for form and repetition."),
 "K02": ("generated points and scalars against an independent secp256k1 reference", "All operations on edge and random scalars, identity and opposite points in every position, tensors of points, transports; the only curve implemented is secp256k1."),
 "K05": ("generated keys, transports and damaged quotes", "The quotes are mock quotes without signature: forged well-formed quotes cannot be told apart and are not covered."),
 "K03": ("random chains of operations on encrypted tensors against integer arithmetic", "Chains, encoders and refusals are decided exactly; keys of 512 bits stand for all sizes; only the Paillier scheme of the installed library."),
 "M05": ("Random federated fits against an exact evaluation of every candidate split on the joined data", "Generated data sets (2 to 1500 samples), feature splits, roles and parameters are trained and predicted end to end with encryption, in memory and over HTTP; every reachable node is judged against exact gains of all candidate splits, leaf weights and predictions against walking the trees. Ties within the documented 15-bit quantization may be resolved either way."),
 "K04": ("Model-based random programs over batched ciphertexts against slot-wise modular arithmetic", "Generated programs over all BFV operations, operand mixtures, slot contents, parameter sets, serialization and parties within the noise budget are compared slot by slot with modular arithmetic, aggregation helpers with exact sums; keys that travel are checked not to decrypt."),
 "F01": ("generated operands, shapes and memory layouts on native and portable kernels against shift-and-add polynomial arithmetic and AES", "Every generated product, sum and expansion decided exactly; the portable expansion is documented to be another function than the native one, so only its laws are checked there."),
 "M01": ("generated pairs of sets (disjoint, equal, near misses, extremes), sizes, roles and party counts run end to end on native and portable kernels against plain set membership", "Every generated pair of sets is decided exactly, in memory and over HTTP, the recorded messages searched for items in the clear; PRF outputs compared for equality exactly; large sets are sampled."),
 "M02": ("generated messages, choices, lengths and roles run end to end against plain selection, correlations against their equation, recorded messages against what must stay hidden", "Every generated transfer decided exactly; secrecy is decided only as far as it shows in the recorded messages (nothing in the clear, no mask twice), not cryptographically."),
 "M03": ("generated lengths, roles and inputs run end to end on native and portable kernels, every position against polynomial arithmetic, freshness over runs", "Every generated correlation decided at every position; that values are random is only tested as never repeating."),
 "M04": ("generated permutations, data and group assignments run end to end, in memory and over HTTP, against numpy indexing and plain sums", "Every generated case decided exactly; that the permutation stays hidden is decided only as far as it shows in the values held."),
 "F02": ("generated key sets, values and store sizes on native and portable kernels: every stored key decoded, linearity, failure rates, refusals", "Every generated store decided exactly; a reported failure is accepted up to a rate far above the documented one but far below what a broken solver shows; very large stores are sampled."),
 "O01": ("generated programs, message histories, graphs and trace files, observed and compared with counting stand-ins", "Every generated execution decided exactly for counts, names, parties and bytes; times are only checked for order and plausibility."),
}
