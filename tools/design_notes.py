MISSED = {
 "r02-first-megabyte": "sub-check of bulk transfers, half of which put two files of one size to one key",
 "b03-masked-sparse": "missing rows may hide contents",
 "o01-queue-by-op": "sub-check of ranks that run one program at once on few threads; queued events are counted",
 "r02-read-cache": "values fetched are spoiled in place before the next step",
 "c01-spawn-collision": "sub-check of trees of contexts, all in flight at once",
 "p01-converge-overlap": "sub-check of offered operands that must be refused",
 "e03-equal-immediates": "sub-check of functions nested in functions that capture from every level",
}
EXTRA = {
 "S01": ["Artifact digests and key-sorted JSON are covered by E04 and E05."],
 "O01": ["In the simulator the tracer is shared, so each party's file holds all events up to then, by process number; merging them repeats events.", "`MPLANG_PRINT_GRAPH` and `simp.Simulator` of docs/runtime_observability.md do not exist in this version.", "The flat listing `Graph.to_string` / `compiler_ir` omits nested regions and all but the first result type, as its format says; only `format_graph` is complete."],
 "E03": ["Plain runtime values given in place of traced ones are taken as they are; a NaN constant is never equal to itself, so reuse refuses it loudly."],
 "E05": ["An artifact whose digest or world size is null skips that validation by design; graphs whose output names collide are not written by the library."],
 "E06": ["Several threads entering contexts at once are not covered: the stack is one per process. A traced function that captured a value of one interpreter may be evaluated on another; it must then fail or give the right values."],
 "R01": ["A synchronous operation that blocks on communication while an executor is in use may run in completion order; the shipped workers use no executor."],
 "R02": ["Object stores may be shared by threads of a process; several processes writing one key at once are covered only for the file backend's atomic replacement."],
 "C01": ["Child context suffixes have the documented form name.index. Over HTTP an asynchronous send that fails is only logged at the sender; the receiver times out loudly."],
 "C04": ["The context stack is one per process, so programs are run from threads the way the drivers do it. A failing program stops an in-memory simulator: known finding. More than 64 concurrent requests per HTTP worker are not covered."],
 "P01": ["`shuffle_dynamic` has no implementation in the repository and is not covered."],
 "P02": ["All parties are assumed to hold the predicate; loop conditions are not verified for agreement by the library, only conditionals are."],
 "D01": ["SPU to SPU and TEE to TEE transfers are unsupported by design. Fetching a value of a secure device returns its first share (documented TODO). The real `spu` wheel is absent: see the stand-in above."],
 "D02": ["An `SPUConfig` with an empty link description reads back as one without; both mean the default."],
 "T01": ["Byte order is no part of a value. `tensor.scatter` has no implementation."],
 "T02": ["Draws of hypothesis depend on constants of the local sources; kept deliberately, as it makes runs on changed trees draw changed constants."],
 "B01": ["A name already taken by another table is refused. Column names that differ only in case are not supported by DuckDB."],
 "B02": ["Up to the limits of the formats (CSV has no binary, JSON no NaN). Files read lazily and changed afterwards by something other than the store are not covered."],
 "B03": ["Parquet has no missing fixed-size lists; float16 and boolean pandas indexes are excluded."],
 "K01": ["`target_type` of `sym_decrypt` is the reader's claim and is not verified."],
 "K03": ["Only Paillier works with the names of the installed lightphe; fixed-point products scale."],
 "K04": ["Key generation is cached per process (documented). Results without any ciphertext are not hidden. Size-3 ciphertexts are relinearized before rotations; the noise budget bounds chains."],
 "K05": ["The mock quotes carry no signature, so forged well-formed quotes cannot be detected."],
 "F01": ["The portable and native expansions differ by documentation; parties must run the same kernel build, and so do the checks. `field.mul` accepts a longer right operand and pairs by position."],
 "F02": ["At 1.6-fold expansion a build fails for about one seed in a thousand, loudly; the callers retry once."],
 "M01": ["Secrecy is only looked at through transcripts (no element, nor a value derived from it alone, crosses the wire)."],
 "M02": ["Messages above 32 bytes are refused loudly by the extension."],
 "M03": ["`silver_vole_ldpc` is documented as insecure and excluded; silver sizes below 64 are refused. `gilboa` with n=1 and a longer mask provider is a misuse."],
 "M04": ["A helper equal to another party is a misuse that is not refused. In the BFV variant the sender sees the sums, as its documentation says. Invalid permutations are not covered."],
 "M05": ["Splits that tie within the 15-bit quantization may go either way; a perturbation of histograms of 0.2 % is within tolerance. Unreachable nodes may carry splits. design/sgb_v2.md still describes earlier histograms."],
}
