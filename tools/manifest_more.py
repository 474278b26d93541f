T.update({
 "C01": (EX, "exhaustive enumeration of a bounded input space on the real code", "Complete alphabets of keys/nonces (every bit, every byte value at every byte, bit pairs), every batch size, carry positions 2^k+-d, every x86 backend; compared with an independent reference. Not every key."),
 "C02": (EX, "exhaustive enumeration of a bounded input space on the real code", "As C01 for XChaCha and HChaCha."),
 "C03": (EX, "exhaustive enumeration of a bounded input space on the real code", "As C01 for Salsa, XSalsa, HSalsa and raw-state cores."),
 "C04": (EX, "exhaustive enumeration of a bounded input space on the real code", "Alphabets of keys/IVs plus single-step enumeration of carry patterns; not every key."),
 "C05": (EX, "exhaustive enumeration of a bounded input space on the real code", "Alphabets of keys/IVs; offsets over many wraps of the tables."),
 "C06": (EX, "exhaustive enumeration of a bounded input space on the real code", "Every key length 0..=300, key-content alphabets, long streams."),
})
T.update({
 "C12": (MC, "explicit-state exploration of all call sequences on the real code, against a reference model", "Every sequence of draw calls over a word-granular alphabet until no new state, near every boundary of the counter, for chosen seeds/streams and all x86 backends."),
 "C13": (MC, "explicit-state exploration of all call sequences on the real code, against a reference model", "Draws and all position/stream setters with boundary values; bounded alphabets of positions."),
 "C14": (MC, "explicit-state exploration of all call sequences on the real code, against a reference model", "All reachable states of the explored alphabets serialized, restored and compared pairwise."),
 "C15": (MC, "explicit-state exploration of all call sequences on the real code, against a reference model", "Block-level call sequences around counter boundaries for all cores, 32/64-bit counters, all x86 backends."),
 "C19": (EX, "exhaustive enumeration of a bounded input space on the real code", "All key x nonce lengths 0..=N; per-bit key/nonce sensitivity."),
})
T.update({
 "C10": (EX, "exhaustive enumeration of a bounded input space on the real code", "Every length and placement up to the bound between guard pages, every alignment pair, every data byte value, every unequal length pair; one key per cipher."),
 "C16": (EX, "exhaustive enumeration of a bounded set of histories on the real code", "Post-drop memory images of every type over an explicit set of secrets and histories; says nothing about copies the compiler leaves elsewhere."),
 "C17": (EX, "exhaustive enumeration of a bounded set of states on the real code", "Texts over alphabets of secrets and windows of positions, 15 format strings."),
})
T.update({
 "C11": (MC, "explicit-state exploration of all call sequences on the real code, in every build configuration", "11 build configurations x every subset of the dispatched CPU features, each explored with the same closed set of histories; all 20 feature combinations compared by a fixed transcript in 7 backend configurations. x86-64 only (other targets: C22)."),
})
T.update({
 "C20": (EX, "instruction-by-instruction exploration of the real executions over a complete alphabet of secrets", "Traces (instruction addresses, address-forming registers) of every operation x backend over explicit alphabets of keys, nonces, seeds, plaintexts and rare keystream words; optimised build of one compiler; for HC-256 and RC4 instruction addresses only. Says nothing about micro-architectural timing of one instruction."),
 "C21": (EX, "instruction-by-instruction exploration of the real executions in every reported feature set", "Every feature set closed under implication (as far as this machine executes AVX-512) and every forced backend x all operations and batch shapes; executed opcodes are classified by a hand-written decoder with self-checks; one compiler and optimisation level."),
})
T.update({
 "C18": (MC, "exhaustive enumeration of interleavings of the real code: between calls, and one preemption at every instruction", "All interleavings of short call sequences of pairs/triples of objects of every type; for each ordered pair of types/operations, the first operation is stopped at every one of its instructions and the other runs there (by classes of partner where the table says so). One preemption; sequentially consistent memory; bounded call sequences."),
})
T.update({
 "C22": (MC, "exhaustive enumeration of bounded call sequences on the real code, executed by an interpreter of each target", "Miri executes every sequence of bounded length over call lengths, forms, seeks, block-level and RNG operations for aarch64 (NEON and portable), aarch64_be, s390x, mips (32-bit big-endian) and i686; results compared call by call with the model. Sequence length 1-2 per type; an interpreter, not the target's compiler."),
})
T.update({
 "C23": (MC, "exhaustive enumeration of bounded call sequences on the real code, executed by an interpreter that detects undefined behaviour", "Miri (Stacked Borrows, validity, bounds, alignment, uninitialised reads) executes every form x length x placement of an alphabet, block-level batches, RNG calls and constructors with the SSE2, AVX2, AVX-512, NEON and portable code on x86-64, i686, aarch64 and s390x; the search for aliasing violations covers a smaller set of calls than the one for bounds and alignment."),
})
