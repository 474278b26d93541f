#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the committed file is the output of this script)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=qtext),
      why_tests_cant=why,anchors=dict(files=list(files),
      state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","ChaCha keystream equals the specification",
 "For every 256-bit key, every nonce and every position below the keystream limit, ChaCha8, ChaCha12, ChaCha20 (RFC 8439: 96-bit nonce, 32-bit block counter) and ChaCha20Legacy (Bernstein's original: 64-bit nonce, 64-bit block counter) emit exactly the keystream their specification defines. This holds however many blocks one call asks for and whichever instruction-set backend the CPU selects.",
 ["inputs","configurations"],"all keys, nonces, block positions (32/64-bit counter), request lengths, and CPU feature sets",
 "The tests compare a handful of fixed vectors, almost all in the first few blocks and in one backend per build; carries of the block counter, tail batches of each size and unusual key/nonce words are not reached.",
 ["chacha20/src/lib.rs","chacha20/src/chacha.rs","chacha20/src/legacy.rs","chacha20/src/variants.rs","chacha20/src/backends/soft.rs","chacha20/src/backends/sse2.rs","chacha20/src/backends/avx2.rs","chacha20/src/backends/avx512.rs"],
 [("initial state from constants, key, counter, nonce","chacha20/src/lib.rs ChaChaCore::new_internal"),("round function and per-lane counter increments","chacha20/src/backends/*.rs"),("runtime backend dispatch","chacha20/src/lib.rs process_with_backend")],
 [("state","16 words: constants, key, counter, nonce","chacha20/src/lib.rs ChaChaCore")],["write_keystream / apply_keystream output"])
p("C02","XChaCha and HChaCha equal their specification",
 "For every key and every 192-bit nonce, XChaCha8/12/20 emit the keystream of the IETF ChaCha variant with the same number of rounds, keyed with HChaCha(key, first 16 nonce bytes) and with nonce 0x00000000 followed by the last 8 nonce bytes. HChaCha returns words 0..3 and 12..15 of the permuted state, for every key and 16-byte input and each round count.",
 ["inputs","configurations"],"all keys, all 24-byte nonces, all positions, all three round counts, all CPU feature sets",
 "Tests hold one HChaCha20 vector and two XChaCha20 vectors; the 8 and 12 round forms and positions beyond the first blocks are not compared with anything.",
 ["chacha20/src/xchacha.rs","chacha20/src/lib.rs"],
 [("subkey derivation","chacha20/src/xchacha.rs hchacha"),("nonce split and counter start","chacha20/src/xchacha.rs XChaChaCore::new")],[],["hchacha output","XChaCha keystream"])
p("C03","Salsa20, XSalsa and HSalsa equal their specification",
 "For every key, nonce and position below the keystream limit, Salsa8/12/20 and XSalsa8/12/20 emit exactly the keystream Bernstein's specification defines, with a 64-bit block counter; HSalsa returns the specified subkey for every input and round count. A core built from an arbitrary raw 16-word state generates the Salsa blocks of that state, its 64-bit counter advancing by one per block.",
 ["inputs"],"all keys, nonces, raw states, block positions (64-bit counter) and lengths",
 "ECRYPT vectors fix a few single-bit keys and the first 512 bytes; the reduced-round and X variants have few or no vectors and counter carries across the 32-bit word are untested.",
 ["salsa20/src/lib.rs","salsa20/src/xsalsa.rs","salsa20/src/backends/soft.rs"],
 [("state layout","salsa20/src/lib.rs SalsaCore::new, from_raw_state"),("rounds and counter step","salsa20/src/backends/soft.rs"),("HSalsa and nonce split","salsa20/src/xsalsa.rs")],
 [("state","16 words; words 8,9 are the block counter","salsa20/src/lib.rs SalsaCore")],["keystream","hsalsa output"])
p("C04","Rabbit keystream equals RFC 4503",
 "For every 128-bit key and every 64-bit IV, Rabbit emits exactly the RFC 4503 keystream over the whole stream, including every carry pattern of the counter system. The key-only form emits the RFC keystream without IV setup.",
 ["inputs"],"all keys, all IVs, all stream offsets",
 "The RFC vectors fix six keys/IVs and 48 bytes each; carry chains such as c + a reaching 2^32-1 with an incoming carry have probability about 2^-32 per step and never occur in them.",
 ["rabbit/src/lib.rs"],
 [("counter carry chain","rabbit/src/lib.rs State::counter_update"),("next state, extraction, key and IV setup","rabbit/src/lib.rs State")],
 [("x, c, carry_bit","513-bit inner state","rabbit/src/lib.rs State")],["keystream"])
p("C05","HC-256 keystream equals its specification",
 "For every 256-bit key and 256-bit IV, Hc256 emits exactly the keystream the HC-256 specification defines, at every offset of an arbitrarily long stream (the two 1024-word tables are rewritten forever).",
 ["inputs"],"all keys, all IVs, all stream offsets (many wraps of the 2048-step cycle)",
 "Tests check the first 64 bytes or so of a few key/IV pairs and one long XOR digest; index wrap-around of both tables under other keys is not compared.",
 ["hc-256/src/lib.rs"],
 [("table expansion and 4096 warm-up steps","hc-256/src/lib.rs KeyIvInit::new"),("step function","hc-256/src/lib.rs gen_word")],
 [("ptable, qtable, idx","the two tables and the step index","hc-256/src/lib.rs Hc256Core")],["keystream"])
p("C06","RC4 keystream equals the algorithm for every key length",
 "For every key of 1 to 256 bytes, Rc4 emits exactly the RC4 keystream, at every offset; the 32-byte array constructor agrees with the slice constructor. Keys of any other length are refused with an error and never panic.",
 ["inputs"],"all key lengths 0..=any, all key contents, all stream offsets",
 "RFC 6229 vectors cover eight key lengths and sampled offsets; the remaining lengths, 256-byte keys and long streams are untested.",
 ["rc4/src/lib.rs"],
 [("key schedule and length check","rc4/src/lib.rs KeyInit::new_from_slice"),("output generation","rc4/src/lib.rs prga")],
 [("state, i, j","permutation and indices","rc4/src/lib.rs Rc4")],["keystream","new_from_slice result"])
p("C07","Keystream does not depend on how it is consumed",
 "For every cipher in the repository, the bytes produced for stream positions p..p+n are the same however a history divides the stream into calls of any lengths (including zero-length calls), and whichever consuming call is used: in place, buffer to buffer, in/out, keystream writing, checked or unchecked.",
 ["histories","inputs","configurations"],"all sequences of calls, lengths and call forms, on every cipher and backend",
 "The unit tests split a few fixed vectors a few ways; batch and tail paths depend on the offset inside the block, the length and the previous calls together.",
 ["chacha20/src/backends","chacha20/src/lib.rs","salsa20/src/lib.rs","hc-256/src/lib.rs","rabbit/src/lib.rs","rc4/src/lib.rs"],
 [("block backends: single block, parallel blocks, tail blocks","chacha20/src/backends/*.rs; other crates' Backend"),("byte-wise StreamCipher impl","rc4/src/lib.rs")],
 [("buffered block and core counter","position inside the stream","cipher wrapper object")],["output buffers of every StreamCipher method"])
p("C08","Seeking and position reporting are exact",
 "For every seekable cipher (ChaCha, ChaCha20Legacy, XChaCha, Salsa, XSalsa), after any history, seeking to byte position p makes the next bytes the keystream from p on, the same as reading there from the start; the reported position always equals the number of the next keystream byte, for every integer type that can hold it. A seek to an unreachable position is refused and changes nothing.",
 ["histories","inputs"],"all histories of reads and seeks, all target positions, all position integer types",
 "Tests seek to a few positions of one or two ciphers; seeks from mid-block states, positions across the 32-bit counter word and near the end are not enumerated.",
 ["chacha20/src/lib.rs","chacha20/src/variants.rs","chacha20/src/xchacha.rs","salsa20/src/lib.rs","salsa20/src/xsalsa.rs"],
 [("get_block_pos / set_block_pos","chacha20/src/variants.rs, salsa20/src/lib.rs"),("counter write-back","chacha20/src/backends/*.rs")],
 [("block counter","number of the next block","state words 12,13 (ChaCha) and 8,9 (Salsa)")],["try_seek, try_current_pos, keystream"])
p("C09","The end of the keystream is enforced exactly and atomically",
 "A seekable cipher hands out every keystream byte below its limit (one block short of the full counter range: (2^32-1)*64 bytes for 32-bit counters, (2^64-1)*64 for 64-bit) and no byte beyond it, so a key/nonce never produces a repeated block. A request that would cross the limit fails, and then neither the caller's buffers nor the cipher's position and later output are changed; the remaining-keystream query agrees with what a request would do. Non-seekable ciphers never report exhaustion.",
 ["histories","inputs"],"all histories ending near the limit, all request lengths (including lengths near the maximum integer) and call forms",
 "Only one test per cipher touches the limit, at one position and length; the other backends, lengths and call forms near it are unexplored.",
 ["chacha20/src/variants.rs","chacha20/src/lib.rs","chacha20/src/xchacha.rs","salsa20/src/lib.rs","salsa20/src/xsalsa.rs","rc4/src/lib.rs","rabbit/src/lib.rs","hc-256/src/lib.rs"],
 [("remaining_blocks","chacha20/src/variants.rs, salsa20/src/lib.rs"),("check_remaining","rc4/src/lib.rs")],
 [],["Result of try_* calls, buffers, later output"])
p("C10","Encryption is XOR with the keystream, confined to the caller's buffers",
 "For every cipher, applying the keystream writes plaintext XOR keystream for every data value, so a second application at the same position restores the data. A call reads and writes only the slices it was given, of any length and alignment: the input of a buffer-to-buffer call is unchanged, and a call with buffers of unequal length fails without writing.",
 ["inputs","configurations"],"all data contents, lengths, alignments, call forms, backends",
 "Tests use aligned vectors and zero or fixed plaintexts; over-read or over-write of a few bytes by a vector store is invisible to them.",
 ["chacha20/src/backends/sse2.rs","chacha20/src/backends/avx2.rs","chacha20/src/backends/avx512.rs","chacha20/src/backends/soft.rs","salsa20/src/backends/soft.rs","rc4/src/lib.rs","hc-256/src/lib.rs","rabbit/src/lib.rs"],
 [("vector stores into the block buffers","chacha20/src/backends/*.rs"),("byte-wise XOR","rc4/src/lib.rs")],[],["memory around the buffers, buffers"])
p("C11","All backends and build configurations give identical results",
 "For every key, nonce and call history, the chacha20 crate's ciphers, block-level cores and RNGs return identical results under every supported build configuration: automatic detection with any CPU feature set, each forced backend, with or without AVX-512 support compiled in, and every feature combination. Each documented configuration compiles.",
 ["configurations","histories"],"every backend and feature configuration times histories and inputs",
 "Each test run exercises one backend of one configuration on fixed vectors; nothing compares configurations, and forced avx2 / avx512 builds are never built.",
 ["chacha20/src/lib.rs","chacha20/src/backends.rs","chacha20/src/backends","chacha20/src/rng.rs","chacha20/Cargo.toml"],
 [("backend selection","chacha20/src/lib.rs process_with_backend, chacha20/src/rng.rs generate"),("module gating","chacha20/src/backends.rs")],[],["keystream, RNG words, positions, errors"])
p("C12","RNG output is the ChaCha stream in order",
 "ChaCha8Rng/12/20 return, for every seed and stream number, the words of the 64-bit-counter ChaCha keystream for that key and nonce in order: a 32-bit draw takes the next word, a 64-bit draw the next two (low first), and filling bytes takes whole words in little-endian order, discarding the unused part of the last one. This holds for any interleaving of draws and across the wrap of the 64-bit block counter; no draw ever fails.",
 ["histories","inputs","configurations"],"all draw sequences, fill lengths, seeds, streams and start positions, all backends",
 "The tests compare fixed draw patterns from fresh seeds; draws straddling the 4-block refill, odd fills and counter carries (2^32 and 2^64 blocks) are sampled at most once.",
 ["chacha20/src/rng.rs","chacha20/src/backends"],
 [("refill of four blocks","chacha20/src/rng.rs Generator::generate, backends' rng paths"),("draws","chacha20/src/rng.rs impl_chacha_rng")],
 [("core counter, buffer, cursor","position in the stream","chacha20/src/rng.rs")],["next_u32, next_u64, fill_bytes"])
p("C13","RNG position and stream control is exact",
 "After any history, the reported word position and block position equal the number of words drawn since the stream's start (as set), modulo 2^68 words; setting a word position, block position or stream makes the next draws come from exactly there, with the stream number kept by positioning and the position reset to 0 by choosing a stream. No position query or change panics or disturbs the values that follow.",
 ["histories","inputs"],"all histories of draws and position changes, all 68-bit word positions, 64-bit blocks and streams",
 "Tests set a few positions from a fresh RNG; mid-buffer positions, wraps of the block counter and combinations of setters are not enumerated.",
 ["chacha20/src/rng.rs"],
 [("get_word_pos / set_word_pos / get_block_pos / set_block_pos / set_stream / get_stream / get_seed","chacha20/src/rng.rs")],
 [("state[12..16]","block counter and stream","chacha20/src/rng.rs"),("buffer cursor","words of the buffer used","rand_core BlockRng")],["get_* results and later draws"])
p("C14","RNG serialization and equality are faithful",
 "Serializing an RNG after any history and deserializing it yields an RNG that compares equal, reports the same seed, stream and position, and produces the same future output; serializing again gives the same 49 bytes, which depend only on seed, stream and position. Two RNGs compare equal exactly when their seed, stream and word position are equal, whatever their histories.",
 ["histories","inputs"],"all histories, seeds, streams and positions; all pairs of reachable RNG states",
 "Tests round-trip a few states; equality is tested on a handful of pairs, though two states at one position can hold different buffered blocks.",
 ["chacha20/src/rng.rs"],
 [("serialize_state / deserialize_state","chacha20/src/rng.rs"),("PartialEq","chacha20/src/rng.rs")],[],["serialized bytes, ==, later draws"])
p("C15","Block-level core API counts blocks correctly, modulo the counter size",
 "At block level (single blocks, any number of blocks, write or apply, in place or in/out, consuming partial call), a ChaCha, XChaCha, Salsa or XSalsa core generates block b, b+1, ... of its key and nonce, leaves its block position advanced by the number of blocks modulo 2^32 or 2^64, and never alters key or nonce. Setting any block position is exact, the remaining-blocks query equals the distance to the largest counter value, and the RNG form of a core fills four consecutive blocks.",
 ["histories","inputs","configurations"],"all sequences of block-level calls, block counts, start positions including counter wrap, all backends",
 "Block-level calls are only used indirectly by tests; wrap of the counter and batch sizes other than those of the vectors are not reached.",
 ["chacha20/src/lib.rs","chacha20/src/variants.rs","chacha20/src/backends","salsa20/src/lib.rs","salsa20/src/backends/soft.rs","chacha20/src/xchacha.rs","salsa20/src/xsalsa.rs"],
 [("backend counter stepping and write-back","chacha20/src/backends/*.rs, salsa20/src/backends/soft.rs"),("counter accessors","chacha20/src/variants.rs, salsa20/src/lib.rs")],[],["blocks written, get_block_pos, remaining_blocks"])
p("C16","Dropped ciphers and RNGs leave nothing secret behind",
 "With the zeroize feature enabled, dropping any cipher, core or RNG object of the repository, after any history, leaves in the memory it occupied nothing that depends on the key, nonce, position or keystream. Every such type declares this by implementing ZeroizeOnDrop.",
 ["histories","configurations"],"all types, all histories before the drop, all keys; each crate's zeroize feature on its own",
 "Tests only check at best that the trait is implemented; none inspects memory after a drop.",
 ["chacha20/src/lib.rs","chacha20/src/rng.rs","chacha20/src/xchacha.rs","salsa20/src/lib.rs","salsa20/src/xsalsa.rs","hc-256/src/lib.rs","rabbit/src/lib.rs","rc4/src/lib.rs","chacha20/Cargo.toml"],
 [("Drop impls","each crate's lib.rs"),("Generator::drop","chacha20/src/rng.rs")],[],["memory of the object after drop"])
p("C17","Debug output reveals nothing about secrets",
 "Formatting any cipher, core or RNG object that can be formatted gives text that does not depend on key, seed, nonce, stream, position or buffered keystream, in any state of the object.",
 ["histories","inputs"],"all formattable types, all keys/nonces/seeds, all histories, all formatter flags",
 "Tests format at most one RNG in its initial state.",
 ["chacha20/src/lib.rs","chacha20/src/rng.rs","chacha20/src/xchacha.rs","hc-256/src/lib.rs"],
 [("Debug impls","chacha20/src/lib.rs, chacha20/src/rng.rs, hc-256/src/lib.rs")],[],["{:?} and {:#?} text"])
p("C18","Instances are independent under every interleaving",
 "Operations on distinct cipher or RNG objects never influence each other: under every interleaving of their operations, between calls or in the middle of a call, on one thread or several, each object returns exactly what it would return alone. Constructing or dropping an object has no effect on others.",
 ["schedules","histories"],"all interleavings of operation sequences of several objects of all types, and all preemption points within an operation",
 "Tests use one object at a time, on one thread per test.",
 ["chacha20/src/lib.rs","chacha20/src/rng.rs","salsa20/src/lib.rs","hc-256/src/lib.rs","rabbit/src/lib.rs","rc4/src/lib.rs"],
 [("no shared mutable state except cached CPU detection","chacha20/src/lib.rs cpufeatures tokens")],[],["outputs of all operations of all objects"])
p("C19","Constructors accept exactly the documented lengths and agree",
 "Each cipher's slice constructors succeed exactly for the documented key and nonce/IV lengths and otherwise return an error without panicking; when they succeed, the object behaves identically to the one made by the array constructor with the same bytes, and every byte of key and nonce takes effect. Ciphers built from a core, or from an inner key-only object plus IV, behave like those built directly.",
 ["inputs"],"all key lengths and IV lengths, all constructors, every key and IV byte",
 "Tests construct with correct lengths only.",
 ["chacha20/src/chacha.rs","chacha20/src/legacy.rs","chacha20/src/xchacha.rs","salsa20/src/lib.rs","salsa20/src/xsalsa.rs","hc-256/src/lib.rs","rabbit/src/lib.rs","rc4/src/lib.rs","chacha20/src/rng.rs"],
 [("KeySizeUser / IvSizeUser / KeyIvInit / KeyInit / InnerIvInit impls","each crate")],[],["Result of new_from_slices, keystream"])
p("C20","What is executed does not depend on secrets",
 "For the chacha20 crate (documented as constant time), and likewise for salsa20 and rabbit, the sequence of instructions executed and of memory addresses accessed while constructing a cipher or RNG, processing data and drawing random numbers depends only on public quantities (lengths, positions, call kinds, CPU features) and never on key, nonce, seed, plaintext or keystream values. For hc-256 and rc4, which look up tables by secrets by design, this holds for the sequence of instructions (no secret-dependent branch).",
 ["inputs","configurations"],"all secret values, for each operation, backend and length",
 "No test observes executed instructions or addresses.",
 ["chacha20/src/backends","chacha20/src/lib.rs","chacha20/src/xchacha.rs","chacha20/src/rng.rs","salsa20/src/lib.rs","salsa20/src/xsalsa.rs","salsa20/src/backends/soft.rs","rabbit/src/lib.rs","hc-256/src/lib.rs","rc4/src/lib.rs"],
 [("branch-free rounds","chacha20/src/backends/*.rs, chacha20/src/lib.rs quarter_round, salsa20/src/lib.rs quarter_round"),("branch-free counter system and next-state function","rabbit/src/lib.rs State")],[],["instruction and address trace of each call"])
p("C21","No instruction beyond the detected CPU features is executed",
 "Whatever set of x86 features the CPU reports, the chacha20 crate's ciphers and RNGs execute only instructions belonging to that set (plus the baseline the build targets), so that they work on every supported CPU; a forced backend uses only the features its documentation requires.",
 ["configurations","histories"],"all CPU feature sets, all operations and lengths",
 "Tests run on one modern CPU where every instruction exists.",
 ["chacha20/src/lib.rs","chacha20/src/rng.rs","chacha20/src/backends/sse2.rs","chacha20/src/backends/avx2.rs","chacha20/src/backends/avx512.rs"],
 [("feature tokens and dispatch order","chacha20/src/lib.rs"),("intrinsics used per backend","chacha20/src/backends/*.rs")],[],["opcodes executed"])
p("C22","Results do not depend on the target architecture",
 "On big-endian, 32-bit and AArch64 NEON targets, every cipher and RNG of the repository returns the same bytes, words, positions and errors as its specification (and hence as on x86-64).",
 ["configurations","inputs"],"targets times call shapes, positions (counter carries) and inputs",
 "The tests run on x86-64 only here; the NEON backend and big-endian paths are never executed.",
 ["chacha20/src/backends/neon.rs","chacha20/src/backends/soft.rs","chacha20/src/rng.rs","chacha20/src/lib.rs","salsa20/src","hc-256/src/lib.rs","rabbit/src/lib.rs","rc4/src/lib.rs"],
 [("little-endian conversions","each crate"),("NEON backend","chacha20/src/backends/neon.rs")],[],["outputs on the interpreted target"])
p("C23","No operation has undefined behaviour",
 "No sequence of safe public calls, with buffers of any length and alignment, makes the repository's code perform undefined behaviour: no out-of-bounds or misaligned access, no read of uninitialised memory, no invalid aliasing, on any backend.",
 ["histories","inputs","configurations"],"all call shapes (operation, length, alignment, position) on every backend",
 "Tests run natively, where such errors are usually silent.",
 ["chacha20/src/backends","chacha20/src/rng.rs","chacha20/src/lib.rs"],
 [("raw pointer loads and stores","chacha20/src/backends/*.rs"),("unsafe backend calls","chacha20/src/lib.rs, chacha20/src/rng.rs")],[],["interpreter's undefined-behaviour detector"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,x["id"]
print(len(P))
