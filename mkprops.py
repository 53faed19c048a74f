#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
MAP = {"allocation-failure points":"fault_sequences","operation histories":"histories","call sequences":"histories","random streams":"inputs",
 "allocation-failure and random-source-failure points":"fault_sequences","random-source-failure and allocation-failure points":"fault_sequences","message corruption":"fault_sequences",
 "network faults":"fault_sequences","message schedules":"schedules","crash points":"crash_points","fragmentations":"histories","interleavings":"schedules",
 "restart points":"crash_points","call histories":"histories","buffer overlaps":"inputs"}
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    over = list(dict.fromkeys(MAP.get(o, o) for o in over))
    if "observe_at" in kw: kw["observe_at"] = [kw["observe_at"]]
    if "state" in kw: kw["state"] = [dict(name="generator state", meaning=kw["state"], where=files[0])]
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=qtext), why_tests_cant=why,
      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw)))

prop("C01", "MPI arithmetic is exact or reports an error, under memory pressure too",
 "Every multi-precision arithmetic call that returns 0 leaves the mathematically exact, normalised result in its destination, for every operand size, sign and permitted aliasing, whichever multiplication/squaring algorithm is selected. When the allocator fails at any point of the call it returns an error (or still the exact result), and the read-only operands are untouched, nothing is leaked or corrupted, and every involved number can still be cleared, reassigned and used. With no fault and a legal call it never reports an error and always terminates.",
 ["inputs", "allocation-failure points", "operation histories"],
 "For every sequence of MPI operations over a shared pool of numbers (any sizes, signs, in-place or distinct destinations) and every allocation-failure pattern during them.",
 "The unit tests use a few fixed operands and fail single allocations in only a handful of functions; carry chains, algorithm thresholds, aliasing, stale destination contents and the k-th allocation of a nested computation are far outside that sample.",
 ["src/mpi", "include/cry/mpi.h"],
 [("add/sub/abs", "src/mpi/mpi_add.c, mpi_sub.c, mpi_add_abs.c, mpi_sub_abs.c, mpi_abs.c"),
  ("mul/sqr dispatch and algorithms", "src/mpi/mpi_mul*.c, mpi_sqr*.c"),
  ("division", "src/mpi/mpi_div.c, mpi_div_abs.c"),
  ("shift, compare, count_bits", "src/mpi/mpi_shl.c, mpi_shr.c, mpi_cmp*.c, mpi_core.c"),
  ("exp/mod_exp/inv/gcd/lcm/sqrt", "src/mpi/mpi_exp.c, mpi_mod_exp.c, mpi_inv.c, mpi_gcd.c, mpi_lcm.c, mpi_sqrt.c")],
 observe_at="return value and digits/sign of every cry_mpi passed to the call; allocator ledger", hook_needed="none (allocator interposed at link time)")

prop("C02", "MPI and context initialisation/conversion is all-or-nothing",
 "Creating, copying, loading and storing multi-precision numbers (from/to longs, binary buffers, strings, single or in lists) and initialising points, groups, RSA, DSA, ECDSA, ElGamal, DH and ECDH contexts either succeed with exactly the value or object asked for, or return an error and, for an initialiser, hold no memory. Round trips (binary, string in radix 2..16, long) reproduce the same number, a printed number is the complete one, and the store functions never write outside the buffer they were given nor outside the announced length. After the matching clear nothing remains allocated, whatever allocation failed in between.",
 ["inputs", "allocation-failure points", "call sequences"],
 "For every value, radix, buffer size and destination history, and every allocation-failure pattern inside the call.",
 "Tests convert a few constants and fail at most the first allocation; partial construction at the k-th member of a list or context, and a stale sign or length in a reused destination, are never sampled.",
 ["src/mpi/mpi_core.c", "src/mpi/mpi_bin.c", "src/mpi/mpi_str.c", "src/mpi/mpi_list.c", "src/ecp", "src/crypt"],
 [("list construction and rollback", "src/mpi/mpi_list.c, src/ecp/ecp_list.c"),
  ("binary/string/long conversion", "src/mpi/mpi_bin.c, src/mpi/mpi_str.c, src/mpi/mpi_core.c"),
  ("context init/clear", "src/crypt/{rsa,dsa,ecdsa,elgamal,dh,ecdh}.c, src/ecp/ecp_core.c, ecp_curves.c")],
 observe_at="return value, object contents, destination buffers with guard zones, allocator ledger")

prop("C03", "Elliptic-curve point arithmetic obeys the group law or reports an error",
 "Point addition, doubling and scalar multiplication that return 0 deliver the exact group element (point at infinity included) for every pair of points on a supported curve and every non-negative scalar, in place or not, on every built-in curve and on custom short-Weierstrass groups. Under allocation failure at any point they return an error or the exact element, keep the input points, scalar and group parameters intact, and leak nothing. With no fault and a legal call they do not fail.",
 ["inputs", "allocation-failure points", "operation histories"],
 "For all points (including equal, opposite and infinity operands), all scalars (0, 1, order-1, order, order+1, arbitrary) and all allocation-failure patterns.",
 "Tests multiply a handful of fixed points; special cases of the affine law and of windowed multiplication, in combination with the n-th failing allocation among hundreds inside one multiplication, cannot be sampled by them.",
 ["src/ecp"],
 [("addition/doubling", "src/ecp/ecp_add.c, ecp_dbl.c"), ("scalar multiplication (sliding window)", "src/ecp/ecp_mul.c"),
  ("built-in groups", "src/ecp/ecp_curves.c")],
 observe_at="affine coordinates and infinity marker of the result; allocator ledger")

prop("C04", "Signatures fail closed and every reported signature verifies",
 "For DSA, ECDSA, ElGamal and RSA: a sign call that returns success has produced a signature that the mathematical definition accepts for that key and message, and key generation that returns success has produced a matching, usable key pair. A verify call returns 0 exactly when the definition accepts (with r and s in their legal ranges), for signatures that were corrupted, truncated to zero, replayed under another message or key, or forged out of range. When an allocation or the random source fails during sign, verify or keygen the call reports an error or a correct outcome - it never accepts an invalid signature and never reports success with a bad one. While the random source delivers fresh bytes, no two signatures of a key share their per-signature secret, and neither that secret nor a generated private key has a constant part.",
 ["inputs", "random streams", "allocation-failure and random-source-failure points", "message corruption"],
 "For all messages, keys and nonce streams (including those that lead to k=0, r=0 or s=0), all corruptions of a signature in flight and all fault points inside sign, verify and keygen.",
 "Tests check one known-answer signature per scheme with a fixed nonce; the degenerate nonces have negligible probability on real parameters and error paths that return success are invisible without injected faults.",
 ["src/crypt/dsa.c", "src/crypt/ecdsa.c", "src/crypt/elgamal.c", "src/crypt/rsa.c"],
 [("DSA sign/verify/keygen", "src/crypt/dsa.c"), ("ECDSA sign/verify/keygen", "src/crypt/ecdsa.c"),
  ("ElGamal sign/verify", "src/crypt/elgamal.c"), ("RSA sign/verify", "src/crypt/rsa.c")],
 observe_at="return values and signature components, judged by independent big-integer models")

prop("C05", "RSA channel: decrypt(encrypt(m)) is m for every length, or an error",
 "A message of any length encrypted with the public key and delivered intact decrypts to exactly that message, with exactly that length, on any private-key node, padded or not (unpadded: within the documented one-value-per-block domain), across several blocks. A ciphertext that is truncated, extended, corrupted or encrypted for another key never causes memory corruption, and with padding on never decrypts silently to a block whose padding is invalid. If memory or randomness fails in either direction the call returns an error with no buffer handed out and nothing leaked; otherwise success means the right answer. With padding on, two encryptions of a message differ as long as the random source delivers fresh bytes.",
 ["inputs", "network faults", "allocation-failure and random-source-failure points"],
 "For all key sizes, message lengths, padding random streams, ciphertext corruptions and fault points.",
 "The unit test encrypts one short block with one fixed key; multi-block output placement and padding with zero random bytes only show for lengths and random streams it does not try.",
 ["src/crypt/rsa.c", "include/cry/rsa.h"],
 [("encrypt/decrypt block loop", "src/crypt/rsa.c: cry_rsa_encrypt, cry_rsa_decrypt"), ("PKCS#1 v1.5 padding", "src/crypt/rsa.c: padding helpers"), ("key generation", "src/crypt/rsa.c: cry_rsa_keygen")],
 observe_at="output buffer, length and return value; allocator ledger")

prop("C06", "DH/ECDH: honest peers that both succeed agree on the right secret",
 "Two peers that exchange public values over a lossy, duplicating, reordering network, with crashes and restarts that lose volatile state and retransmission, and that both report success in the same session derive the same secret, equal to the one the mathematics of their private values prescribes. Under allocation or random-source failure an operation reports an error rather than handing out a wrong public value or secret, and can simply be retried on the same context. Once faults stop, the handshake completes within a bounded number of steps.",
 ["message schedules", "crash points", "allocation-failure and random-source-failure points", "random streams"],
 "For all delivery orders, losses, duplicates, crash/restart points, fault points and random streams, on all supported groups.",
 "dh_test and ecdh_test are not even built; no test retries a failed step, reuses a context for a second session or fails an allocation in the key agreement.",
 ["src/crypt/dh.c", "src/crypt/ecdh.c", "include/cry/dh.h", "include/cry/ecdh.h"],
 [("DH agree/finalise", "src/crypt/dh.c"), ("ECDH agree/finalise", "src/crypt/ecdh.c")],
 observe_at="return values, public values on the wire and shared secrets")

prop("C07", "Digests, MACs and CRCs do not depend on fragmentation or interleaving",
 "For MD5, SHA-1, SHA-256, SHA-384/512, HMAC (64-byte-block hashes), CMAC and the CRCs, the final value depends only on the concatenation of the bytes fed since the last init, however the stream was split into update calls (empty ones included) and however calls on other contexts were interleaved. That value is the standard's value for the message. A digest or tag is written only to the bytes announced by the call, and an update never writes to its input.",
 ["fragmentations", "interleavings", "inputs"],
 "For all messages, all splits into updates, and all interleavings of operations on several live contexts.",
 "Tests feed a few messages, mostly in one piece; the boundary cases of buffered bytes vs. block size and the padding lengths per residue are exponentially many.",
 ["src/hash", "src/crypt/hmac.c", "src/crypt/cmac.c", "src/crc"],
 [("block buffering and padding", "src/hash/*.c"), ("HMAC", "src/crypt/hmac.c"), ("CMAC", "src/crypt/cmac.c"), ("CRC", "src/crc/*.c")],
 observe_at="digest/tag/CRC values")

prop("C08", "Cipher modes and stream ciphers: decrypt inverts encrypt in any segmentation",
 "For CBC, CFB, CFB8, CTR, GCM (AES and DES as applicable), ARC4 and Trivium, encrypting a stream in any legal sequence of segments, in place or to another buffer, gives the same ciphertext as one call, and that ciphertext is the one the mode's definition prescribes. A receiver that was set up with the same key and IV recovers the plaintext in whatever legal segmentation the data arrives; one block-cipher context may serve both directions alternately. This also holds when the temporary buffer some calls allocate cannot be obtained, and no call writes outside the destination or changes a distinct source.",
 ["fragmentations", "interleavings", "allocation-failure points", "inputs"],
 "For all keys, IVs, lengths, legal segmentations on both sides, buffer overlaps permitted by the API, and allocation failures.",
 "Tests run one vector per mode in one call; carry of the feedback register or the counter across call boundaries, counter wrap, in-place operation and the fallback without temporary memory are combinations they do not sample.",
 ["src/crypt/cbc.c", "src/crypt/cfb.c", "src/crypt/ctr.c", "src/crypt/gcm.c", "src/crypt/arc4.c", "src/crypt/trivium.c"],
 [("feedback/counter state across calls", "src/crypt/cbc.c, cfb.c, ctr.c, gcm.c"), ("key stream position", "src/crypt/arc4.c, trivium.c")],
 observe_at="output bytes against an independent implementation of the mode")

prop("C09", "GCM tags and AES key wrap detect any corruption in flight",
 "The GCM tag computed by sender and receiver agree, and equal the standard's tag, exactly when key, IV, additional data and ciphertext are the same, in any legal segmentation. An AES-wrapped key that arrives intact unwraps to the original key, for every legal length; one that was corrupted, truncated, reordered or wrapped under another key is rejected and no key material reaches the caller's buffer in usable form. Nothing is written outside the announced output.",
 ["network faults", "fragmentations", "inputs"],
 "For all keys, IVs, messages, segmentations and corruptions of what is on the wire.",
 "gcm_test is not built and the wrap test has a few vectors; long wraps, odd AAD/IV lengths and corrupted inputs are not sampled.",
 ["src/crypt/gcm.c", "src/utils/aes_wrap.c"],
 [("GHASH and tag", "src/crypt/gcm.c"), ("RFC 3394 wrap/unwrap", "src/utils/aes_wrap.c")],
 observe_at="tag bytes, unwrap return value and output buffer")

prop("C10", "PRNG output is a function of the seed and the bytes drawn, nothing else",
 "After (re)initialising a generator (AES-CTR, LFSR113) with a seed of any length including none, the bytes it produces depend only on that seed and on how the stream was drawn, never on the history before the initialisation or on the contents of the caller's buffers; for the AES generator the byte stream is moreover independent of how it is cut into calls and equals AES-128-CTR of the seed. Distinct stream positions are never replayed without a re-initialisation. Exactly the requested bytes are written and seeds are only read within their length.",
 ["restart points", "call histories", "inputs"],
 "For all seeds, all sequences of initialisations (process restarts of the generator) and draws of any sizes.",
 "rand_test is not built; generator state is process-global, so its dependence on earlier history appears only in multi-step sequences.",
 ["src/prng/prng_aes.c", "src/prng/prng_lfsr113.c"],
 [("AES-CTR generator", "src/prng/prng_aes.c"), ("LFSR113", "src/prng/prng_lfsr113.c")],
 state="process-global generator state", observe_at="bytes drawn")

prop("C11", "Random numbers, primes and keys are well formed for every random stream",
 "For every stream the random source may deliver (all zero, all one, repeating, arbitrary), a random number has at most the asked number of bits and a ranged one lies in [0, max), the primality test never rejects a prime and never runs forever, and a successful prime search yields a number of exactly the asked size that is prime up to the test's documented error. Every bit of a random number below its top one follows the random stream. Keys built from them (RSA, DSA, ECDSA) satisfy their defining equations and ranges. A failing random source or allocator yields an error, never a short, constant or uninitialised number reported as success.",
 ["random streams", "random-source-failure and allocation-failure points", "inputs"],
 "For all sizes and bounds, all random streams including adversarial ones, and all fault points.",
 "Tests run with the one stream of the default seed; leading zero bytes, rejected candidates, base 0 in Miller-Rabin and failing sources do not occur there.",
 ["src/mpi/mpi_rand.c", "src/mpi/mpi_prime.c", "src/crypt/rsa.c", "src/crypt/dsa.c", "src/crypt/ecdsa.c"],
 [("random numbers", "src/mpi/mpi_rand.c"), ("primality and prime search", "src/mpi/mpi_prime.c"), ("key generation", "src/crypt/*.c: *_keygen")],
 observe_at="returned numbers and return values", hook_needed="none (cry_prng_aes_rand interposed at link time)")

prop("C12", "Threads working on their own objects do not influence each other",
 "Threads that each modify only their own contexts and numbers (hashes, MACs, ciphers, modes, MPI, EC, public-key operations, primes and key generation; operands passed as const may be shared) obtain, under every preemption schedule, exactly the results they would obtain running alone and drawing the same random bytes. No hidden shared mutable state is touched outside the generators documented as global. An allocation failure hitting one thread does not change the result of another.",
 ["schedules", "allocation-failure points"],
 "For all interleavings of 2-4 caller threads with preemption possible at any memory access of the library.",
 "All tests are single threaded.",
 ["src"],
 [("reentrancy of all context based APIs", "src/**"), ("constant tables", "src/crypt/aes.c, des.c, gcm.c, src/ecp/ecp_curves.c, src/crc")],
 observe_at="per-thread results against a run alone, under a simulated scheduler")

prop("C13", "Contexts can be abandoned, cleared and re-initialised at any point",
 "A context of any hash, MAC, cipher, mode, or key object that is abandoned in the middle of a message and initialised again behaves exactly like a fresh one: nothing of the earlier key, IV, message or length leaks into later results. Clearing a symmetric, hash, RSA, DSA, ECDSA, ElGamal or DH context at any point of its life leaves no key or message byte in the context structure and no memory allocated. This holds whatever garbage the context memory contained before the first init.",
 ["crash points", "call histories", "inputs"],
 "For all histories of init/update/crypt/clear/re-init and all initial contents of the context memory.",
 "Tests use each context once, zero-filled on a fresh stack, and never look at it after clear.",
 ["src/crypt", "src/hash", "src/utils"],
 [("init/clear of every context", "src/hash/*.c, src/crypt/*.c")],
 observe_at="results compared with a fresh context; bytes of the context structure after clear")

prop("C14", "memxor combines buffers correctly for every overlap, memory or no memory",
 "The two- and three-operand memory xor functions leave in the destination the exclusive or of the bytes the operands held before the call, for every length, alignment and overlap of destination and sources they accept. The result is the same when the temporary buffer some overlaps need cannot be allocated. Bytes outside the destination are never changed and nothing is leaked.",
 ["allocation-failure points", "buffer overlaps", "inputs"],
 "For all lengths, alignments, overlap geometries and allocation failures.",
 "Tests use a few aligned, disjoint buffers and never fail the allocation inside.",
 ["src/crypt/memxor.c"],
 [("overlap case analysis and temporary buffer", "src/crypt/memxor.c: cry_memxor2")],
 observe_at="destination and surrounding bytes")

prop("C15", "Base64, affine and Hill invert across the channel; generated keys are usable",
 "Base64 text that arrives intact decodes to exactly the bytes that were encoded, for every length; text that arrives with an illegal character or a length that is not a multiple of four is refused; neither direction touches memory outside the text and the decoded length. Affine and Hill decryption, in place or not, gives back every message (Hill: zero padded to whole blocks) for every valid key; a key that is not invertible is refused. Hill key generation that reports success has produced an invertible matrix with its inverse that follows the random source, whatever that delivers; if the random source fails it reports an error.",
 ["inputs", "fault_sequences", "histories"], "For all messages, keys and dimensions, all damage on the channel, all random streams and failures of the random source.",
 "base64, affine and Hill tests have a few vectors; random key generation, damaged text and failures of the random source are never exercised.",
 ["src/crypt/base64.c", "src/crypt/affine.c", "src/crypt/hill.c", "src/misc.c"], [("codec and its table of legal characters", "src/crypt/base64.c"), ("matrix inversion and key generation loop", "src/crypt/hill.c: keygen, mtx_invert"), ("inverse modulo 256", "src/misc.c: cry_long_inv")])
prop("C16", "Block cipher contexts follow the standard whatever their history",
 "AES-128/192/256 and DES/3DES encrypt every block to the standard's value for the key that was set last on that context and decryption inverts it, in place or not, for any number of blocks, regardless of the keys, directions, modes and messages the context served before, of the previous contents of its memory, and of calls on other contexts in between. Sources, keys and bytes outside the destination are not modified.",
 ["inputs", "histories", "schedules"], "For all keys and blocks and all histories of key_set/encrypt/decrypt/clear over several interleaved contexts.",
 "Tests sample known-answer vectors, each with a fresh context used in one direction once.",
 ["src/crypt/aes.c", "src/crypt/des.c"], [("key schedule shared by both directions", "src/crypt/aes.c: cry_aes_key_set, key_invert, key_restore"), ("round functions", "src/crypt/aes.c, src/crypt/des.c")])
prop("N04", "Timing of secret-dependent operations",
 "Execution time and memory access pattern do not depend on secret data.",
 ["inputs"], "For all keys.", "Tests do not measure side channels.",
 ["src/crypt/aes.c", "src/mpi/mpi_mod_exp.c", "src/ecp/ecp_mul.c"], [("table look-ups, windowed loops", "src/crypt/aes.c, src/ecp/ecp_mul.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
