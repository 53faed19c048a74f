"""Per property: library variants with weights, (runs, seconds) per tier, what the search varies, the oracle,
and the components that are real/stubbed."""
STUB = "malloc/calloc/realloc/free (simulated heap with seeded failures), cry_prng_aes_rand (simulated random source)"
PROPS = {}
def P(i, variants, quick, thorough, what, oracle, real, stub=STUB, **kw):
    PROPS[i] = dict(variants=variants, quick=quick, thorough=thorough, level="exploration", what=what, oracle=oracle, real=real, stub=stub, **kw)

P("C01", {"def": 4, "dbg": 2, "altd": 1, "asm": 1}, (80000, 75), (4000000, 3000),
  "operation sequences, operands, aliasing and allocation-failure plans", "an independent big-integer implementation (boost cpp_int)", "src/mpi")
P("C02", {"def": 5, "dbg": 3}, (80000, 75), (4000000, 2400),
  "initialise/convert/clear sequences and allocation-failure plans", "an independent big-integer implementation and an exact heap ledger",
  "src/mpi, src/ecp, init/clear of src/crypt contexts")
P("C03", {"def": 4, "dbg": 2, "alt": 1, "asm": 1}, (30000, 100), (2000000, 2400),
  "sequences of point operations on built-in, tiny and medium curves, aliasing and allocation-failure plans",
  "independent Jacobian arithmetic over boost cpp_int and the curve constants of the standards", "src/ecp, src/mpi")
P("C04", {"def": 5, "dbg": 3}, (30000, 110), (2000000, 3000),
  "keys, messages, damaged signatures, allocation and random-source failures", "the schemes' verification equations over boost cpp_int",
  "src/crypt/{dsa,ecdsa,elgamal,rsa}.c, src/ecp, src/mpi", timenote="two-party histories: simulated time is the number of deliveries")
P("C05", {"def": 5, "dbg": 3}, (30000, 80), (2000000, 2400),
  "keys, message lengths, delivery damage, allocation and random-source failures in both directions", "RSA with PKCS#1 v1.5 block type 2 over boost cpp_int",
  "src/crypt/rsa.c, src/mpi", timenote="one delivery = one step of simulated time")
P("C06", {"def": 5, "dbg": 3}, (30000, 90), (2000000, 2400),
  "message loss, duplication, delay, reordering, partitions, crashes, clock rates, retries, allocation and random-source failures", "g^(ab) mod p and (ab)G over boost cpp_int; agreement of both recorded sides; completion within 1200 ticks after the last fault",
  "src/crypt/dh.c, src/crypt/ecdh.c, src/ecp, src/mpi", stub=STUB + "; network, clock and crashes are simulated", timenote="simulated time in ticks (retransmission period 5..24 ticks)")
P("C07", {"def": 4, "big": 4}, (40000, 60), (4000000, 1500),
  "how each stream is cut into updates, how the calls of several contexts interleave, message and key lengths, alignment", "independent implementations of the standards' functions (constants computed, not copied)",
  "src/hash, src/crypt/{hmac,cmac,aes}.c, src/crc", stub="none needed besides the heap", fixed={"big": (2, 8)}, nodet=("big",), timenote="one context call = one step of simulated time")
P("C08", {"def": 8}, (60000, 60), (4000000, 1500),
  "keys, IVs, segmentation on both sides, in place or not, alignment, interleaving of flows, context sharing, failing temporary allocations", "independent implementations of the modes and stream ciphers",
  "src/crypt/{cbc,cfb,ctr,gcm,aes,des,arc4,trivium,memxor}.c", timenote="one segment = one step of simulated time")
P("C09", {"def": 6, "big": 2}, (60000, 60), (4000000, 1500),
  "records and wrapped keys, their segmentation, damage and cross delivery", "independent GCM and RFC 3394 implementations applied to what each side saw",
  "src/crypt/{gcm,aes,memxor}.c, src/utils/aes_wrap.c", stub="network between the parties", fixed={"big": (1, 6)}, nodet=("big",), timenote="one delivery = one step of simulated time")
P("C10", {"def": 8}, (60000, 35), (4000000, 1200),
  "seeds of all lengths, the order of initialisations, draws and work on the caller's own contexts, draw sizes, alignment, buffer contents", "executable models of AES-128-CTR and LFSR113 that know only the seed and the draws",
  "src/prng, src/crypt/aes.c and the cipher modes used in between", stub="none needed besides the heap (the real generators run)", timenote="simulated time is the number of bytes drawn")
P("C11", {"def": 5, "dbg": 3}, (60000, 90), (4000000, 2400),
  "what the random source delivers (independent, constant, repeating, sparse, scripted), when it fails, sizes, bounds, candidates, allocation failures", "range and size predicates, an independent primality test, the keys' defining equations over boost cpp_int",
  "src/mpi, src/ecp, src/crypt/{rsa,dsa,ecdsa}.c", timenote="simulated time is the number of random bytes delivered", assumptions=["composites: an answer 'prime' is only held against the code when independent streams make it too frequent for five Miller-Rabin rounds"])
P("C14", {"def": 8}, (80000, 30), (4000000, 900),
  "lengths, alignment, relative positions of destination and sources, failing temporary allocation", "the xor of the bytes the operands held before the call, computed from a snapshot",
  "src/crypt/memxor.c", stub="malloc/free (simulated heap with seeded failures)", timenote="one call = one step of simulated time")
P("C13", {"def": 8}, (80000, 60), (4000000, 1500),
  "where a context is abandoned, what the memory held before (garbage, remains of the same or another kind of context), re-initialisation or mere re-keying, message and key lengths, when it is cleared", "independent implementations for every later life; for clear, the same life run twice with different secrets must leave identical bytes; exact heap ledger",
  "src/hash, src/crc, src/crypt, src/mpi, src/ecp", timenote="one life of a context = one step of simulated time")
P("C12", {"thr": 8}, (30000, 110), (4000000, 2400),
  "which thread runs at every basic block, load and store of the library, what the threads work on, which thread allocation failures hit", "the results of the same jobs run alone afterwards in the same process",
  "all of src except src/prng", stub=STUB + "; the thread scheduler is simulated (one baton)", timenote="simulated time is the number of scheduling points passed")
P("C15", {"def": 8}, (60000, 35), (4000000, 900),
  "keys (given, generated, singular), message lengths, alignment, in place or not, what the channel does to the text, what the random source delivers and when it fails", "RFC 4648 base64, the affine formula and Gauss-Jordan inversion over Z/256, written independently",
  "src/crypt/{base64,affine,hill}.c, src/misc.c", stub="cry_prng_aes_rand (simulated random source); channel between the parties", timenote="one message sent or delivered = one step of simulated time")
P("C16", {"def": 8}, (60000, 35), (4000000, 900),
  "the history of each context (keys, directions, clears, modes borrowing it), the interleaving of contexts, block counts, alignment, in place or not, previous memory contents", "independent AES and DES implementations that see only the key set last and the blocks",
  "src/crypt/{aes,des}.c and the modes that borrow the contexts", stub="none needed besides the heap", timenote="one context call = one step of simulated time")
