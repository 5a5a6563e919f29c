"""Which harness decides which property, within which bounds."""

CHECKS = {}


def _toggle(name, on):
    """Configuration switches of the library (crypto/ec_group.hpp) select which code is compiled."""
    import re
    def f(text):
        line = "#define " + name
        out = re.sub(r"^[ \t]*(//[ \t]*)*#define[ \t]+" + name + r"\b.*$", line if on else "// " + line, text, flags=re.M)
        if on and not re.search(r"^#define " + name, out, flags=re.M):
            raise RuntimeError("switch not found: " + name)
        return out
    return f


PLAIN_EC = [("crypto/ec_group.hpp", _toggle("ENABLE_X25519_ACCELERATION", False))]
SHUFFLE = [("mpc/rpmt/cwprf_mqrpmt.hpp", _toggle("BLOOMFILTER", False))]
COMPRESSED = [("crypto/ec_group.hpp", _toggle("ECPOINT_COMPRESSED", True))]

CHECKS["C11"] = dict(
    level="model_checking",
    technique="explicit-state exploration of operation histories of the real filter against a set model",
    level_note="Exhaustive within the stated bounds on the real code; false-positive frequency is judged on fixed pseudorandom key families.",
    rule="operation histories (breadth-first, merged on filter image + model set), all (capacity, security parameter) pairs, all element types and key lengths, complete one-bit near-miss families; a case is non-trivial when the model set is non-empty",
    units=[dict(name="bloom", src="bloom.cpp")],
)

CHECKS["C12"] = dict(
    level="model_checking",
    technique="explicit-state exploration of insert/delete/save/load histories of the real filter against a multiset model, eviction choices enumerated",
    level_note="Exhaustive within the stated bounds on the real code; deletions are only issued for elements the model holds.",
    rule="breadth-first histories merged on filter image + model multiset, with colliding keys and enumerated eviction policies; non-trivial when the model is non-empty",
    units=[dict(name="cuckoo", src="cuckoo.cpp")],
)

CHECKS["C01"] = dict(
    level="exploration",
    technique="exhaustive enumeration of operand tuples over a boundary alphabet, executed on the real code against an independent big-integer implementation",
    level_note="Complete over the stated operand alphabets; values outside them are covered only by the uniformity of the operations. Trusts boost cpp_int and OpenSSL's hex conversion as oracle.",
    rule="every pair/triple of boundary operands and every pair/triple of small operands; a case is non-trivial unless all operands are zero",
    units=[dict(name="bigint", src="bigint.cpp")],
)

CHECKS["C02"] = dict(
    level="exploration",
    technique="exhaustive enumeration of point pairs, scalars and vector lengths on the real code against an independent implementation of the group law",
    level_note="Complete over the stated point/scalar alphabets, lengths and thread orders. Trusts an independent affine implementation on top of boost cpp_int.",
    rule="all pairs of points kG, |k|<=16 plus order-sized ones, all boundary scalars, all vector lengths 0..20 under three thread orders, two projective representations per point; trivial when only the identity is involved",
    units=[dict(name="ec", src="ec.cpp")],
)

CHECKS["C05"] = dict(
    level="exploration",
    technique="exhaustive enumeration of bit positions, shapes, small matrices, divisors and basis products on the real code against bit-level references",
    level_note="Complete over the stated positions, shapes and alphabets; larger shapes than 512 are covered at a few sizes (up to 65664 columns).",
    rule="every bit position of every alphabet block, every matrix shape 8a x 8b within the bound, all products of single-bit and boundary field elements, all small matrices; trivial when the input is all zero or empty",
    units=[dict(name="bits", src="bits.cpp")],
)

CHECKS["C04"] = dict(
    level="exploration",
    technique="exhaustive enumeration of lengths, split points and thread orders on the real code against OpenSSL's EVP implementations",
    level_note="Complete over all lengths, all two-part splits and three thread orders within the bounds; contents are fixed pseudorandom. Trusts OpenSSL EVP.",
    rule="every length, every split point of a two-part request, three thread orders, a boundary key alphabet; trivial when the input is empty",
    units=[dict(name="sym", src="sym.cpp")],
)

CHECKS["C06"] = dict(
    level="model_checking",
    technique="exhaustive execution of the real solver over all messages of small ranges, all configuration histories to depth 3 and all truncation points of the table file",
    level_note="Exhaustive for ranges up to 2^14 (quick) / 2^16 (thorough); boundary messages beyond. A damaged table may be refused; torn writes are prefixes (the table is written sequentially).",
    rule="every message of every small (range, tradeoff, base) configuration, boundary messages of larger ones, points outside the range, all (re)initialisation histories, the table file cut or padded at every byte; trivial for message 0",
    units=[dict(name="dlog", src="dlog.cpp", hang=90)],
)

CHECKS["C07"] = dict(
    level="model_checking",
    technique="explicit-state exploration of homomorphic operation sequences on real ciphertexts against plain values; exhaustive enumeration of messages, keys and randomness",
    level_note="Exhaustive over a 12-bit message space; operation sequences to depth 3 (quick) / 4 (thorough); keys and randomness from a boundary alphabet.",
    rule="every message of a 12-bit space, all (key, randomness, boundary message) triples, all operation sequences whose model value stays in range; trivial for message 0 with fresh randomness",
    units=[dict(name="pke", src="pke.cpp", hang=90), dict(name="plain", src="pke.cpp", edits=PLAIN_EC, flags=["-DPLAIN_ONLY"])],
)

CHECKS["C03"] = dict(
    level="exploration",
    technique="exhaustive enumeration of write/read histories (all values of each type's alphabet, all ordered pairs and triples of types) on the real streams, compared field by field",
    level_note="Complete over the stated value alphabets and all type sequences of length <= 3. Containers are sized by the reader before reading, which is the library's contract.",
    rule="every alphabet value read over every (sampled for alphabets > 40) other value with four following byte patterns, all ordered pairs and triples of the registered types, all parameter files over Setup grids and sizes 0..300; trivial cases are not counted separately",
    units=[dict(name="ser", src="ser.cpp", flags=["-DWITH_IKNP"]), dict(name="compressed", src="ser.cpp", edits=COMPRESSED + PLAIN_EC)],
)

CHECKS["C08"] = dict(
    level="exploration",
    technique="exhaustive enumeration of witnesses, contexts, single-component substitutions, swaps and solve-after-challenge adversary moves against the real provers and verifiers",
    level_note="Complete over the stated alphabets and sizes. Rejection is judged for an enumerated adversary (substitution, swap, wrong witness, one component solved after the challenge), not for all adversaries.",
    rule="all boundary witnesses x contexts; for each, every component replaced by every alternative, every swap, every wrong witness at distance one and every solve-for-one-component simulation; none of these is trivial",
    units=[dict(name="sigma", src="sigma.cpp", hang=120)],
)

CHECKS["C09"] = dict(
    level="exploration",
    technique="exhaustive enumeration of values, bit lengths, aggregation sizes, interval bounds and adversary moves (substitutions, non-bit digits, components solved after the challenges) against the real provers and both verifiers",
    level_note="Complete over all values of ranges up to 2^8 and all interval bounds up to 2^4, boundary values beyond. Rejection is judged for an enumerated adversary, not for all adversaries.",
    rule="every value (and pair of values) of small ranges, every interval of a small domain, every component replaced by every alternative, every non-bit digit position; no case is trivial",
    units=[dict(name="bullet", src="bullet.cpp", hang=120, link=["-Wl,--wrap=EC_POINTs_mul"])],
)

CHECKS["C10"] = dict(
    level="exploration",
    technique="exhaustive enumeration of message lengths, one-byte changes, ring sizes, signers, single-component substitutions and solve-after-challenge forgeries against the real signers and verifiers",
    level_note="Complete over the stated lengths, rings and components. Unforgeability is judged for an enumerated adversary, not for all adversaries.",
    rule="every message length and changed byte, every ring size (powers of two, the sizes the scheme supports) and signer, every component replaced by every alternative; no case is trivial",
    units=[dict(name="sig", src="sig.cpp", hang=120)],
)

CHECKS["C13"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of conversations and transport behaviours: both endpoints run the real channel, the harness owns the transport and enumerates every split, merge, delay and break of the byte stream",
    level_note="Exhaustive within the stated conversation lengths and the family of segmentations (held-back/coalesced, eager, byte by byte, every single cut, break at every byte). The kernel's socket pair stands in for TCP.",
    rule="all kinds and values alone, all ordered pairs of kinds in all directions, all three-message conversations over six kinds, all direction patterns of 4..7 messages; each under several deliveries; every cut offset; every break offset; every kind at counts and item lengths around powers of two up to 70001 and payloads around the stream buffer; a build with compressed points repeats the point kinds; trivial when nothing is sent",
    units=[dict(name="net", src="net.cpp", hang=90), dict(name="compressed", src="net.cpp", edits=COMPRESSED, flags=["-DPOINTS_ONLY"], hang=90)],
)

CHECKS["C14"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions: choice patterns, message contents, lengths, variants, roles and sequences of transfers on one connection, both parties running the real code over an owned transport",
    level_note="All choice patterns of base OT up to 6 positions (8 thorough); for the extensions all single-bit patterns and structured patterns at lengths 128..65664. Pad checks are over the recorded byte stream and the random-OT keys.",
    rule="variant x length x choice pattern x message kind x role assignment; all ordered pairs of variants on one connection; item lengths 1..65; team orders; trivial when nothing is transferred",
    units=[dict(name="ot", src="ot.cpp", hang=90)],
)

CHECKS["C16"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of store shapes on the real code: every number of pairs up to a bound times index, dense and value types, row weights, bin sizes, team sizes and member orders; every stored key is decoded through every entry point",
    level_note="All sizes 1..220 (700 thorough) plus listed larger sizes up to 140000; for each size the key and value sets are a few fixed families, so the statistical failure probability 2^-40 is not itself decided.",
    rule="size x index type x dense type x value type x key family x randomised; row weights 2..8; security parameters 20..64; hundreds of hash seeds for every size 2..64, where rows are left over from the triangle; bins 1..520 x threads 1..8; fewer pairs than declared; keys one bit away from stored ones; trivial for empty stores",
    units=[dict(name="okvs", src="okvs.cpp", hang=120)],
)

CHECKS["C17"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions of the real code over lengths, noise weights, values of delta and u, roles, repetitions and byte-stream splits, with the linear relation recomputed independently; puncturable trees for every depth and position",
    level_note="Lengths and noise weights are enumerated inside the stated bounds; randomness of the parties is a fixed owned stream per case. Punctured trees up to depth 8 (11 thorough), every position.",
    rule="N x t x delta x role x repetition x stream split x stray files x team order; tree depth x position; trivial when no element is produced",
    units=[dict(name="vole", src="vole.cpp", hang=90)],
)

CHECKS["C15"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions of the real code over set sizes, input families, output permutations (all of them for few inputs), repetitions and team orders, comparing the client's values with the server's evaluations as one function",
    level_note="Sizes, permutations and input families inside the stated bounds; each case has one owned random stream per party. Pseudorandomness itself is not decided, only functionality, freshness and what the client can recompute.",
    rule="construction x size x input family x permutation x repetition x role; every evaluation vector is compared with every other; trivial never",
    units=[dict(name="oprf", src="oprf.cpp", hang=120)],
)

CHECKS["C18"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions of the real code over overlap patterns (all of them for small sets), item families, set sizes, positions, repetitions, parameter files and team orders, against plain membership; all three transports of the answer (Bloom filter, shuffled list, ElGamal + key-value store) are compiled and run",
    level_note="All overlap patterns of sets up to 8 items, enumerated pattern families up to 2^9 (2^11 thorough) and single cases up to 2^14. The 2^-40 false-positive probability of the Bloom variant is not itself decided. rrPKE needs at least 128 server items.",
    rule="protocol x size pair x overlap pattern x item family x placement x role; every equality pattern of tables up to 6 cells; a peer of our own checks that answers are shuffled; trivial never",
    units=[dict(name="x25519", src="rpmt.cpp", hang=90), dict(name="shuffle", src="rpmt.cpp", edits=SHUFFLE, hang=90), dict(name="plain", src="rpmt.cpp", edits=PLAIN_EC, flags=["-DPLAIN"], hang=120), dict(name="plainshuffle", src="rpmt.cpp", edits=PLAIN_EC + SHUFFLE, flags=["-DPLAIN"], hang=120)],
)

CHECKS["C19"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions of the real code over overlap patterns (all of them for small sets), size pairs, item families, byte lengths, value and bound alphabets, repetitions, parameter files and team orders, against plain set operations",
    level_note="All overlap patterns of sets up to 8 items where the protocol takes them, enumerated families up to 2^9 (2^11 thorough), single cases up to 2^13. Protocols over OT extension take at least 128 sender items. The 2^-40 error probability is not itself decided.",
    rule="protocol x size pair x overlap pattern x family x role; card-sum: bound x value width x value kind; trivial never",
    units=[dict(name="pso", src="pso.cpp", hang=120)],
)

CHECKS["C20"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of two-party executions of the real code over overlap patterns (all of them for small sets), size pairs, item families, repetitions, parameter files and team orders, joint outputs compared with the plain sets",
    level_note="All overlap patterns of sets up to 4 items (8 thorough), enumerated families up to 2^9 (2^11 thorough), single cases up to 2^13.",
    rule="size pair x overlap pattern x family x role x repetition; trivial never",
    units=[dict(name="pid", src="pid.cpp", hang=120)],
)

CHECKS["C21"] = dict(
    level="model_checking",
    technique="exhaustive exploration of transaction histories (build, submit, delay, replay, overspend) executed on the real ledger against a plain-ledger model; exhaustive enumeration of tampered transactions, mixtures of two valid transactions and senders that break one rule at a time",
    level_note="Exhaustive within the stated history depth, operation alphabet and adversary moves, on the real code. Soundness is judged for an enumerated adversary, not for all adversaries. Amount range 2^16.",
    rule="every history of the operation alphabet up to the depth; every component replaced by every alternative; every mixture of parts; every rule broken by every shift; no case is trivial",
    units=[dict(name="ledger", src="adcp.cpp", flags=["-DADCP_LEDGER"], hang=120)],
)

CHECKS["C22"] = dict(
    level="exploration",
    technique="exhaustive enumeration of hidden amounts against claimed policy parameters of a small domain, of parties, of transactions and of single-component substitutions, executed on the real supervisor, provers and auditors",
    level_note="Complete over the stated domains. Soundness is judged for an enumerated adversary, not for all adversaries.",
    rule="every amount against every claim, every pair of amounts against every rate, sums of one to three transactions against every bound around the sum, sets of up to 17 transactions, amounts of 16 and 32 bits; no case is trivial",
    units=[dict(name="audit", src="adcp.cpp", flags=["-DADCP_AUDIT"], hang=120)],
)

CHECKS["C24"] = dict(
    level="exploration",
    technique="exhaustive enumeration of schemes, protocol roles and run pairs: every one is executed on the real code in processes whose system randomness the harness owns, and everything random it produces is compared within a run, across runs and across processes",
    level_note="Complete over the listed schemes and roles. Reuse is judged on observable values (wire, keys, nonces exposed by all-zero witnesses); clocks are frozen so that they cannot pass as randomness.",
    rule="every scheme and protocol role x {two runs in one process, new randomness for one party only, new process}; no case is trivial",
    units=[dict(name="fresh", src="fresh.cpp", hang=200), dict(name="freshplain", src="fresh.cpp", edits=PLAIN_EC, flags=["-DPLAIN"], hang=200)],
)

_WRAP = ("BN_CTX_start BN_CTX_get BN_CTX_free BN_free BN_clear_free EC_POINT_free EC_POINT_clear_free EVP_MD_CTX_free "
         "BN_add BN_sub BN_mul BN_sqr BN_div BN_exp BN_gcd BN_nnmod BN_mod_add BN_mod_sub BN_mod_mul BN_mod_exp BN_mod_sqr BN_mod_sqrt BN_mod_inverse "
         "BN_bin2bn BN_bn2bin BN_bn2binpad BN_bn2dec BN_bn2hex BN_cmp BN_copy BN_get_word BN_is_bit_set BN_is_negative BN_is_one BN_is_zero "
         "BN_lshift BN_rshift BN_mask_bits BN_num_bits BN_rand_range BN_set_negative BN_set_word "
         "EC_POINT_add EC_POINT_dbl EC_POINT_cmp EC_POINT_copy EC_POINT_invert EC_POINT_is_at_infinity EC_POINT_is_on_curve EC_POINT_mul EC_POINT_oct2point EC_POINT_point2oct EC_POINT_point2hex "
         "EC_POINT_set_affine_coordinates_GFp EC_POINT_set_compressed_coordinates EC_POINT_set_to_infinity EC_POINTs_mul "
         "EVP_DigestInit_ex EVP_DigestUpdate EVP_DigestFinal_ex SHA256 x25519_scalar_mulx "
         "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock").split()
_SCHED = dict(src="sched.cpp", rt=["rt.cpp", "tsan.cpp"], opt=["-O1", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"], link=["-Wl," + ",".join("--wrap=" + f for f in _WRAP)], hang=150, redefine=[(f, "ts_" + f) for f in ("memcpy", "memmove", "memset", "free", "CRYPTO_free")])
CHECKS["C23"] = dict(
    level="model_checking",
    technique="stateless exploration of thread schedules of the real code: fibers under a controlled scheduler, conflicts found by access instrumentation, preemption-bounded enumeration at every conflicting access (partial-order reduction: no conflict, one schedule)",
    level_note="All interleavings are covered when no two threads touch a common location with a write; otherwise all schedules with at most one preemption (two for small scenarios) at conflicting accesses. Sequential consistency is assumed; accesses inside OpenSSL are attributed per call and object.",
    rule="scenario x schedule (thread order, team size, preemption points and targets); non-trivial when at least one parallel region ran; a transition is one complete execution",
    units=[dict(name="sched", flags=["-fsanitize=thread"], **_SCHED), dict(name="schedplain", flags=["-fsanitize=thread", "-DPLAIN"], edits=PLAIN_EC, **_SCHED),
           dict(name="schedshuffle", flags=["-fsanitize=thread", '-DONLY="cwmqrpmt"'], edits=SHUFFLE, **_SCHED), dict(name="schedplainshuffle", flags=["-fsanitize=thread", "-DPLAIN", '-DONLY="cwmqrpmt"'], edits=PLAIN_EC + SHUFFLE, **_SCHED)],
)
