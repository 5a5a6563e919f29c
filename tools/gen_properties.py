#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]); a.update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "Big-integer arithmetic is exact integer and modular arithmetic",
  "Every big-integer operation (add, subtract, multiply, divide, remainder, exponent, shifts, gcd, comparison, bit queries, modular add/subtract/multiply/square/inverse/exponent/negate, and their vector forms) returns exactly the mathematical result for all operands of any sign and size, including zero, one, the modulus and values that differ from a power of two by one. Conversions to and from native integers, byte strings and hexadecimal preserve the value. No operation changes its operands.",
  ["inputs"], "all operand tuples drawn from the boundary alphabet (0, +-1, 2^k, 2^k+-1 around byte, word and 256-bit boundaries, the group order and its neighbours) and all values below 2^6 as operands and moduli",
  "test_bigint multiplies a few random numbers; boundary and negative operands, aliasing and moduli other than the group order are never evaluated.",
  ["crypto/bigint.hpp"], [("BigInt arithmetic", "crypto/bigint.hpp: Add..ModNegate"), ("vector operations", "crypto/bigint.hpp: BigIntVector*")])
p("C02", "Elliptic-curve points form the group the protocols assume",
  "Point addition, subtraction, doubling, negation, scalar multiplication (generator, fixed and multi-base) and the vector forms agree with the group law for every pair of points and every scalar, including the identity, equal and opposite points, zero and order-sized scalars. Equality and the identity/on-curve tests answer for the group element, and hashing or mapping data to a point is deterministic, lands on the curve and separates distinct inputs. The x25519 scalar action is commutative: applying two keys in either order to any valid point gives the same point.",
  ["inputs"], "all pairs of points k*G with |k| <= 16 plus points near the group order, all scalars of the boundary alphabet, all vector lengths up to 16 (crossing the thread count)",
  "the tests multiply one random point by a random scalar and time it; identities, cancellations and vector lengths not divisible by the thread count are never compared with an independent computation.",
  ["crypto/ec_point.hpp", "crypto/ec_group.hpp", "crypto/ec_25519.hpp"], [("ECPoint operations", "crypto/ec_point.hpp"), ("multi-scalar multiplication", "crypto/ec_point.hpp: ECPointVectorMul and relatives"), ("x25519 points", "crypto/ec_25519.hpp")])
p("C03", "Writing then reading any object gives the same object back",
  "For integers (non-negative, up to the field size), curve points (identity included), x25519 points, ciphertexts, public parameters, oblivious-transfer and OPRF parameters, ledger accounts and one-receiver ledger transactions (what their file form holds) and native values, writing a sequence of objects to a file and reading the sequence back yields equal objects in the same order, whatever the target held before, and the reader consumes exactly the bytes the writer produced. Byte-string encodings have a fixed length and are injective. Parameters read back from a file behave in the protocol exactly like the originals.",
  ["inputs", "histories"], "all objects of the boundary alphabet, all sequences of up to three objects of all types, all parameter values that are representable (0..300 for sizes) including those whose bytes look like digits or white space",
  "the tests write one random object per type and read it back into a fresh variable; particular byte values, the identity and mixed sequences are never used.",
  ["utility/serialization.hpp", "crypto/bigint.hpp", "crypto/ec_point.hpp", "crypto/ec_25519.hpp", "pke/elgamal.hpp", "pke/exponential_elgamal.hpp", "pke/twisted_exponential_elgamal.hpp", "commitment/pedersen.hpp", "mpc/oprf/ddh_oprf.hpp", "mpc/ot/naor_pinkas_ot.hpp", "mpc/ot/iknp_ote.hpp", "mpc/ot/alsz_ote.hpp", "mpc/oprf/ote_oprf.hpp", "mpc/oprf/vole_oprf.hpp", "mpc/okvs/baxos.hpp", "adcp/adcp.hpp"],
  [("stream operators", "utility/serialization.hpp, crypto/*.hpp operator<< / operator>>"), ("parameter files", "SavePP/FetchPP in pke/, mpc/")])
p("C04", "Symmetric primitives give one answer for every length and batching",
  "AES block encryption agrees with the standard and decryption inverts it for every number of blocks; hash functions and key-derivation agree with the underlying standard hash and depend on every input byte for every input length (from one byte for the AES-based hash); the seeded generator's output stream depends only on seed and position, so that asking for a length in one call or in pieces of whole blocks gives the same stream; one-time-pad encryption followed by decryption with the same key restores the message. Results never depend on how the work is split into batches or threads.",
  ["inputs", "histories"], "all lengths from 0 to a few hundred bytes or blocks (crossing every internal batch and block boundary), all split points of a generator request sequence, all thread orders of the parallel forms",
  "the tests encrypt long power-of-two sized inputs only; remainders after the last full batch are not compared with any reference.",
  ["crypto/aes.hpp", "crypto/hash.hpp", "crypto/prg.hpp", "crypto/otp.hpp"], [("AES batches", "crypto/aes.hpp: FastECBEnc/ECBEnc/ECBDec/CBCEnc"), ("hashes", "crypto/hash.hpp"), ("PRG", "crypto/prg.hpp"), ("OTP", "crypto/otp.hpp")])
p("C05", "Block, bit and matrix helpers are exact for all shapes",
  "Packing bits into bytes or blocks and unpacking them are inverse, transposing a bit matrix moves bit (i,j) to (j,i) for every supported shape, and block operations (xor, and, comparison, bit setting, clearing and testing, conversion to and from strings and sparse bytes) act on exactly the addressed bits for every position and vector length. Carry-less multiplication and the finite-field helpers built on it satisfy the field laws. Helpers never write outside the given output.",
  ["inputs"], "all bit positions, all vector lengths up to a few hundred, all supported matrix shapes up to 512 x 512, and all pairs of single-bit and boundary field elements",
  "no test compares these helpers with a bit-level reference; only the shapes used by one protocol run are executed.",
  ["crypto/block.hpp", "utility/bit_operation.hpp", "utility/polymul.hpp", "utility/routines.hpp", "mpc/okvs/okvs_utility.hpp"], [("block operations", "crypto/block.hpp"), ("bit matrix transpose", "utility/bit_operation.hpp"), ("GF(2^128) multiplication", "utility/polymul.hpp, mpc/okvs/okvs_utility.hpp")])
p("C06", "Discrete-log solver finds every value in range and nothing outside it",
  "For every value in the configured message range, base, and tradeoff setting, solving returns success and exactly that value; for a point whose logarithm is outside the range it reports failure instead of a wrong value. This holds for the configuration initialised last, whether its lookup table was just built or loaded from a file, and whatever other configurations were used earlier in the process. A table file that is missing or was cut short at any byte is never used to give a wrong answer.",
  ["inputs", "histories", "crash_points", "configurations"], "all messages of all small ranges and all tradeoff parameters, boundary messages of larger ones, all build/save/load/reinitialise histories up to depth 3, all truncation points of the table file",
  "tests solve one random message for a single range and table.",
  ["pke/calculate_dlog.hpp"], [("Shanks table build/load/search", "pke/calculate_dlog.hpp")], observe_at=["return status and value of the solver"])
p("C07", "Encryption schemes decrypt correctly and their homomorphisms are exact",
  "For ElGamal, exponential ElGamal and twisted exponential ElGamal, decrypting an encryption of any message of the message space returns that message, for every key and randomness including extreme values. Re-randomisation, homomorphic addition, subtraction and scalar multiplication, multi-recipient encryption and parallel variants decrypt to the corresponding combination whenever it lies in the message range. Parameters or ciphertexts that were saved and fetched behave identically.",
  ["inputs", "histories", "configurations"], "all messages of a small message space, boundary messages of a larger one, all keys and randomness of the boundary alphabet, all operation sequences of homomorphic operations up to depth 3 whose model value stays in range",
  "tests use random messages and keys and at most one homomorphic operation.",
  ["pke/elgamal.hpp", "pke/exponential_elgamal.hpp", "pke/twisted_exponential_elgamal.hpp", "commitment/pedersen.hpp"], [("Enc/Dec/ReRand/HomoAdd/HomoSub/ScalarMul", "pke/*.hpp"), ("Pedersen commitment", "commitment/pedersen.hpp")])
p("C08", "Sigma-protocol proofs accept true statements and reject everything altered",
  "For each non-interactive proof (discrete-log knowledge, discrete-log equality, plaintext knowledge, plaintext equality, encryption relation), a proof honestly made for a true statement verifies, for every witness including boundary ones. The same proof is rejected when any single component of the statement, of the proof, or of the transcript context is replaced by another valid value, and a proof made with a witness that does not satisfy the statement is rejected, and so is a proof simulated by fixing a message or a part of the statement after the challenge is known. Verification does not depend on what was proved or verified before.",
  ["inputs", "histories"], "all witnesses of the boundary alphabet, all single-component substitutions and swaps of statement, proof and transcript by every member of a fixed alphabet of group elements and scalars, all false statements at distance one",
  "tests run one honest proof and at most one corrupted instance.",
  ["zkp/nizk/nizk_dlog_knowledge.hpp", "zkp/nizk/nizk_dlog_equality.hpp", "zkp/nizk/nizk_plaintext_knowledge.hpp", "zkp/nizk/nizk_plaintext_equality.hpp", "zkp/nizk/nizk_enc_relation.hpp"], [("Prove/Verify", "zkp/nizk/*.hpp")])
p("C09", "Range proofs accept exactly the values in range",
  "A range or inner-product proof verifies if and only if every committed or encrypted value lies in the declared range, for every bit length and aggregation size supported (their product a power of two); values below zero or at or beyond the bound can never be proved, not even by running the honest prover on them. The gadgets proving a lower bound, an upper bound or a half-open interval [left, right) of an encrypted value accept exactly the values satisfying it, with and without the secret key. Replacing any single component of proof, statement or transcript makes verification fail, and the batched fast verifier gives the same verdict as the plain one.",
  ["inputs", "configurations"], "all values of small ranges and all boundary values of larger ones, all (bit length, aggregation) pairs of powers of two up to 16 x 4, all interval bounds of a small domain, all single-component substitutions",
  "tests prove one in-range and one out-of-range value for one fixed parameter set.",
  ["zkp/bulletproofs/bullet_proof.hpp", "zkp/bulletproofs/innerproduct_proof.hpp", "gadget/range_proof.hpp"], [("Bulletproof", "zkp/bulletproofs/bullet_proof.hpp"), ("inner product", "zkp/bulletproofs/innerproduct_proof.hpp"), ("gadgets", "gadget/range_proof.hpp")])
p("C10", "Signatures verify for the signed message only; ring signatures trace the signer",
  "A Schnorr signature verifies under the signer's key for exactly the message signed, for every message length, and is rejected for any other message, key or altered signature component. An accountable ring signature produced by any member of a ring of any supported size (powers of two from 2) verifies for that ring and message, is rejected after any single-component change, and opening it with the opening key identifies exactly the signer.",
  ["inputs", "configurations"], "all message lengths 0..80 with all one-byte changes, all ring sizes supported up to 16 and all signer positions, all single-component substitutions",
  "tests sign one random message and use one ring size and signer.",
  ["signature/schnorr.hpp", "signature/accountable_ring_sig.hpp", "zkp/nizk/nizk_enc_relation.hpp"], [("Schnorr", "signature/schnorr.hpp"), ("accountable ring signature", "signature/accountable_ring_sig.hpp")])
p("C11", "Bloom filter never forgets and keeps its false-positive target",
  "After any history of single or batch insertions, clears and save/load steps, a Bloom filter answers yes for every element inserted since the last clear, an empty filter answers no, batch and single queries agree, and the inserted-element counter is exact. A filter saved to a buffer or file and loaded into any other filter object answers and serialises identically, without touching memory beyond the announced size. For pseudorandom elements of the library's own fixed-size element types, inserted up to the declared capacity, the fraction of non-members accepted stays near the configured 2^-parameter.",
  ["histories", "inputs", "configurations"], "all operation histories to depth 4-5 over three keys, all capacities up to 70 with all security parameters up to 135, all element types and key lengths 0..80",
  "the test inserts one word list and queries a few words typed on standard input.",
  ["filter/bloom_filter.hpp", "utility/murmurhash3.hpp"], [("Insert/Contain/Clear", "filter/bloom_filter.hpp"), ("WriteObject/ReadObject", "filter/bloom_filter.hpp")])
p("C12", "Cuckoo filter tracks insertions and deletions without false negatives",
  "After any history of insertions, deletions of previously inserted elements, evictions and save/load steps, a cuckoo filter answers yes for every element whose successful insertions outnumber its deletions, even when different elements share a fingerprint and bucket pair or the overflow slot is occupied. Deleting a present element reports success, an insertion that cannot be stored reports failure and loses nothing, and an empty filter answers no. A filter saved to a buffer or file and loaded back answers identically.",
  ["histories", "inputs", "configurations"], "all insert/delete/save/load histories to depth 6 over colliding and non-colliding keys, in tables down to one bucket so that every eviction and overflow path is taken, for all element types",
  "the test inserts a word list once into a sparse table; deletions, evictions into the overflow slot and colliding fingerprints never occur, and the file path is broken on the baseline.",
  ["filter/cuckoo_filter.hpp", "utility/murmurhash3.hpp"], [("Insert/Delete/Contain", "filter/cuckoo_filter.hpp"), ("WriteObject/ReadObject", "filter/cuckoo_filter.hpp")])
p("C13", "The network channel delivers every value intact and in order",
  "Whatever sequence of sends of integers, points, x25519 points, blocks, strings, byte vectors, bit vectors and vectors of these is performed by one endpoint, the matching sequence of receives at the other endpoint returns equal values in the same order, in both directions and for alternating request/response conversations. This holds however the transport splits or merges the byte stream, for empty and large payloads. No byte is lost, duplicated or reordered. When the connection ends inside a message the receiver fails; it neither returns a value nor waits forever.",
  ["histories", "schedules", "inputs"], "all send/receive conversations of up to three messages over all message types and directions, all direction patterns of up to seven, all segmentations from a complete family (every single split point, byte-at-a-time, coalesced), the connection broken at every byte",
  "the test sends one vector of each type over loopback, where segments arrive whole.",
  ["netio/stream_channel.hpp"], [("NetIO Send*/Receive*", "netio/stream_channel.hpp")])
p("C14", "Oblivious transfer hands the receiver exactly the chosen messages",
  "In the base oblivious transfer and in both extension protocols, for every choice-bit pattern, message content, supported length and message type (blocks or byte vectors, two-sided or one-sided), the receiver's output at each position equals the sender's message selected by the choice bit, and one-sided transfers yield the message exactly at the selected positions. It holds for repeated runs over one connection, with fresh or file-loaded parameters. Lengths of the extensions are multiples of 128. The output never depends on the unchosen message, no two positions or branches are masked with the same pad, and the amount and shape of the traffic does not depend on the choices.",
  ["inputs", "histories", "configurations"], "all choice patterns for small lengths, all single-bit and boundary patterns for longer ones, all supported lengths up to a few hundred, all message widths, two consecutive runs",
  "tests run one length (2^20) with random choices.",
  ["mpc/ot/naor_pinkas_ot.hpp", "mpc/ot/iknp_ote.hpp", "mpc/ot/alsz_ote.hpp"], [("Naor-Pinkas OT", "mpc/ot/naor_pinkas_ot.hpp"), ("IKNP extension", "mpc/ot/iknp_ote.hpp"), ("ALSZ extension", "mpc/ot/alsz_ote.hpp")])
p("C15", "Oblivious PRF: the client gets the server's PRF values on its inputs",
  "For each oblivious PRF, every client output equals the value the server computes on the same input with the key produced by that run, for every input set of a supported size (DDH: any; OT extension: exactly 2^k, k >= 3; VOLE: distinct inputs, up to the declared number) and regardless of position or of the rest of the input. Inputs that are equal get equal values and, over the explored inputs, distinct inputs get distinct values; evaluating the same input repeatedly, alone or within a batch, with the same key gives the same value. Runs with independent keys give unrelated values, and what the client holds after a run does not give it the value of an input it did not query.",
  ["inputs", "histories", "configurations"], "all supported input-set sizes up to 2^8, structured input families (zero, single bits, duplicates, shared prefixes), every evaluation order/batch split, repeated runs",
  "tests compare one run on one random input set of one size.",
  ["mpc/oprf/ddh_oprf.hpp", "mpc/oprf/ote_oprf.hpp", "mpc/oprf/vole_oprf.hpp"], [("DDH OPRF", "mpc/oprf/ddh_oprf.hpp"), ("OTE OPRF", "mpc/oprf/ote_oprf.hpp"), ("VOLE OPRF", "mpc/oprf/vole_oprf.hpp")])
p("C16", "Oblivious key-value store decodes every encoded key to its value",
  "For any set of distinct keys up to the declared number and any values, encoding succeeds and decoding each key returns its value, for every supported bin size, thread count, sparse weight and index width, including sets smaller than declared, with or without randomised encoding. Decoding is independent of the order or batch in which keys are decoded and of the number of threads. In a randomised store, keys that were not encoded do not decode to a value encoded for another key, apart from chance.",
  ["inputs", "configurations"], "all set sizes from 1 to a few hundred plus sizes around bin boundaries, structured key families, all (bin size, thread count, weight) combinations of a grid, all decode splits",
  "tests encode one random set of one size.",
  ["mpc/okvs/baxos.hpp", "mpc/okvs/paxos.hpp", "mpc/okvs/okvs_utility.hpp"], [("Baxos", "mpc/okvs/baxos.hpp"), ("Paxos", "mpc/okvs/paxos.hpp")])
p("C17", "VOLE outputs satisfy the linear correlation at every position",
  "After a vector-OLE run of any supported length N and noise weight t (128 <= t <= 248, N >= t), the receiver's and sender's vectors satisfy C = B + delta * A over the 128-bit field at every index, where delta is the sender's key and the vectors have the requested length. It holds for every sender key, including zero, one and single-bit keys, for repeated runs and regardless of leftovers of earlier runs in the working directory. The receiver's vector is not constant and differs between independent runs.",
  ["inputs", "histories", "configurations"], "all supported lengths up to a bound around every internal size threshold, all keys of the boundary alphabet, two consecutive runs, with and without parameter files of earlier runs",
  "tests run one length with one random key.",
  ["mpc/vole/vole.hpp", "mpc/vole/basevole.hpp", "mpc/vole/exconvcode.hpp"], [("VOLE", "mpc/vole/vole.hpp"), ("base VOLE", "mpc/vole/basevole.hpp"), ("expand-convolute code", "mpc/vole/exconvcode.hpp")])
p("C18", "Private membership tests report exactly the common items",
  "In every multi-query reverse private membership test and in the private equality test, the output bit for each query position is one exactly when the queried item is in the other party's set (respectively when the two values are equal), for every pair of input sets of supported sizes, every intersection pattern and item position. Results hold for repeated runs with the same or reloaded parameters and do not depend on thread scheduling. Set sizes are powers of two (rrPKE variant: at least 128 server items); where the protocol hides positions, its answers come in an order unrelated to the queries.",
  ["inputs", "histories", "configurations"], "all intersection patterns of small sets (every subset of positions), boundary patterns of larger ones, all supported size pairs including unequal sizes, two consecutive runs",
  "tests use one random pair of equal-size sets with one intersection size.",
  ["mpc/rpmt/cwprf_mqrpmt.hpp", "mpc/rpmt/rrpke_mqrpmt.hpp", "mpc/peqt/peqt_from_ddh.hpp"], [("cwPRF mqRPMT", "mpc/rpmt/cwprf_mqrpmt.hpp"), ("rrPKE mqRPMT", "mpc/rpmt/rrpke_mqrpmt.hpp"), ("PEQT", "mpc/peqt/peqt_from_ddh.hpp")])
p("C19", "Private set operations return exactly the set-theoretic result",
  "Private set intersection, union, intersection cardinality and cardinality-with-sum return to the receiving party exactly the intersection, the union, the cardinality and the sum of the values attached to common items, for every pair of input sets of supported sizes, every overlap pattern and every assignment of values. The sum is the exact sum modulo the declared bound, and the caller's inputs are not modified. Results hold for unequal set sizes (powers of two; at least 128 sender items where items or values are transferred obliviously), for repeated runs and for reloaded parameters.",
  ["inputs", "histories", "configurations"], "all overlap patterns at boundary positions and sizes, all supported size pairs of a grid, boundary values (0, 1, bound-1, bound/2) for the summed values",
  "tests use one random pair of equal-size sets of 2^20 items.",
  ["mpc/pso/mqrpmt_psi.hpp", "mpc/pso/mqrpmt_psu.hpp", "mpc/pso/mqrpmt_psi_card.hpp", "mpc/pso/mqrpmt_psi_card_sum.hpp", "mpc/psi/cwprf_psi.hpp"], [("PSI / PSU / card / card-sum", "mpc/pso/*.hpp"), ("cwPRF PSI", "mpc/psi/cwprf_psi.hpp")])
p("C20", "Private-ID gives both parties one consistent universal identifier space",
  "After a private-ID run both parties hold the same universal identifier set, each party's identifiers are positioned at its own items and all lie in that set, an item owned by both parties gets the same identifier at both, and different items get different identifiers. The size of the universal set equals the size of the union of the two input sets. It holds for every overlap pattern and every power-of-two size.",
  ["inputs", "histories", "configurations"], "all overlap patterns at boundary positions, all supported sizes of a grid, repeated runs",
  "the test runs one random instance and compares sizes.",
  ["mpc/pso/mqrpmt_private_id.hpp"], [("private-ID", "mpc/pso/mqrpmt_private_id.hpp")])
p("C21", "Confidential-payment ledger: only valid fresh transfers move money",
  "Between distinct accounts, with a total supply below the range, a confidential transaction (one receiver, or 2^k-1 receivers) is accepted exactly when it is well formed, built on the sender's current balance and sequence number, transfers non-negative amounts within the range, and does not exceed the sender's balance; then the sender's balance decreases and the receivers' balances increase by exactly the amounts. Rejected, replayed, stale or tampered transactions change no account. Over any history of transactions the total amount of coins is conserved and every decrypted balance equals that of a plain ledger.",
  ["histories", "inputs"], "all transaction histories up to depth 3-4 over three accounts, boundary amounts and one/many receivers, including replays, stale and tampered transactions, compared with a plain ledger",
  "the test makes four valid transfers and three invalid ones in one order; replays and stale transactions are never submitted.",
  ["adcp/adcp.hpp"], [("CreateCTx / VerifyCTx / Miner", "adcp/adcp.hpp"), ("to-many transactions", "adcp/adcp.hpp: ToManyCTx")], state=[dict(name="account", meaning="encrypted balance and sequence number", where="adcp/adcp.hpp: Account")], observe_at=["Miner result", "decrypted balances"])
p("C22", "Audit and supervision reveal exactly the truth about transactions",
  "The supervisor recovers exactly the transferred amounts of every valid transaction. Each audit policy (open a transaction, limit 0 <= left <= sum < right on a set of transactions, ratio t1:t2 other than 0:0 between two transactions) has a proof that verifies exactly when the policy statement is true of the hidden amounts; a proof for a false statement, for other transactions, other accounts or with any altered component is rejected. Audit proofs do not depend on the order or number of earlier audits.",
  ["inputs", "histories"], "all amounts of a small domain against all policy parameters of that domain, all single-component substitutions, all pairs of transactions",
  "the test audits a handful of fixed amounts.",
  ["adcp/adcp.hpp", "gadget/range_proof.hpp"], [("Justify / Audit policies", "adcp/adcp.hpp"), ("Supervise", "adcp/adcp.hpp")])
p("C23", "Results do not depend on how parallel threads are scheduled",
  "Every operation that the library parallelises (vector point operations, batch encryption, hashing to points, filter insertion and queries, discrete-log search, vector transformations inside the protocols, key-value store encoding) returns the same result as its sequential execution under every interleaving of its threads, every assignment of iterations to threads and every team size. No interleaving makes it crash, lose an update or corrupt shared state.",
  ["schedules", "inputs"], "all interleavings of the team up to a preemption bound at conflicting memory accesses (all interleavings when no conflicting access exists), for vector lengths crossing the team size",
  "tests observe whatever schedule the machine happens to choose, once.",
  ["crypto/ec_point.hpp", "crypto/bigint.hpp", "crypto/ec_25519.hpp", "filter/bloom_filter.hpp", "pke/calculate_dlog.hpp", "pke/elgamal.hpp", "mpc/rpmt/cwprf_mqrpmt.hpp", "mpc/okvs/baxos.hpp"], [("OpenMP regions", "all '#pragma omp' sites"), ("per-thread bignum contexts", "crypto/bigint.hpp: bn_ctx")])
p("C24", "Secrets and randomness are fresh in every run",
  "Keys, nonces, masks, shuffles and encryption randomness that a protocol or scheme draws are new in every run: two executions on the same inputs with independent system randomness never reuse a secret key, a nonce or a blinding value, and never put the same blinded message on the wire. Encrypting the same message twice gives different ciphertexts, and proofs and signatures of the same statement use different nonces. (Pads of transferred messages may be determined by the other party's fresh randomness; the public initial-balance encryption of a new payment account is deterministic by design.)",
  ["histories", "configurations"], "all schemes and protocol roles, all pairs of consecutive runs in one process and of runs in different processes with different randomness",
  "tests never compare two runs.",
  ["mpc/psi/cwprf_psi.hpp", "mpc/rpmt/cwprf_mqrpmt.hpp", "mpc/oprf/ote_oprf.hpp", "mpc/oprf/ddh_oprf.hpp", "mpc/ot/naor_pinkas_ot.hpp", "crypto/prg.hpp", "pke/elgamal.hpp", "zkp/nizk/nizk_dlog_knowledge.hpp", "signature/schnorr.hpp"], [("key generation and nonce sampling", "PRG::SetSeed, GenRandomBigIntLessThan call sites")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
