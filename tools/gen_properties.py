#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Single-authority encryption decrypts to exactly the encrypted message",
  "For every supported chunk size (4, 8, 16 bits), every freshly generated key set and every field element, decrypting an honestly created ciphertext with the matching secret and decryption key returns exactly that message and, as its second result, the ciphertext's randomness element multiplied by the secret key. All decryption entry points (plain or prepared keys, with or without precomputed pairing powers, with generators or SNARK verification key, on the ciphertext or on its parts, as chunks or as a field element) return the same result.",
  ["inputs", "configurations"], "all messages in the scalar field (0, 1, r-1, powers of two, single non-zero chunk, random), all randomness, all key sets, chunk sizes 4/8/16, all decryption entry points",
  "encrypt_decrypt uses one random chunk vector at seed 0 per chunk size, never goes through encrypt()/compose(), never checks the second result and never compares the entry points.",
  ["src/encryption.rs", "src/keygen.rs", "src/utils.rs"],
  [("exponent ElGamal chunk-wise encryption", "encryption.rs encrypt/encrypt_decomposed_message"), ("pairing-based decryption with brute-force discrete log", "encryption.rs decrypt_to_chunks_given_pairing_powers, solve_discrete_log*"), ("precomputed tables", "keygen.rs pairing_powers")],
  ["Encryption::decrypt*", "Ciphertext::decrypt*", "Encryption::decrypt_to_chunks*", "decrypt_to_chunks_after_re_encryption"])

p("C02", "Decryption returns the exact plaintext or an error, never a wrong value",
  "Decrypting with search range b returns chunk value x exactly when x <= 2^b - 1 (and x fits the 16-bit result), for every position and every range b from one bit up; every ciphertext with a chunk outside the range, encrypted under another key, or decrypted with the wrong secret key gives an error instead of a value. Precomputed pairing tables that are too short, missing rows or of the wrong chunk size, and keys, generator lists or ciphertexts of the wrong length, yield an error or the correct value, never a panic and never a wrong plaintext.",
  ["inputs", "configurations"], "all plaintext chunk values around each range boundary, all decryption ranges (including twice the chunk size, as used for aggregates of 16-bit chunks), wrong keys, truncated/enlarged tables, keys, generators and ciphertexts",
  "The tests only decrypt in-range values with correct keys and complete tables: no error path of decryption is ever executed.",
  ["src/encryption.rs", "src/keygen.rs", "src/error.rs"],
  [("bounded discrete-log search", "encryption.rs solve_discrete_log, solve_discrete_log_for_g, solve_discrete_log_using_pairing_powers"), ("size checks", "encryption.rs decrypt_to_chunks_given_pairing_powers, decrypt_to_chunks_after_re_encryption")],
  ["Encryption::decrypt_to_chunks", "Encryption::decrypt_to_chunks_given_pairing_powers", "Encryption::decrypt_to_chunks_after_re_encryption"])

p("C03", "Ciphertext commitment check accepts exactly the consistent ciphertexts",
  "Verifying a ciphertext against an encryption key accepts every ciphertext honestly produced under that key and rejects it after any change to any of its components, to the key it is checked against or to the generators, and rejects any ciphertext whose number of chunks differs from the key's. Acceptance is exactly the documented pairing-product relation, and plain and prepared keys and generators always give the same verdict.",
  ["inputs"], "all honest ciphertexts (any chunks, any randomness) and all single- and multi-component modifications of ciphertext, key and generators, including swaps, negations, identity elements, mixes of two honest ciphertexts and compensating changes",
  "The tests only verify honest ciphertexts at one seed; no test ever expects a rejection, so a verifier that always says yes passes.",
  ["src/encryption.rs", "src/keygen.rs", "src/setup.rs"],
  [("pairing product e(c_0,Z_0)...e(c_n,Z_n) = e(psi,H)", "encryption.rs verify_ciphertext_commitment and get_g1/get_g2_for_ciphertext_commitment_pairing_checks"), ("length check", "keygen.rs supported_chunks_count")],
  ["Ciphertext::verify_commitment", "Encryption::verify_ciphertext_commitment"])

p("C04", "Batch verification is equivalent to the weighted individual checks",
  "Verifying a non-empty batch of ciphertexts with a list of weights accepts exactly when the weighted sum of the individual commitment defects vanishes: a batch of honest ciphertexts is accepted for all weights, and a batch with one bad ciphertext of non-zero weight, at any position, is rejected. A batch containing a ciphertext with the wrong number of chunks is rejected with an error whatever its position.",
  ["inputs"], "all batch sizes from 1 up, all weights (random powers, zero, one, r-1, repeated), every position of a bad ciphertext, several bad ciphertexts whose defects cancel for some weights and not for others",
  "Batch verification is not called by any test.",
  ["src/encryption.rs"],
  [("random linear combination by multi-scalar multiplication", "encryption.rs verify_commitments_in_batch, get_g1_for_ciphertext_commitments_in_batch_pairing_checks")],
  ["Encryption::verify_commitments_in_batch"])

p("C05", "Verifiable encryption: honest proofs accepted, proof bound to ciphertext",
  "A proof created for a message and the encryption randomness under a proving key and an encryption key (single-authority or distributed) verifies together with the ciphertext of that message and randomness. Verification of ciphertext and proof fails if the proof, any ciphertext component, the message, the randomness, the encryption key or the verifying key is replaced or altered (beyond Groth16's own re-randomisation of a valid proof), in particular when only the SNARK part or only the commitment part is satisfied.",
  ["inputs", "histories"], "all in-range chunk vectors and randomness, all keys, and all exchanges and alterations of proof elements, ciphertext elements (including sum-preserving ones), keys and public inputs",
  "Tests verify a handful of honest proofs for 4-bit chunks at seed 0 and never expect a rejection; verify_commitment_and_proof and encrypt_with_proof are not tested at all.",
  ["src/saver_groth16.rs", "src/encryption.rs", "src/circuit.rs"],
  [("proof.C blinded with r*P_2", "saver_groth16.rs create_proof"), ("public-input part replaced by the ciphertext", "saver_groth16.rs calculate_d, verify_qap_proof"), ("commitment check before proof check", "encryption.rs verify_commitment_and_proof")],
  ["verify_proof", "Ciphertext::verify_commitment_and_proof", "Encryption::encrypt_with_proof"])

p("C06", "The range circuit is satisfiable exactly for values below 2^bits",
  "The circuit accepts a list of values exactly when every one of them is smaller than two to the required bit size, whatever the number and position of the values and whether they are public or private; no assignment of the auxiliary variables satisfies it for an out-of-range value. Its shape (constraints and number of public inputs, which are the values in order) depends only on the parameters, not on the values.",
  ["inputs", "configurations"], "all bit sizes 1..254, all numbers of values, each position holding any field element (2^bits-1, 2^bits, every single higher bit, r-1, random), public and private allocation, and searched dishonest witness assignments",
  "The circuit has no test of its own: only one honest in-range vector is ever proved, so an under-constrained circuit passes.",
  ["src/circuit.rs"],
  [("bit decomposition, OR of the high bits forced to zero", "circuit.rs BitsizeCheckCircuit::generate_constraints")],
  ["ConstraintSynthesizer::generate_constraints of BitsizeCheckCircuit", "create_proof/verify_proof"])

p("C07", "Generated key sets satisfy the scheme's documented key relations",
  "For any generators, SNARK parameters and randomness, key generation returns a secret key, encryption key and decryption key whose elements satisfy every relation the scheme documents between them (randomness bases, commitment bases, the two proof elements and the decryption elements), have as many chunks as the chunk size requires and validate. Keys are fresh: independent secrets per chunk and per call; too few generators give an error.",
  ["inputs", "configurations"], "all generators, deltas, gammas, randomness, chunk sizes and generator-list lengths",
  "keygen_works compares vector lengths only, for one seed and 4-bit chunks; no algebraic relation of a key is checked.",
  ["src/keygen.rs"],
  [("key formulas", "keygen.rs keygen and the field docs of EncryptionKey/DecryptionKey")],
  ["keygen", "setup_for_groth16"])

p("C08", "Distributed key generation equals one key from the summed secrets",
  "For any number of parties and any order of their contributions, combining the parties' partial keys and proof-element shares gives exactly the encryption key a single party holding the sums of all secrets would have, and that key validates and works for encryption, commitment verification and proofs. Contributions of different sizes are never merged into a key silently.",
  ["inputs", "histories"], "1..n parties, all secrets and randomness, all permutations of partial keys and of shares, chunk sizes 4/8/16, mismatched contributions",
  "Tests use exactly two parties in one order at seed 0 and 4-bit chunks, and never compare the combined key with the secrets.",
  ["src/keygen.rs"],
  [("partial keys added component-wise plus one common term", "keygen.rs FkeygenPartial, combineEKs"), ("second round for the product term", "keygen.rs genP1share, combineP1share, keygenFinal")],
  ["FkeygenPartial", "combineEKs", "genP1share", "combineP1share", "keygenFinal"])

p("C09", "Adding ciphertexts yields a ciphertext of the chunk-wise sum",
  "Adding any number of ciphertexts made under one key, in any order and grouping, gives a ciphertext that passes the commitment check, whose randomness is the sum of the randomness values, and that decrypts (directly or after key switching, with a search range that covers the sums) to the chunk-wise sums of the messages. Adding ciphertexts of different lengths is an error.",
  ["inputs", "histories"], "all sequences and groupings of additions over all messages (including zero, maximal, equal and identical ciphertexts), single and distributed keys",
  "One test adds two ciphertexts at seed 0 and compares a single chunk (index 4) of the sum.",
  ["src/encryption.rs"],
  [("component-wise point addition", "encryption.rs add_cts"), ("wider search range", "encryption.rs decrypt_to_chunks_after_re_encryption, solve_discrete_log_for_g")],
  ["Encryption::add_cts", "verify_ciphertext_commitment", "decrypt_to_chunks", "decrypt_to_chunks_after_re_encryption"])

p("C10", "Full-quorum key switching preserves the plaintext for the destination",
  "For any number of parties, any destination key and any ciphertext under the parties' common key (fresh or aggregated), combining one re-encryption share from every party, in any order and grouping, with the ciphertext yields a ciphertext that the destination's secret key decrypts to exactly the original plaintext chunks. The switched ciphertext is exactly an ElGamal encryption of those chunks under the destination's public key.",
  ["inputs", "histories"], "1..n parties, all plaintext chunks up to the search range, all randomness, all orders and groupings of shares, several destinations for the same ciphertext, chunk sizes 4/8/16",
  "Two parties, one order, one seed, 4-bit chunks.",
  ["src/encryption.rs", "src/keygen.rs"],
  [("share = -s_i*C_0 + r*pk", "encryption.rs re_encrypt_share"), ("summing and applying shares", "encryption.rs combine_re_encrypt_share, combine_ct_with_w"), ("destination decryption", "encryption.rs decrypt_to_chunks_after_re_encryption")],
  ["re_encrypt_share", "combine_re_encrypt_share", "combine_ct_with_w", "decrypt_to_chunks_after_re_encryption"])

p("C11", "Nothing less than all parties' shares for one destination decrypts",
  "Combining the shares of any strict subset of the parties, counting a party twice, mixing shares made for different ciphertexts, or using another destination's secret key never yields the plaintext (decryption reports an error), and neither does any single party's secret on its own. Encryptions, proofs, partial keys, destination keys and re-encryption shares draw fresh, independent randomness from the whole scalar field on every call, so repeating a call on the same input changes every component of the result.",
  ["inputs", "histories"], "all party counts and all strict subsets, duplicates, cross-ciphertext and cross-destination mixes; all repeated calls under one continuing random source",
  "No test attempts any decryption that must fail and none repeats an operation to see whether its randomness is fresh.",
  ["src/encryption.rs", "src/keygen.rs"],
  [("additive sharing of the per-chunk secrets", "keygen.rs FkeygenPartial"), ("masking with fresh r*pk", "encryption.rs re_encrypt_share"), ("fresh r", "encryption.rs encrypt_decomposed_message")],
  ["re_encrypt_share", "decrypt_to_chunks_after_re_encryption", "encrypt_decomposed_message", "FkeygenPartial", "Fkeygen_dest"])

p("C12", "Chunk decomposition is the exact positional representation and inverts",
  "Decomposing any field element with a supported chunk size gives its fixed-length big-endian base-2^bits digits, each below 2^bits and, for pairing scalar fields, as many as the chunk count for that size, and composing them returns the element. Unsupported chunk sizes and odd nibble lists are rejected with an error, and the chunk count is the field's bit size divided by the chunk size, rounded up.",
  ["inputs", "configurations"], "all field elements (boundary patterns at every digit position and random) of prime fields from 64 to 381 bits, all chunk sizes 0..255 for the error cases",
  "decompose and compose have no test at all; keys and ciphertexts in the tests use random chunk vectors instead of real messages.",
  ["src/utils.rs"],
  [("byte/nibble splitting", "utils.rs decompose"), ("recomposition", "utils.rs compose"), ("chunk count", "utils.rs chunks_count")],
  ["utils::decompose", "utils::compose", "utils::chunks_count"])

p("C13", "A chunked commitment equals the Pedersen commitment to the whole message",
  "For every message, blinding, supported chunk size and pair of generators, the chunked commitment equals message*G + blinding*H, the same value is obtained when the commitment key is supplied, and the returned commitment key is the list of radix-power multiples of G in big-endian order followed by H. Commitments are additively homomorphic.",
  ["inputs", "configurations"], "all messages and blindings (0, 1, r-1, single chunk, random), all generators, chunk sizes 4/8/16; commitment keys for chunk sizes 1..16",
  "The only commitment test compares the two private key-derivation functions for one generator; no commitment is ever created.",
  ["src/commitment.rs", "src/utils.rs"],
  [("powers of the radix by repeated doubling or fixed-base multiplication", "commitment.rs commitment_key*"), ("multi-scalar multiplication over chunks", "commitment.rs new, get_commitment_given_commitment_key")],
  ["ChunkedCommitment::new", "ChunkedCommitment::get_commitment_given_commitment_key", "ChunkedCommitment::commitment_key"])

p("C14", "Label-derived generators are deterministic, distinct and well-formed",
  "Deriving generators, group elements or field elements from a label always terminates and gives the same result for the same label, different results for different labels, and non-identity elements of the prime-order group; within one generator set the elements are pairwise unrelated (different hash inputs, different values). The derivation hashes the whole label and keeps trying fresh hash inputs until the first one that decodes.",
  ["inputs"], "all labels (empty, prefixes of each other, single-bit changes anywhere, long), all hash functions including ones whose first k outputs do not decode",
  "gens compares three labels once; the retry loop's exhaustion behaviour, long labels and group membership are not covered.",
  ["src/utils.rs", "src/setup.rs"],
  [("hash-and-increment", "utils.rs projective_group_elem_from_try_and_incr, field_elem_from_try_and_incr"), ("domain separation", "setup.rs EncryptionGens::new, ChunkedCommitmentGens::new")],
  ["EncryptionGens::new", "ChunkedCommitmentGens::new", "affine_group_elem_from_try_and_incr", "field_elem_from_try_and_incr"])

p("C15", "Keys, ciphertexts and parameters survive serialization; bad bytes rejected",
  "Every public key, secret key, share, generator set, ciphertext, commitment, multiplication table and SNARK proving key is recovered exactly from its compressed, uncompressed, JSON and binary serde encodings and keeps working. Decoding arbitrary, truncated or altered bytes never panics, never yields a group element off the curve or outside the prime-order subgroup, and in the compressed form accepts only the canonical encoding of what it returns (the curve library's identity encodings aside).",
  ["inputs"], "all values of every serializable type (including identity elements and empty vectors) and all byte mutations of their encodings",
  "All serialization assertions in the tests are commented out.",
  ["src/serde_utils.rs", "src/keygen.rs", "src/setup.rs", "src/encryption.rs", "src/commitment.rs", "src/saver_groth16.rs", "src/utils.rs"],
  [("byte encoding through the canonical compressed form", "serde_utils.rs AsCanonical"), ("derived canonical (de)serialization", "all public structs")],
  ["CanonicalSerialize/CanonicalDeserialize impls", "serde Serialize/Deserialize impls"])

p("C16", "Results do not depend on build configuration or thread scheduling",
  "Given the same inputs and random stream, the default parallel build (with any number of threads), the sequential build and the build without the standard library produce byte-identical keys, ciphertexts, shares, commitments, proofs and parameters and the same verification and decryption results.",
  ["configurations", "schedules", "inputs"], "cargo feature sets {default, std, none}, thread counts 1, 2, 3, 8, concurrent callers, generated protocol runs",
  "Only the default feature set is ever built and tested.",
  ["src/lib.rs", "src/keygen.rs", "src/encryption.rs", "src/utils.rs", "src/macros.rs", "Cargo.toml"],
  [("cfg-switched iterators", "cfg_iter!/cfg_into_iter! in keygen.rs and encryption.rs"), ("feature definitions", "Cargo.toml")],
  ["transcript of a generated protocol run"])

p("C17", "Setup yields mutually consistent SNARK parameters and keys",
  "For any generators and randomness, SNARK setup builds its parameters over exactly the given generators, with fresh and pairwise different trapdoors, one encryption generator per chunk, the published extra element equal to the negated verification trapdoor times the first generator, and proving and verifying parts agreeing. The combined setup returns keys that are consistent with those parameters, so everything it returns interoperates.",
  ["inputs", "configurations"], "all generators, randomness, chunk sizes and circuits with any number of values",
  "setup_for_groth16_works counts elements and calls validate(), which only compares lengths.",
  ["src/saver_groth16.rs", "src/setup.rs"],
  [("SRS generation", "saver_groth16.rs generate_srs, get_gs_for_encryption"), ("combined setup", "setup.rs setup_for_groth16")],
  ["generate_srs", "setup_for_groth16"])

p("C18", "Table-based multiplication equals plain scalar multiplication",
  "Multiplying a group element through a precomputed window table, one scalar at a time or many at once, gives the same result as plain scalar multiplication for every element, every scalar, every number of scalars (including none) and every table size hint, in the order given.",
  ["inputs"], "all scalars (0, 1, r-1, powers of two, all-ones windows, random), base points including the identity, list lengths 0..300, size hints 0..10^5, first and second source group",
  "Only reached indirectly with random scalars of one list length per chunk size.",
  ["src/utils.rs"],
  [("fixed-base windows", "utils.rs WindowTable, multiply_field_elems_with_same_group_elem")],
  ["WindowTable::multiply", "WindowTable::multiply_many", "multiply_field_elems_with_same_group_elem"])

p("C19", "Secret keys are erased from memory when dropped",
  "When a decryption secret key value is dropped or zeroized, wherever it is stored (local, boxed, in a vector, returned by key generation, cloned or deserialized), the memory that held the secret no longer contains it. Using a key (decryption in all variants, key generation, serialization, cloning) leaves no further copy of it on the heap, neither in blocks still in use nor in blocks given back to the allocator (the serialized form itself aside).",
  ["inputs", "histories"], "all secret values and all ways of obtaining and storing a secret key before it is dropped",
  "keygen_works drops a key but cannot observe whether the memory was cleared.",
  ["src/keygen.rs"],
  [("zeroize on drop", "keygen.rs derive(Zeroize, ZeroizeOnDrop) on SecretKey")],
  ["memory of a dropped SecretKey"])

p("C20", "Inputs of mismatched size are rejected, not truncated and not a crash",
  "Every fallible operation given keys, ciphertexts, shares or generator lists whose sizes do not fit together returns an error rather than panicking or silently computing on a truncated input, and key validation accepts exactly the well-formed keys and reports their true number of chunks.",
  ["inputs"], "all wrong lengths (shorter, longer, empty, beyond 255) of every vector-valued argument of key validation, key generation, encryption, verification, aggregation, re-encryption, decryption and chunked commitment",
  "No test passes an argument of the wrong length to anything.",
  ["src/keygen.rs", "src/encryption.rs", "src/commitment.rs", "src/error.rs"],
  [("length checks", "supported_chunks_count, encrypt_decomposed_message, verify_ciphertext_commitment, verify_commitments_in_batch, decrypt_to_chunks*, add_cts, combine_re_encrypt_share, combine_ct_with_w, re_encrypt_share")],
  ["returned Result of each operation"])

p("C21", "Whole-protocol histories: the destination learns exactly the aggregates",
  "In every history of distributed key generation, encryptions by any contributors, publicly verified proofs, aggregations, and key switches to destinations, each ciphertext in the system passes the commitment check, and what a destination finally decrypts is exactly the chunk-wise sum of the messages of the contributions that went into that ciphertext, or an error when a sum exceeds the search range.",
  ["histories", "inputs"], "all sequences of operations over any number of parties, destinations and ciphertexts",
  "The end-to-end tests run one fixed sequence with two parties, two messages and one seed.",
  ["src/keygen.rs", "src/encryption.rs", "src/saver_groth16.rs", "src/tests.rs"],
  [("the whole protocol", "README.md, tests.rs")],
  ["decrypt_to_chunks_after_re_encryption", "verify_ciphertext_commitment", "verify_proof"])

p("C22", "Returned encryption randomness opens the ciphertext",
  "Encryption returns a ciphertext whose randomness element, every chunk element and commitment are exactly those determined by the message chunks, the encryption key, the generators and the returned randomness, so the encryptor can prove statements about the committed chunks. All encryption entry points (from field element, from chunks, from a SNARK verifying key, with proof) create such ciphertexts.",
  ["inputs", "configurations"], "all messages, chunk vectors (also out of range), randomness, keys with any number of chunks, all encryption entry points",
  "Tests only decrypt or verify the result; the returned randomness is only used to make one proof.",
  ["src/encryption.rs"],
  [("encryption formula", "encryption.rs encrypt_decomposed_message"), ("wrappers", "encryption.rs encrypt, encrypt_given_snark_vk, encrypt_with_proof")],
  ["Encryption::encrypt*", "Encryption::encrypt_decomposed_message"])

p("C23", "The guarantees hold over every scalar field, not only that of BLS12-381",
  "The crate is generic over the pairing: for an engine over any prime scalar field (shorter, longer or without spare bits compared with the default curve) key generation, encryption, the commitment check, decryption, aggregation, distributed keys and key switching, the range circuit and proofs, chunked commitments, table-based multiplication, label-derived generators and serialization keep the guarantees stated in the other properties.",
  ["configurations", "inputs"], "engines over scalar fields of 64, 254, 256 and 377 bits; all messages, keys, chunk sizes 4, 8, 16, number of parties; tampered ciphertexts",
  "All tests use one curve.",
  ["src/utils.rs", "src/circuit.rs", "src/encryption.rs", "src/keygen.rs", "src/commitment.rs", "src/saver_groth16.rs"],
  [("sizes taken from the field", "utils.rs chunks_count, WindowTable::new, decompose; circuit.rs generate_constraints; commitment.rs")],
  ["all public operations, instantiated with other engines"])

p("C24", "Results depend on the arguments and the random source alone",
  "No operation keeps state: whatever was called before, in whatever order, how often, or at the same time on other threads, an operation returns for the same arguments and the same random source the result it returns as the only operation of a fresh process (key generation, encryption, checks, decryption, aggregation, switching, proofs, commitments, tables, label-derived generators, conversion, serialization).",
  ["histories", "schedules", "inputs"], "all histories and interleavings of operations, in particular of operations whose arguments coincide in parts",
  "A test runs one operation of a kind once on one set of keys in a process; a remembered table, key or counter only shows when a later call with partly equal arguments is compared with a fresh one.",
  ["src/encryption.rs", "src/keygen.rs", "src/utils.rs", "src/commitment.rs", "src/saver_groth16.rs", "src/setup.rs"],
  [("every public operation is a function of its arguments", "no static or thread-local state in src/"), ("tables built per call", "utils.rs WindowTable::new, keygen.rs pairing_powers")],
  ["all public operations"])

p("C25", "The exported helper macros compute what they are documented to expand to",
  "join! returns the values of its one to six expressions in their order, evaluating each exactly once, whatever the number of threads, nested or not, and does not swallow the panic of an expression; unnest_tuple! only flattens; concat_slices! is the concatenation of its pieces in order; multi_pairing! is the product of the pairings of its pairs; impl_deref! gives access to exactly the wrapped value; the iterator type macros accept (parallel) iterators and keep items and order.",
  ["inputs", "schedules"], "all expressions, slices and pairs; number of threads; panicking expressions",
  "join! is tested with constants only, multi_pairing!, concat_slices!, impl_deref! and the iterator macros have no test.",
  ["src/macros.rs"],
  [("macro definitions", "macros.rs join!, unnest_tuple!, concat_slices!, multi_pairing!, impl_deref!, impl_*iter!")],
  ["dist_saver::join!", "dist_saver::concat_slices!", "dist_saver::multi_pairing!", "dist_saver::impl_deref!"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
