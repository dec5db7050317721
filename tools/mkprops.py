#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)

prop("C01", "Every signature the signer outputs is accepted by the verifier",
 "For each of the twelve parameter sets, every valid key pair, every message and every signing randomness, the signature produced by signing verifies successfully under the matching public key and the same message.",
 ["inputs", "configurations"], "all keys that keygen can return, all messages (any length), all randomness strings (absent, empty or any length), all twelve parameter sets, every value of the Fiat-Shamir challenges",
 "The tests sign a few random messages and replay known-answer vectors; each run reaches one challenge value, so per-challenge paths (every hidden-leaf index, every delta bit pattern) are only sampled.",
 ["faest.c", "vole.c", "vc.c", "faest_aes.c", "universal_hashing.c", "faest_param.c.in"],
 [("faest_sign / faest_verify recompute the same transcript", "faest.c"), ("VOLE correlation and its correction by c", "faest.c:faest_verify"), ("quicksilver relation", "faest_aes.c:aes_prove,aes_verify")],
 ["faest_*_sign", "faest_*_verify"])
prop("C02", "Challenges bind public key, message and every committed value, in fixed order",
 "The signer derives its message digest, root key, IV and the three challenges from exactly the specified byte strings (public key, whole message, commitments, corrections, IV, consistency-check values, masked witness, proof values, and all of the caller's randomness), in the specified order and lengths, and the verifier recomputes the digest and challenges from the same strings, taken from the signature and its own inputs. No byte of public key, message, signature or randomness is dropped, duplicated or replaced.",
 ["inputs", "configurations"], "all keys, messages of every length up to the bound, all randomness lengths up to the bound, arbitrary (also adversarial) signature bytes, all twelve parameter sets",
 "Known-answer tests fix 1 input per set and compare end results; a verifier or signer that ignores some input bytes consistently still passes round-trip tests, and rejection tests flip only a handful of bits.",
 ["faest.c", "random_oracle.c"],
 [("hash_mu, hash_challenge_1/2/3", "faest.c"), ("H3 over key, mu, rho", "faest.c:faest_sign"), ("signature component offsets", "faest.c:signature_*,dsignature_*")],
 ["faest_sign", "faest_verify"])
prop("C03", "Verification accepts exactly when the recomputed final challenge matches",
 "For every public key, message and byte string of the right length, verification returns 0 if and only if the final challenge recomputed from the transcript equals, in all of its bits, the challenge stored in the signature; it returns -1 otherwise and has no other outcome.",
 ["inputs", "configurations"], "arbitrary signature bytes (including adversarial ones), arbitrary public keys and messages, all twelve parameter sets",
 "Tests flip single bits at a few positions; acceptance caused by comparing too few bytes, the wrong bytes or an inverted result on rare values is not visible to them.",
 ["faest.c", "faest_param.c.in"], [("final comparison", "faest.c:faest_verify Step 21"), ("wrapper return value", "faest_param.c.in:verify")], ["faest_*_verify return value"])
prop("C04", "VOLE correlation holds for every seed, IV and challenge",
 "For every root key, IV and challenge, the committing party's (u, V, corrections) and the verifying party's Q reconstructed from the opening satisfy, column by column, Q = V + delta * u_i where u_i is the tree's own vector and delta the challenge bits decoded for that tree, and both compute the same commitment hash.",
 ["inputs", "configurations"], "all root keys, IVs, all challenge values for each tree (all 2^k leaf indices), all parameter shapes including mixed tree depths k0 != k1, all output lengths",
 "The VOLE test draws a few random challenges per set, and is left out of the portable build and of the small-signature sets.",
 ["vole.c", "vc.c"], [("ConvertToVole", "vole.c"), ("vole_commit / vole_reconstruct", "vole.c"), ("seed permutation j ^ idx", "vole.c:vole_reconstruct")], ["vole_commit outputs", "vole_reconstruct outputs"])
prop("C05", "Vector-commitment openings are correct for every index and reveal nothing else",
 "For every root seed, IV, depth and index, opening at the index yields exactly the sibling seeds along the path and the hidden leaf's commitment; reconstruction from that opening recovers every other leaf's seed and commitment and the same commitment hash. No seed on the path from the root to the hidden leaf, nor the hidden leaf's own output seed, is written to the opening.",
 ["inputs", "configurations"], "all root seeds and IVs, all depths up to the maximum used, all 2^depth indices, all three security levels; arbitrary (also malformed) openings for the reconstruction side",
 "Tests open a few random indices; an error at one index (first, last, index mod 4 boundaries of the four-way batching) or a leaked path node is invisible in round trips.",
 ["vc.c"], [("vector_commitment", "vc.c"), ("vector_open", "vc.c"), ("vector_reconstruction, four-way batching around the hidden leaf", "vc.c")], ["pdec/com_j", "vec_com_rec_t"])
prop("C06", "Block ciphers equal FIPS-197 AES and Rijndael-192/256 for all keys and blocks",
 "For every key and plaintext block, key expansion and encryption for AES-128/192/256 and for Rijndael with 192- and 256-bit blocks produce exactly the specified ciphertext, and the returned flag is non-zero exactly when some S-box input was zero (in the key expansion, respectively in the encryption).",
 ["inputs"], "all keys (128, 192, 256 bits), all plaintext blocks (128, 192, 256 bits)",
 "Tests use a few published vectors; the zero-S-box flag in particular has low-probability triggers per byte position and round.",
 ["aes.c"], [("expand_key", "aes.c"), ("aes_encrypt and round functions", "aes.c"), ("compute_sbox", "aes.c"), ("contains_zero", "aes.c")], ["*_init_round_keys", "*_encrypt_block"])
prop("C07", "One-way function output and key-validity flag are exact",
 "For every key and input, each one-way function writes exactly the specified output (block encryption of the one or two input blocks, or the Even-Mansour form key XOR permutation of key), writes no byte beyond it, and reports the key usable if and only if no S-box input in the proven computation is zero.",
 ["inputs"], "all keys and inputs of the six one-way functions",
 "A zero S-box input at a given position has probability 1/256 per byte; tests see few keys and never enumerate positions (second block, key schedule, last round).",
 ["owf.c", "aes.c"], [("owf_128..owf_em_256", "owf.c"), ("flag aggregation with |=", "owf.c, aes.c")], ["owf_* return value and output"])
prop("C08", "Key generation returns only valid matching key pairs, or reports failure",
 "If key generation returns success, the secret key consists of freshly drawn random bytes with a usable one-way-function key, the public key is exactly input followed by one-way-function output, and the pair validates; if the system random generator fails, key generation and randomized signing return an error instead of producing a key or signature from non-random data.",
 ["inputs", "fault_sequences", "configurations"], "all random byte strings (including sequences whose first draws are unusable keys), all points at which the random source fails, all twelve sets",
 "Tests run key generation with a working random source only; retry and failure paths are never taken.",
 ["faest_param.c.in", "randomness.c"], [("keygen retry loop", "faest_param.c.in:keygen"), ("rho generation", "faest_param.c.in:sign")], ["faest_*_keygen", "faest_*_sign"])
prop("C09", "Key-pair validation returns the exact verdict for every byte string",
 "For every pair of byte strings, validation returns -1 iff a pointer is null, 1 iff the secret key has a zero S-box input, 0 iff the public key is exactly the one derived from the secret key, and 2 in all remaining cases.",
 ["inputs", "configurations"], "all pk and sk byte strings, null pointers, all twelve sets",
 "Tests check a matching pair and one or two corruptions; a comparison that ignores some bytes of the key survives.",
 ["faest_param.c.in", "compat.c"], [("validate_keypair", "faest_param.c.in"), ("faest_timingsafe_bcmp", "compat.c")], ["faest_*_validate_keypair"])
prop("C10", "API argument contract: bad arguments rejected, buffers respected",
 "Signing rejects null key, signature or length pointers, a too short signature buffer, an unusable key and missing randomness of non-zero length with -1 and leaves the signature buffer and its length untouched; on success it writes exactly the signature size, sets the length to it and returns 0. Verification rejects null public key or signature pointers and every length other than the signature size with -1. Inputs are never modified.",
 ["inputs", "configurations"], "all combinations of null/non-null arguments, all signature_len values (full size_t range), all key bytes, all twelve sets",
 "API tests call with correct arguments and a few null pointers; lengths and combinations are not enumerated.",
 ["faest_param.c.in"], [("argument checks", "faest_param.c.in:sign_with_randomness,sign,verify")], ["return codes", "*signature_len", "signature buffer"])
prop("C11", "Signed-message API round-trips, tolerates overlap and rejects short input",
 "For every message (including empty) crypto_sign emits the message followed by its signature and the exact total length; crypto_sign_open of that output returns the message and its length, also when input and output buffers overlap. Any input shorter than a signature, or with a signature that does not verify, is rejected with -1 and neither message nor length is written.",
 ["inputs", "configurations"], "all messages up to the bound, all smlen values, overlapping and disjoint buffers, accepting and rejecting verification",
 "API tests use one message length with in-order buffers and one corrupted signature.",
 ["crypto_sign.c.in"], [("crypto_sign / crypto_sign_open", "crypto_sign.c.in")], ["sm, smlen, m, mlen"])
prop("C12", "Binary-field arithmetic is exact for all operands",
 "Multiplication in GF(2^8), GF(2^64), GF(2^128), GF(2^192) and GF(2^256), multiplication by 64-bit elements and by bits, inversion in GF(2^8), embedding of bytes into the large fields and evaluation of the power-basis sum all equal their mathematical definition for every operand, in every build variant of the field types.",
 ["inputs", "configurations"], "all operand values (up to 2^512 pairs), both field representations (vector types and structs)",
 "Tests compare with NTL on random operands; only a vanishing fraction of operand values is sampled and the struct representation is not built at all.",
 ["fields.c", "fields.h"], [("bf*_mul, bf*_mul_64, bf*_mul_bit, bf*_byte_combine*, bf*_sum_poly, bf8_inv", "fields.c")], ["returned field elements"])
prop("C13", "Universal hashes equal their polynomial definition and are linear",
 "For every key, length and input, the VOLE universal hash and the zero-knowledge hash equal the specified polynomial evaluations; both are linear in the hashed input for a fixed key, streaming and one-shot use agree, and no input block is skipped, repeated or reordered.",
 ["inputs", "configurations"], "all seeds, all inputs, the input lengths of all twelve sets and lengths at block boundaries, all three fields",
 "Tests cover a handful of vectors per field; linearity for all inputs and tail handling at lengths not a multiple of the field size are not reached.",
 ["universal_hashing.c"], [("vole_hash_*", "universal_hashing.c"), ("compute_h1 tail padding", "universal_hashing.c"), ("zk_hash_*_init/update/finalize", "universal_hashing.c")], ["hash outputs"])
prop("C14", "The extended witness is exactly the committed AES computation",
 "For every usable key and input, the extended witness consists of the key, the key-schedule words that are produced with an S-box and the state after ShiftRows of every round but the last, for every block, in the specified order, fills exactly the witness length of the parameter set, and satisfies every S-box relation that the proof later checks.",
 ["inputs", "configurations"], "all keys and inputs, all twelve sets",
 "Witness vectors exist for one input per set.",
 ["aes.c", "faest_aes.c"], [("aes_extend_witness", "aes.c")], ["witness bytes"])
prop("C15", "Prover and verifier agree on every proof relation for all VOLE inputs",
 "For every witness, mask, VOLE matrix and challenge, the verifier's per-constraint values equal the prover's value pair evaluated at the verifier's secret challenge whenever the constraint holds, and the verifier's recomputed proof value equals the prover's whenever all constraints hold; masked rows, S-box rows and the final mask use the same indices on both sides.",
 ["inputs", "configurations"], "all witness bits, all VOLE rows (2^(lambda*l)), all challenges delta, all six circuit variants (AES-128/192/256, EM-128/192/256)",
 "The proof tests use one fixed instance per set; identities over all VOLE values and delta cannot be sampled meaningfully.",
 ["faest_aes.c"], [("aes_prove_* / aes_verify_*", "faest_aes.c"), ("key-schedule and encryption constraint functions", "faest_aes.c")], ["values hashed by zk_hash", "a_tilde, b_tilde"])
prop("C16", "The proven constraints hold only for witnesses of the real AES computation",
 "The set of constraints checked by the proof contains, for every S-box of the key schedule and of the encryption of every block, the relation between the S-box's true input and output under the public input and output, and nothing weaker: for any witness that is not the AES (or Even-Mansour) computation of the public key, at least one constraint is violated and the verifier's and prover's values differ for all but a few challenges.",
 ["inputs", "configurations"], "all witnesses (valid and invalid), public inputs and outputs, all six circuit variants",
 "Tests only run honest provers; a missing or weakened constraint never makes an honest run fail.",
 ["faest_aes.c"], [("constraint enumeration", "faest_aes.c:*_constraints_*"), ("forward/backward round functions", "faest_aes.c")], ["values hashed by zk_hash"])
prop("C17", "SHAKE absorbs and squeezes independently of chunking, with correct padding",
 "For every message (below 2^61 bytes) and every way of splitting it into updates and every way of splitting the output into reads, the SHAKE128/256 wrapper returns the same bytes as the specified sponge with rate 168/136 and suffix 1111; the four-way variant returns in each lane what the single version returns.",
 ["inputs", "histories", "configurations"], "all message lengths and splits across block boundaries up to the bound, all contents, all read lengths, both rates, single and four-way",
 "KATs fix a handful of lengths; queue-boundary splits (rate-1, rate, rate+1, partial lanes) are not enumerated.",
 ["sha3/KeccakSponge.inc", "sha3/KeccakHash.c", "sha3/KeccakHashtimes4.c", "hash_shake.h"], [("absorb queue", "sha3/KeccakSponge.inc"), ("hash_* wrappers", "hash_shake.h")], ["squeezed bytes"])
prop("C18", "All built Keccak permutations compute Keccak-f[1600] on every state",
 "For every 1600-bit state, the 64-bit and the 32-bit interleaved permutation and the byte-level add, overwrite and extract operations compute Keccak-f[1600] and the specified state bytes.",
 ["inputs", "configurations"], "all states, all byte offsets and lengths of add/extract (with the whole-lane over-read the interface documents), 1 to 24 rounds, both implementations built here",
 "KATs exercise few states and only whole-lane offsets; the two implementations are never compared on arbitrary states.",
 ["sha3/opt64/KeccakP-1600-opt64.c", "sha3/plain32/KeccakP-1600-inplace32BI.c"], [("KeccakP1600_Permute_24rounds, AddBytes, ExtractBytes", "sha3/")], ["extracted state bytes"])
prop("C19", "The four random oracles are domain separated and level dependent",
 "Each random oracle hashes exactly its input followed by its own distinct separator byte, with SHAKE128 at security level 128 and SHAKE256 otherwise, for every input split; the four-way variant agrees with the single one, and the IV derived with the root key follows the key output in the same stream.",
 ["inputs", "configurations"], "all inputs and splits up to the bound, all three security levels, all output lengths used",
 "KATs detect end-to-end changes only for the fixed vectors; agreement of single and four-way paths on tails is only exercised by chance.",
 ["random_oracle.c", "hash_shake.h"], [("H0..H3 init/update/final", "random_oracle.c")], ["digests"])
prop("C20", "The PRG is AES-CTR with a 128-bit big-endian counter for every length and IV",
 "For every key, IV and output length (including lengths that are not a multiple of 16 and IVs whose counter carries or wraps), the pseudorandom generator outputs the prefix of the AES-CTR keystream for the security level, writes no byte beyond the requested length, leaves key and IV unchanged, and both builds (own AES, OpenSSL) agree.",
 ["inputs", "configurations"], "all keys, all 2^128 IVs, all output lengths up to the bound, both builds",
 "IVs are uniformly random in tests, so counter carries beyond the low bytes are never hit; partial tail blocks are hit for few lengths.",
 ["aes.c"], [("prg", "aes.c"), ("aes_increment_iv", "aes.c")], ["prg output"])
prop("C21", "No memory error, leak or uninitialised output on any input",
 "Verification of arbitrary bytes of the right length, signing with any inputs and all component operations access memory only inside live objects with correct alignment (except the lane accesses that the Keccak code documents as possibly misaligned), never branch on, address with or output uninitialised memory, and free every allocation exactly once.",
 ["inputs", "configurations"], "all signature bytes (also malformed), all keys, messages and challenges; all twelve sets, with mixed tree depths",
 "Tests run without sanitizers, on honest signatures and few corrupted ones; leaks are not observed at all.",
 ["faest.c", "vole.c", "vc.c", "faest_aes.c", "aes.c", "universal_hashing.c"], [("buffer sizes from parameters", "all"), ("malloc/free pairs", "faest.c, vole.c, vc.c, faest_aes.c")], ["memory accesses", "heap state at return"])
prop("C22", "Signing is free of secret-dependent branches and memory addresses",
 "During key generation and signing, no branch condition, memory address, loop bound or variable-latency operand depends on the secret key, the root seed, the witness, unopened seeds or VOLE masks, except through values that are part of the public key or the signature and the documented key-usability decision.",
 ["inputs"], "all pairs of secret inputs with equal public values, all six one-way functions and all three field sizes",
 "Timing behaviour is not observed by functional tests at all; the valgrind-based variant is disabled here and sees single executions.",
 ["aes.c", "owf.c", "fields.c", "universal_hashing.c", "faest_aes.c", "faest.c", "vole.c", "vc.c", "compat.c"], [("masking instead of branching", "fields.c, aes.c, utils.h"), ("constant-time compare", "compat.c")], ["branch conditions and addresses"])
prop("C23", "Parameter tables are consistent and the signature layout tiles the signature",
 "For every parameter set the published sizes, the table returned at run time and the derived quantities agree with the FAEST specification, tree depths add up to the security level, and the components of a signature lie next to each other without gap or overlap and fill exactly the published signature size, identically for signer and verifier.",
 ["configurations"], "all twelve parameter sets plus invalid identifiers",
 "Tests use the tables to compute expectations, so a consistent error in table and use is not seen; layout overlap is only visible when values are compared byte by byte.",
 ["meson.build", "instances.c", "faest.c", "faest_param.h.in"], [("parameter tables", "instances.c, meson.build"), ("signature_* offsets", "faest.c")], ["faest_get_paramset", "signature bytes"])
prop("C24", "Challenge decoding and tree indexing are exact and partition the challenge",
 "Decoding the challenge for tree i returns exactly that tree's consecutive bits, the trees' bit ranges partition the challenge, out-of-range trees are rejected without writing, bit decomposition and recomposition of an index are inverse to each other, and node numbering is a bijection from (level, position) to consecutive indices.",
 ["inputs", "configurations"], "all challenges, all tree indices, all (k0,t0,k1,t1) of the twelve sets and generic ones, all depths up to 12, all positions",
 "Unit tests check a few depths and indices.",
 ["vole.c", "vc.c"], [("ChalDec", "vole.c"), ("BitDec, NumRec, getNodeIndex, getBinaryTreeNodeCount", "vc.c")], ["returned bits and indices"])
prop("C25", "Secrets are wiped and compared completely",
 "Clearing a private key sets every byte of it (and nothing else) to zero and is not removed by optimisation; the constant-time comparison returns zero exactly when all bytes are equal, for every length.",
 ["inputs", "configurations"], "all key contents, all twelve sets, all comparison lengths up to the bound",
 "No test inspects memory after clearing, and comparison tests use equal or single-difference buffers.",
 ["faest_param.c.in", "compat.c", "compat.h"], [("clear_private_key", "faest_param.c.in"), ("faest_explicit_bzero, faest_timingsafe_bcmp", "compat.c")], ["memory after the call", "comparison result"])
prop("C26", "Signing and verification are pure functions of their arguments",
 "Signing with given randomness depends only on key, message, randomness and parameter set, and verification only on its arguments: repeated or interleaved calls, earlier heap or stack contents, absent versus empty randomness, and pointer placement do not change the result, and no global state is kept.",
 ["inputs", "histories"], "all inputs, all prior heap/stack contents, all interleavings of calls modelled as arbitrary initial memory",
 "A test compares results from one process state; dependence on stale memory shows only by luck.",
 ["faest.c", "faest_param.c.in", "vole.c", "vc.c", "faest_aes.c"], [("explicit initialisation (calloc, memset)", "faest.c, vole.c, vc.c")], ["signature bytes", "return codes"])
prop("C27", "Random-byte generation reports every failure and fills the whole buffer",
 "Requesting random bytes succeeds only if the operating system delivered every requested byte into the buffer; short reads, interruptions and errors are either retried or reported, and nothing outside the buffer is written.",
 ["fault_sequences", "inputs"], "all lengths up to the bound, all return values and error codes of the OS interface, in every order up to the bound",
 "The OS interface never fails in tests.",
 ["randomness.c"], [("getrandom result check", "randomness.c"), ("/dev/urandom fallback loop", "randomness.c")], ["rand_bytes"])
prop("C28", "Aligned allocation fallback returns aligned, disjoint, freeable memory",
 "For every power-of-two alignment and every size that is a multiple of it, the fallback allocator returns memory that is aligned, large enough and released completely by its free function, and rejects alignments that are no power of two and sizes that are no multiple of it with an error; sizes whose bookkeeping would overflow are refused. (The variant that stores the offset in one byte may refuse alignments above 128 and returns no memory for size 0.)",
 ["inputs", "configurations"], "all alignments and sizes in the bound, all addresses the underlying allocator may return, each fallback variant",
 "The fallbacks are not compiled in the tested builds.",
 ["compat.c", "compat.h"], [("faest_aligned_alloc / faest_aligned_free", "compat.c")], ["returned pointer"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
