import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook="cfg synedrion_verif: the harness is compiled as a module of the crate"):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

NOPROTO="The protocol tests need the manul dependency, which is not available here, and even with it each samples one honest run."
# ---------------- protocols
p("S01","Interactive signing yields one valid signature under the group key",
 "When every participant follows the interactive signing protocol, all of them output the same ECDSA signature on the prehashed message; it verifies under the group's verifying key, is normalised to a low s, and its recovery id recovers exactly that key. This holds for every message, every valid set of key shares, every choice of the participants' randomness (except the negligible one for which no signature exists, because the nonce, the mask or the resulting s is zero) and every order in which the messages are delivered.",
 ["schedules","inputs","configurations"],"All delivery orders of every round, 2 to 4 signers (including t-of-n shares turned into additive ones, derived and refreshed shares), and boundary messages (0, 1, order-1, order, all ones) and boundary shares.",
 NOPROTO+" Random 32-byte messages never hit the boundaries of the scalar field.",
 ["src/protocols/interactive_signing.rs","src/curve/ecdsa.rs"],
 [("presigning and signature share assembly","src/protocols/interactive_signing.rs Round3/Round4 finalize"),("RecoverableSignature::from_scalars","src/curve/ecdsa.rs")],
 [("k, gamma, chi, delta","additive shares of the nonce, mask and their products with the key","src/protocols/interactive_signing.rs")],["signature returned by the protocol"])
p("S02","Key generation gives every node the same key and matching shares",
 "After a key generation run with honest participants, all of them agree on the set of public shares and on the verifying key, each node's secret share is the discrete logarithm of its own public share, and the verifying key is the sum of the public shares. The order in which messages arrive does not change the outcome.",
 ["schedules","configurations"],"All delivery orders for 2 to 4 parties and all party-id assignments within the bound.",NOPROTO,
 ["src/protocols/key_init.rs","src/entities/full.rs"],[("commit-reveal-prove rounds","src/protocols/key_init.rs"),("KeyShare::new","src/entities/full.rs")],None,["KeyShare accessors"])
p("S03","Refreshing shares keeps the group key and produces consistent auxiliary data",
 "A key refresh run with honest participants produces share changes that add up to zero: applying them leaves the verifying key as it was, keeps every secret share matching its public share, and changes the shares themselves. The auxiliary data from a refresh or from its stand-alone generation is the same public data at every node, and each node's secret part is the one behind its own public part.",
 ["schedules","configurations","histories"],"All delivery orders for 2 to 3 parties, and sequences of key generation, refresh, refresh, signing.",NOPROTO,
 ["src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/entities/full.rs"],[("secret_split of zero and share encryption","src/protocols/key_refresh.rs"),("KeyShare::update","src/entities/full.rs")])
p("S04","Every quorum of threshold shares represents the same key, also after resharing",
 "For a t-of-n sharing every subset of exactly t shares yields additive shares whose public parts match and which sum to the same verifying key. Resharing from any valid quorum of old holders (t of them or more) to any new holders and any legal new threshold keeps that verifying key, whether or not the two groups overlap and in whatever order messages arrive; if one of the old holders deviates, the new holders that finish still hold such shares.",
 ["configurations","inputs","schedules"],"All (t, n) with n <= 5 and all quorums, all old/new holder sets and thresholds over 4 parties, all delivery orders for small groups.",
 "The existing tests take one (t, n) pair and one subset; the property is over all quorums and all holder sets.",
 ["src/entities/threshold.rs","src/tools/sss.rs","src/protocols/key_resharing.rs"],[("Lagrange interpolation","src/tools/sss.rs"),("share conversion","src/entities/threshold.rs"),("resharing","src/protocols/key_resharing.rs")])
p("S05","A deviating participant is identified by evidence that third parties accept",
 "If one participant deviates by changing any field of any of its messages, then no honest participant outputs a wrong result: either the run still completes correctly, or some honest participant stops with an accusation that names exactly that participant. The evidence attached to the accusation is accepted by a third party that has only the signed messages and the public data.",
 ["fault_sequences","inputs","histories"],"Every field of every message of every round of key generation, refresh, auxiliary generation and signing, with every mutation of the alphabet (one deviation per run).",
 "The misbehaviour tests enumerate a couple of dozen hand-picked deviations, and several error branches are documented as unreachable from tests.",
 ["src/protocols/key_init.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/protocols/interactive_signing.rs"],
 [("receive-time checks","receive_message of every round"),("evidence verification","verify_messages_constitute_error of every protocol error")])
p("S06","Nobody can be framed: no accusation against an honest participant is accepted",
 "For a participant whose messages all follow the protocol, no accusation of any kind built from the messages it really sent is accepted by evidence verification, and honest nodes never accuse one another. This holds whatever accusation type and accusation parameters the accuser picks.",
 ["inputs","histories","configurations"],"Every error kind of every protocol, with every choice of its id parameters, for every sender and round of honest transcripts.",
 "Tests only verify evidence that was produced by a real deviation; they never present evidence against an honest transcript.",
 ["src/protocols/key_init.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/protocols/interactive_signing.rs"],
 [("evidence verification recomputes the receiver's check","verify_messages_constitute_error")])
p("S07","No message from a peer crashes or wedges an honest node",
 "Whatever bytes a peer puts in a protocol message, an honest node either accepts the message or reports an error about that peer; processing it, finishing the round and later verifying evidence about it never panics.",
 ["inputs","fault_sequences"],"Every field of every message replaced by every value of a degenerate-value alphabet (zero, one, modulus, all ones, truncated, extended, empty, identity point, other party's value, missing or extra map entries), in every round of every protocol.",
 "Tests only feed well-formed or hand-picked malformed messages.",
 ["src/protocols/key_init.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/protocols/interactive_signing.rs","src/protocols/key_resharing.rs"],
 [("deserialization checks and error returns","receive_message of every round")])
p("S08","Messages are bound to their session, sender and parameters",
 "A message, proof or commitment that was valid in one session, from one sender, is rejected when it is presented in another session, on behalf of another sender, or to be combined with another key or auxiliary data set. Two sessions that differ in their shared randomness or participant set never accept each other's proofs.",
 ["histories","inputs","configurations"],"Every message of every round replayed across two sessions and across every pair of senders.",
 NOPROTO,["src/entities/internal.rs","src/protocols/interactive_signing.rs","src/protocols/key_init.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs"],
 [("session id and epoch id hashed into every proof","src/entities/internal.rs Sid, interactive_signing.rs Epid")])
p("S09","A key survives any history of its shares",
 "Whatever legal sequence of operations the shares of a key go through (dealing or generation, refreshes, new auxiliary data, storing and loading, conversion to threshold shares and back to additive shares of a quorum, child key derivation, resharings to other holders and thresholds), the verifying key stays the same (or the derived child), every share is consistent with the public data everybody holds, and every quorum can sign under it. Parties whose shares or auxiliary data come from different epochs of a refresh never produce a signature together, and do not crash.",
 ["histories","inputs"],"All sequences of operations up to a depth from generated and dealt keys, signing by every quorum; all assignments of two epochs to the parties.",
 NOPROTO,["src/entities/full.rs","src/entities/threshold.rs","src/protocols/key_resharing.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/curve/bip32.rs"],
 [("shares are combined, converted and derived","src/entities/full.rs update/subset, src/entities/threshold.rs to_key_share/from_key_share/derive_bip32")])
p("S10","Messages give away no secret: every mask is fresh, wide enough and used once",
 "In runs of every protocol, no two values a party sends are hidden by the same random number: there is no pair of values sent whose difference, sum or quotient stays the same whatever that random number is, except where the definition of the protocol makes it so (additive shares of one total, commitments to one value). Everything random in a message (commitments, proofs, ciphertexts, masked values) is drawn anew in each session and over its full range: no value or bit of it repeats over sessions, and the plaintexts and randomizers of ciphertexts fill the ranges the protocol defines for their masks. The secrets of a session (shares, nonces, subshares, changes of shares, setup secrets, factors) appear nowhere in clear: no message contains one, nor a value trivially related to one. A refresh masks the change of each share with a key that depends on both the sender's and the recipient's ephemeral secrets, and in a resharing only its recipient gets a subshare.",
 ["inputs","histories"],"Every random number of every party changed in turn, by several changes, in runs of all five protocols including the error rounds of signing; all pairs of values sent by all parties; dozens of independent streams.",
 "Tests check that protocols succeed; a reused or missing mask does not make a run fail.",
 ["src/protocols/key_init.rs","src/protocols/key_refresh.rs","src/protocols/aux_gen.rs","src/protocols/interactive_signing.rs","src/protocols/key_resharing.rs","src/paillier/encryption.rs"],
 [("masks and randomizers are drawn","Round1/Round2 constructors of every protocol"),("share changes are encrypted with a hashed Diffie-Hellman key","src/protocols/key_refresh.rs")])
# ---------------- zk
ZK=["src/zk/aff_g.rs","src/zk/aff_g_star.rs","src/zk/dec.rs","src/zk/elog.rs","src/zk/enc_elg.rs","src/zk/fac.rs","src/zk/mod_.rs","src/zk/prm.rs","src/zk/sch.rs"]
p("Z01","Zero-knowledge proofs: an honest proof always verifies",
 "For every valid witness, including those on the boundary of the permitted ranges, every set of keys that satisfies the parameter rules, and every challenge the hash can produce, the proof an honest prover generates is accepted by the verifier (except with the negligible probability that a masking value lies within one challenge-times-witness of the end of its sampling interval), and still is after it has been serialized and deserialized.",
 ["inputs","configurations"],"All challenges of the micro challenge spaces, boundary challenges and boundary witnesses (both signs, zero, both ends of the range) otherwise, for all nine proof systems.",
 "The proof tests sample one random witness and let the hash choose the challenge, so extreme challenges, signs and range ends are never hit.",
 ZK,[("prover and verifier equations","src/zk/*.rs new/verify")])
p("Z02","Zero-knowledge proofs: every verification condition is enforced",
 "A proof is rejected as soon as a single condition of its verification fails, even if all the other conditions hold: any one commitment inconsistent with its equation, any response outside its permitted range, a challenge other than the one derived from the transcript, any residue, size or primality requirement not met. In particular a witness outside of the permitted range cannot be proven.",
 ["inputs","fault_sequences"],"For all nine proof systems, for every condition, a proof that was constructed to satisfy all conditions but this one, for several challenges, signs and sizes of the violation.",
 "The tests check acceptance of honest proofs, so a dropped or loosened check goes unnoticed.",
 ZK,[("equation, range, and challenge checks","src/zk/*.rs verify")])
p("Z03","Zero-knowledge proofs are bound to the whole statement and context",
 "A proof is only valid for the statement, the verifier's commitment parameters, the prover and the session it was made for; presenting it with any of these replaced by a different value, or with any of its own fields replaced by a different value, makes it invalid (equal residues in different representations, and the sign of a fourth root in the proof about a modulus, do not count as different; the number of parties the decryption proof is used with belongs to the verifier). The challenge depends on every one of those values, so no part of a statement can be picked after the challenge is known.",
 ["inputs"],"For all nine proof systems: every public input, every commitment parameter, the auxiliary context, and every leaf of the proof, each replaced by every value of a mutation alphabet; and the exact transcript that the challenge is computed from.",
 "The tests do not verify proofs with altered statements.",
 ZK+["src/tools/hashing.rs"],[("Fiat-Shamir transcript","src/zk/*.rs and src/tools/hashing.rs")])
p("Z04","Malformed or degenerate proofs and statements are rejected, never crash",
 "A verifier given a proof with missing, surplus or out-of-range elements, or a statement containing degenerate values (zero or non-invertible residues, a modulus that is even, prime or a perfect square), rejects it; it neither accepts it nor panics. Commitment parameters other than the statement of the proof about them belong to the verifier, who has had them proven.",
 ["inputs","fault_sequences"],"For all nine proof systems: every leaf of the proof replaced by every degenerate value, every list truncated, emptied, extended or duplicated, every statement component replaced by degenerate values.",
 "The tests only use well-formed proofs.",
 ZK,[("length and group membership checks","src/zk/*.rs verify"),("deserialization checks","src/paillier, src/curve")])
p("Z05","Proofs hide the witness: each response has its own full-width mask",
 "In every proof system, what an honest prover sends in response to a challenge is the witness part hidden by a random mask which (1) is as wide as the proof's security analysis demands: all of its bits are random and it reaches the whole of its interval and nothing beyond; (2) is not shared with, or determined by, the mask of another response, list entry or commitment randomizer; (3) does not depend on the witness. Otherwise two responses, or one response of known size, would reveal shares or Paillier factors.",
 ["inputs"],"For all nine proof systems: every single bit of the prover's randomness inverted, with the responses to the challenges zero (the masks) and one (the randomizers of the commitments) read from the real prover; all witnesses of an alphabet with the same randomness.",
 "Proofs with too narrow, repeated or witness dependent masks verify like any other.",
 ZK,[("masks are drawn in new()","src/zk/*.rs new: Secret*::random_in_exponent_range*, random_nonzero, Randomizer::random")])
# ---------------- paillier
p("C01","Paillier encryption is a correct additive homomorphic cryptosystem",
 "For every valid key, every plaintext of the plaintext range and every randomizer, decryption returns the plaintext that was encrypted and the recovered randomizer re-encrypts to the same ciphertext. Adding ciphertexts adds plaintexts, multiplying a ciphertext by an integer of either sign multiplies the plaintext, and adding a plaintext adds it, all modulo the key's modulus with the result in the balanced range.",
 ["inputs","configurations"],"Every plaintext and every randomizer for every small key (all pairs of small primes), and boundary values for test-size keys.",
 "The unit tests draw one random key and a few random values.",
 ["src/paillier/encryption.rs","src/paillier/keys.rs"],[("encryption and decryption","src/paillier/encryption.rs"),("precomputed key data","src/paillier/keys.rs")])
p("C02","Key material generation and import only produce usable, consistent keys",
 "Every generated RSA-type secret consists of two different primes of the requested size with the residue class the scheme needs, whatever the random generator returns, and all derived values (modulus, totient, inverses, square roots, CRT conversions, residue samples) agree with their mathematical definitions. Secret keys and setup data restored from storage give the same public values as the originals.",
 ["inputs","configurations"],"All pairs of small primes for the derived values, all residues of small moduli for the CRT maps and square roots, and enumerated random-generator outputs for generation.",
 "Tests sample single keys; the derived values are never compared with their definitions.",
 ["src/paillier/keys.rs","src/paillier/rsa.rs"],[("prime sampling","src/paillier/rsa.rs"),("SecretKeyPaillier precomputation","src/paillier/keys.rs")])
p("C03","Ring-Pedersen commitments compute the committed product exactly",
 "For every setup and all signed or unsigned exponents, a commitment equals s^a * t^b modulo the setup's modulus; products and powers of commitments correspond to sums and multiples of the committed values, and the setup's public bases are related by the setup's secret. Transferring a setup or a commitment between its wire and working forms does not change it.",
 ["inputs","configurations"],"All exponent pairs in a range around zero and all bases of small moduli; boundary exponents for test-size moduli.",
 "There are no direct tests of the commitments; proofs only exercise random exponents.",
 ["src/paillier/ring_pedersen.rs"],[("commit, commit_wide, commit_zero and friends","src/paillier/ring_pedersen.rs")])
# ---------------- ints
p("C04","Bounded signed arithmetic is exact and never loses its bound",
 "Every operation on bounded signed integers (construction, negation, absolute value, addition, subtraction, multiplication, wide multiplication, widening, conversion between secret and public forms) returns the mathematically exact result with a bound that really limits its size, or reports failure; it never wraps around silently. Construction succeeds exactly when the value fits the declared bound.",
 ["inputs"],"All operand pairs of a boundary set (around zero, powers of two, the integer's limits) with all bounds, for several integer widths; all small values exhaustively.",
 "Unit tests check a handful of pairs per operation.",
 ["src/uint/secret_signed.rs","src/uint/public_signed.rs","src/uint/secret_unsigned.rs","src/uint/traits.rs"],[("checked operations with bound tracking","src/uint/*.rs")])
p("C05","Range checks and range sampling cover exactly the documented interval",
 "An exponent-range check accepts exactly the values of the half-open interval of the scheme's definition, and the public and secret versions agree; range sampling from a random generator or from a hash only returns values of its documented interval, reaches every value of it, and is unbiased over a uniform source. Sampled residues and units are always in the range and group they are documented to be in.",
 ["inputs"],"All values around both ends of the interval for every exponent; all outputs of the random source for micro intervals.",
 "Sampling tests look at a few random draws; interval ends have negligible probability.",
 ["src/uint/secret_signed.rs","src/uint/public_signed.rs","src/uint/traits.rs","src/paillier/keys.rs","src/paillier/rsa.rs"],[("is_in_exponent_range, random_in_exponent_range(_scaled), from_xof_reader","src/uint/*.rs")])
# ---------------- curve
p("C06","Scalar, point and integer conversions are faithful homomorphisms",
 "Converting curve scalars to integers and back is the identity, converting an integer of either sign to a scalar is reduction modulo the group order, and both agree between the secret and public variants and with the integer and scalar arithmetic. Scalar and point operations agree with modular arithmetic and with the group law on generator multiples.",
 ["inputs"],"All scalars of a 16-bit curve exhaustively, boundary integers at every width, boundary scalars of the production curve.",
 "Unit tests use random scalars: the order's neighbourhood, half order and zero are never drawn.",
 ["src/params/conversion.rs","src/curve/arithmetic.rs"],[("conversions","src/params/conversion.rs"),("from_xof_reader, from_reduced_bytes","src/curve/arithmetic.rs")])
p("C07","Assembled ECDSA signatures are valid, normalised and recoverable, or refused",
 "Whenever a signature is assembled from a nonce x-coordinate and a scalar, the result verifies under the given key for the given message, has a low s, and its recovery id recovers that key; if the scalars do not form a valid signature for that key and message, no signature is returned.",
 ["inputs"],"All nonces of a 16-bit curve with boundary keys and messages; every wrong scalar of an alphabet.",
 "The unit tests sign a random message with a random key; high-s values, reduced x-coordinates and zero messages are not forced.",
 ["src/curve/ecdsa.rs"],[("RecoverableSignature::from_scalars","src/curve/ecdsa.rs")])
p("C08","Splitting a secret preserves it, and share derivation follows the key",
 "The parts of a split secret always add up to the secret, their number is the requested one, and all but one are unpredictable. Deriving a BIP32 child key from the shares gives shares of exactly the child of the group key, for every derivation path of non-hardened indices, and hardened paths are refused.",
 ["inputs","configurations"],"All numbers of parts up to a bound over boundary secrets and enumerated random draws; all derivation paths over an index alphabet up to a depth.",
 "The unit tests try one path and one random secret.",
 ["src/curve/arithmetic.rs","src/curve/bip32.rs"],[("secret_split","src/curve/arithmetic.rs"),("derive_tweak, apply_tweaks","src/curve/bip32.rs")])
# ---------------- tools
p("C09","Hash inputs are unambiguous and domain separated",
 "Two different sequences of hashed items never feed the hash with the same bytes, whatever their lengths and split points, and differently labelled hashes never coincide; hashes of scheme parameters differ whenever any parameter differs. Bit strings used for joint randomness combine by exclusive or and keep their length through storage.",
 ["inputs"],"All pairs of short item sequences over a small alphabet, all pairs of single-parameter changes of the scheme parameters, and all pairs of short bit strings.",
 "No test compares transcripts.",
 ["src/tools/hashing.rs","src/tools/bitvec.rs","src/params/traits.rs"],[("length-prefixed chaining","src/tools/hashing.rs"),("BitVec","src/tools/bitvec.rs")])
p("C10","Stored and transmitted values survive a round trip and bad encodings are refused",
 "Serializing any value and deserializing it gives the same value, in both textual and binary formats. An encoding that does not describe a legal value (out of range, wrong length, off the curve, exceeding its declared bound) is refused with an error, and never yields a value that violates the type's own rules.",
 ["inputs"],"All 16-bit scalars and points, all signed values with their bounds within small widths, every short byte string as an encoding of each of the small types, and truncations and extensions of every valid encoding.",
 "There is no round trip or negative test for most types.",
 ["src/curve/arithmetic.rs","src/uint/public_signed.rs","src/uint/public_uint.rs","src/tools/bitvec.rs","src/paillier/encryption.rs"],[("Serialize/Deserialize implementations","src/curve, src/uint, src/tools, src/paillier")])
p("C11","Secret wrappers compute the same as plain values and do not show them",
 "Arithmetic on wrapped secrets gives the same result as the same arithmetic on the bare values, in every combination of wrapped, referenced and bare operands; conditional selection picks the right operand. The debug representation of a secret, or of anything that contains one, never depends on the secret's value.",
 ["inputs"],"All pairs of boundary values for every operator and operand form, and all pairs of secret values for the debug output of every secret-bearing type.",
 "No test compares the wrapped operators with the bare ones.",
 ["src/tools/secret.rs","src/uint/secret_signed.rs","src/paillier/keys.rs"],[("Secret<T> operator impls and Debug","src/tools/secret.rs")])
p("C12","Parameter sets are accepted only if they are sound, and the shipped ones work",
 "A set of Paillier or scheme parameters declares itself self-consistent exactly if it satisfies every inequality the scheme documents (modulus of twice the prime size, integer types wide enough for what they hold, security parameter of the curve's size, ranges and slackness that leave room for the masks and for up to 2^20 parties, widths for the largest intermediate values), however narrowly. Every shipped set satisfies them, and the production sets have the sizes documented for their security level (112 and 128 bits). With the production sets every proof system proves and verifies statements at the ends of its witness ranges, with the number of repetitions the security level asks for, survives storage, and is rejected in another context; affine operations on ciphertexts give their exact plaintext.",
 ["configurations","inputs"],"All pairs of small changes of the parameters from sets that satisfy the inequalities barely, over two curves and three sets of integer types; all shipped sets; all combinations of boundary witnesses for the production sets.",
 "The tests run with one set of small parameters only; the production sets are never exercised.",
 ["src/params/traits.rs","src/params/k256.rs","src/params/dev.rs","src/paillier/params.rs","src/zk/aff_g.rs","src/zk/dec.rs","src/zk/fac.rs"],[("SELF_CONSISTENT","src/params/traits.rs, src/paillier/params.rs"),("ProductionParams112, ProductionParams128","src/params/k256.rs")])
p("K01","Secret-dependent computations take a time that does not depend on the secret",
 "The running time and memory access pattern of operations on secret shares, nonces and Paillier secrets does not depend on the values of the secrets.",
 ["inputs"],"All pairs of secret values.",
 "Functional tests do not observe time; the repository has statistical timing benches only.",
 ["src/uint/secret_signed.rs","src/tools/secret.rs","src/private_benches/secret_is_ct.rs"],[("constant-time selection and bounded exponentiation","src/uint, src/tools")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
