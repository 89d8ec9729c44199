#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
NOTE = {
 "C01": ("exhaustive enumeration of keys, plaintexts, randomizers and homomorphic operation sequences on the real code (micro keys completely, larger keys over boundary alphabets), against a big-integer reference model", "all micro keys of the stated prime sizes; larger keys only on boundary plaintexts; trusts crypto-bigint"),
 "C02": ("exhaustive enumeration of all micro prime pairs and all their residues on the real code against definitions; key generation explored over faults of the random source (chosen first word, starting over after every one of its calls)", "derived values complete for primes below 256; generation over a fixed set of streams with every single repetition fault"),
 "C03": ("exhaustive enumeration of setups, bases, exponents and exponent forms on the real code against a big-integer reference model", "complete for micro moduli and small exponents, boundary exponents for 256-bit (thorough: 2048-bit) setups"),
 "C04": ("exhaustive enumeration of operand and operation-sequence alphabets on the real code, against a big-integer reference model", "every pair of boundary values and bounds within the stated widths; values outside the boundary alphabet are not covered; trusts crypto-bigint"),
 "C05": ("exhaustive enumeration of every source tape of the samplers for small bounds, and of boundary values of the range checks, on the real code", "complete censuses for small intervals, boundary values for production widths"),
 "C06": ("exhaustive enumeration over all scalars of a 16-bit curve and boundary alphabets of 32- and 256-bit curves, on the real code, against an independent model of the curve", "complete for the 16-bit curve's conversions; products of boundary values elsewhere"),
 "C07": ("exhaustive enumeration of nonces, keys, messages and recovery cases on the real code of a 16-bit curve, boundary alphabet on secp256k1", "complete over the stated alphabets; trusts the ecdsa crate's verification"),
 "C10": ("exhaustive enumeration of the values of the small types and of an alphabet of structural and numeric mutations of every leaf of every encoding, on the real code through two formats (serde_json and CBOR)", "complete for the 16-bit curve's scalars and points and for short byte strings; mutation alphabet elsewhere"),
 "C11": ("exhaustive enumeration of operand pairs and operand forms of the secret wrappers on the real code against bare arithmetic, and of all pairs of secret values for the debug output of every secret-bearing type", "complete over the stated alphabets; leaks through drop or timing are out of scope"),
 "C08": ("exhaustive enumeration of part counts, boundary secrets and random streams of the splitting, and of all derivation paths over an index alphabet up to a depth with all quorums, on the real code against an independent BIP32 model", "paths up to depth 2 (thorough: 3); trusts curve arithmetic and SHA-256"),
 "C09": ("exhaustive enumeration of item sequences up to a depth on the real hashing code with a digest that records its input: all recorded transcripts of a family are pairwise different; complete censuses of short bit strings", "all sequences of up to three items over the stated alphabets; the hash function is treated as collision free"),
 "Z01": ("exhaustive enumeration of witnesses (range ends, signs), challenges (all of a small challenge space, boundary ones otherwise, through a programmable random oracle) and keys, on the real provers and verifiers of all nine systems; the Mod proof for every residue of every small Blum modulus", "test-size parameters; boundary witnesses; randomness from fixed streams"),
 "Z02": ("exhaustive enumeration of all single and pairwise violations of verification conditions, in simulated proofs that satisfy the remaining conditions for a chosen challenge, on the real verifiers, against a relation-level reference verifier on big integers", "one or two simultaneous violations from the stated alphabets, all challenges of the small space"),
 "Z03": ("exhaustive enumeration of replacements of every statement component, context and proof field on the real verifiers, and of all pairs of recorded hash transcripts", "single replacements and all mixtures of two statements over the stated alphabet; the hash is treated as collision free"),
 "Z04": ("exhaustive enumeration of combinations of list shapes, of degenerate values (up to two, thorough: three at once), of degenerate moduli and of malformed encodings, on the real verifiers, against the reference verifier", "complete over the stated alphabets"),
 "Z05": ("exhaustive enumeration of inversions of every single bit of the prover's randomness and of witnesses over an alphabet, on the real provers of all nine systems with a programmable random oracle (the responses to the challenges 0 and 1 are the masks), against the definition of the masks' intervals", "test-size parameters; one (thorough: six) base streams; the prover's source is taken for uniform words"),
 "C12": ("exhaustive enumeration of parameter sets in a grid around the boundary of the documented inequalities, as types of the real code, against the inequalities; all combinations of boundary witnesses of the nine proof systems with the production sets", "grid of up to two simultaneous changes; proofs of many repetitions with the larger set only in the thorough tier; setups of known discrete logarithm, no Prm proof with production sizes"),
 "S01": ("exhaustive enumeration of delivery orders (all permutations at up to two nodes and rounds), sets of parties, origins of shares (dealt, generated, refreshed, quorum, reshared, derived), boundary keys and messages, session sequences and random streams, on the real rounds of the signing protocol over a shim of the session layer, against an independent model of a 16-bit curve", "two to four parties, thousands of fixed random streams on the 16-bit curve; trusts the shim of manul for the session layer"),
 "S02": ("exhaustive enumeration of delivery orders (all permutations at all nodes and rounds for three parties, up to three reorderings for four), sets of up to six parties, formats and random streams, on the real rounds of key generation", "fixed random streams; trusts the shim of manul for the session layer"),
 "S03": ("exhaustive enumeration of histories (key generation or dealing followed by up to three refreshes), delivery orders, sets of parties and mismatched uses of share changes, on the real rounds of refresh and auxiliary generation", "two to four parties, fixed random streams; test-size moduli; trusts the shim of manul for the session layer"),
 "S04": ("exhaustive enumeration of all thresholds, quorums, old and new groups, delivery orders, chains of resharings, and of changes to every field of a deviating old holder's messages or of its inputs, on the real code", "groups of up to four (resharing) and six (quorums) parties; fixed random streams"),
 "S05": ("exhaustive enumeration of single deviations: every leaf, field and sequence of every message of every round is replaced by every value of a mutation alphabet (and parties run with other inputs), on the real rounds; results of the honest parties are checked, and every accusation is judged by the real evidence verification with only what a third party gets", "one deviating party of three, one change per run; known findings listed; trusts the shim of manul for the session layer"),
 "S06": ("exhaustive enumeration of accusations: every error kind with every choice of its parameters, against every party and round of honest transcripts, and of transcripts in which another party deviates by each change of an alphabet, judged by the real evidence verification", "transcripts of three parties, fixed streams; known findings listed; trusts the shim of manul for the session layer"),
 "S07": ("exhaustive enumeration of malformed and degenerate versions of every part of every message of every round of all five protocols, given to the real rounds and to the real evidence verification with every accusation", "one malformed message per run; known findings listed; trusts the shim of manul for the session layer"),
 "S08": ("exhaustive enumeration of replays of every message part and entry from runs that differ in one thing only (shared randomness, participants, key, auxiliary data, sender, protocol), on the real rounds", "two or three parties; the entries that must depend on the context are found by comparing runs; trusts the shim of manul for the session layer"),
 "S09": ("explicit-state exploration of all histories of key operations up to a depth on the real code (generation, refresh, auxiliary data, storing, conversions, derivation, resharing), with every quorum signing in the reached states, and of all assignments of epochs to parties", "depth 3 (thorough: 5), up to four holders, test-size parameters; trusts the shim of manul for the session layer"),
 "S10": ("exhaustive enumeration of changes to single random numbers: in runs of the real protocols every random number of every party is changed in turn and all pairs of values sent are compared for differences and quotients that stay the same; complete comparison of all values over a set of streams, and of all secrets with all values", "every random number of one stream (thorough: more), dozens (thorough: hundreds) of streams for freshness; linear relations between two values only; trusts the shim of manul for the session layer"),
}
NA = [
 {"property": "K01", "reason": "timing is not a state or behaviour that an explorer of executions can observe: deciding it needs an information-flow analysis or statistics over measured times, which is another family of technique"},
]
checks = [dict(property=k, quick_cmd=f"./check.sh {k} --tier quick", thorough_cmd=f"./check.sh {k} --tier thorough",
               technique=v[0], level="model_checking", level_note=v[1]) for k, v in NOTE.items()]
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
for i in ids:
    if i not in NOTE and not any(n["property"] == i for n in NA):
        NA.append({"property": i, "reason": "the check for this property is not finished yet"})
m = dict(version=1, setup_cmd="python3 mk.py core full",
         hooks=dict(guard="cfg(synedrion_verif), set with RUSTFLAGS=--cfg synedrion_verif; the variable SYNEDRION_VERIF_SRC names the harness source to include", enable="RUSTFLAGS='--cfg synedrion_verif' SYNEDRION_VERIF_SRC=/verif/harness/<id>.rs cargo build in the views that mk.py generates (check.sh does all this)", source_commits=["b5b6101"]),
         checks=checks, not_applicable=NA)
json.dump(m, open("MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
