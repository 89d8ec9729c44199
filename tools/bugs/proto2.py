S = "src/protocols/interactive_signing.rs"; I = "src/protocols/key_init.rs"; R = "src/protocols/key_refresh.rs"; H = "src/protocols/key_resharing.rs"; TH = "src/entities/threshold.rs"; F = "src/entities/full.rs"; SSS = "src/tools/sss.rs"
# what the demonstrations look at
LOOK = r'''
fn tree_of(b: &Option<Vec<u8>>) -> tree::Value { tree::from_cbor(b.as_ref().expect("sent")).expect("cbor") }
fn run<S: Scen>(s: &S, seed: u64) -> Net<S::Pr> { let mut n = s.start(b"session", BoxedFormat::Cbor, seed).expect("start"); n.run(&mut Honest); finished(s, &n).expect("the run"); n }
fn all(v: &tree::Value, class: &str) -> Vec<Vec<u8>> { tree::leaves(v).into_iter().filter(|p| tree::class(v, p) == class).filter_map(|p| tree::bytes(tree::get(v, &p)).cloned()).collect() }
fn num(b: &[u8]) -> Nat { Nat::from_be(b) }
fn scalar(b: &[u8]) -> crate::curve::Scalar<T> { tree::from_tree(&tree::Value::Bytes(b.to_vec())).expect("a scalar") }
fn point(b: &[u8]) -> crate::curve::Point<T> { tree::from_tree(&tree::Value::Bytes(b.to_vec())).expect("a point") }
'''
ONE = "        let mut reader = Hasher::<P::Digest>::new_with_dst(b\"KeyRefresh Round3\")\n            .chain(&self.context.sid)\n            .chain(&self.rid_combined)\n"
EV = "                let mut reader = Hasher::<P::Digest>::new_with_dst(b\"KeyRefresh Round3\")\n                    .chain(&sid)\n                    .chain(&rid)\n"
bugs = [
dict(id="s10-mask-both-ways", net=True, property="S10",
 needs="two parties that send each other changes of their shares during a refresh (three cooperating places)",
 breaks="the mask of what one party sends the other is the one of what it gets back, so everybody can tell the difference of the two",
 edits=[(R, ONE + "            .chain(my_id)\n", ONE + "            .chain(my_id.min(destination))\n"),
        (R, ONE + "            .chain(from)\n", ONE + "            .chain(my_id.min(from))\n"),
        (R, EV + "                    .chain(guilty_party)\n", EV + "                    .chain(guilty_party.min(reported_by))\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let n = run(&Refresh::<T>::of(&[0, 1, 2]), 3);
    let c = |from: u8, to: u8| scalar(&all(&tree_of(&n.hist[&(3, from)].dms[&to].0), ".cap_c")[0]);
    let x = |from: u8, to: u8| point(&all(&tree_of(&n.hist[&(2, from)].nb.0), ".cap_xs[][]")[to as usize]);
    for (i, j) in [(0, 1), (0, 2), (1, 2)] { expect((c(i, j) + -c(j, i)).mul_by_generator() + x(j, i) != x(i, j), "the changes two parties send each other are masked independently", &mut bad); }
    bad
}
'''),
dict(id="s10-mask-public", net=True, property="S10",
 needs="a refresh whose messages are compared with the keys they were masked with (three cooperating places)",
 breaks="the change of a share is masked with a hash of the recipient's public value instead of the shared one, so everybody can take the mask off",
 edits=[(R, "            .chain(my_id)\n            .chain(&(cap_y * y))\n", "            .chain(my_id)\n            .chain(cap_y)\n"),
        (R, "        let y = self.context.ys.safe_get(\"Elgamal secrets\", destination)?;\n", ""),
        (R, "            .chain(from)\n            .chain(&(cap_y * y))\n", "            .chain(from)\n            .chain(&y.mul_by_generator())\n"),
        (R, "        let cap_y = r2_payload.cap_ys.safe_get(\"Elgamal public keys\", my_id)?;\n        let y = self.context.ys.safe_get(\"Elgamal secrets\", from)?;\n", "        let y = self.context.ys.safe_get(\"Elgamal secrets\", from)?;\n"),
        (R, "                    .chain(guilty_party)\n                    .chain(&(cap_y_ji * y))\n", "                    .chain(guilty_party)\n                    .chain(cap_y_ij)\n"),
        (R, "                let cap_y_ji = r2_eb.cap_ys.try_get(\"public Elgamal values\", reported_by)?;\n", "                let _ = r2_eb.cap_ys.try_get(\"public Elgamal values\", reported_by)?;\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let s = Refresh::<T>::of(&[0, 1]);
    let a = run(&s, 3);
    let y = |n: &Net<KeyRefreshProtocol<T, u8>>| all(&tree_of(&n.hist[&(2, 0)].eb.0), ".cap_ys[][]")[1].clone();
    let c = |n: &Net<KeyRefreshProtocol<T, u8>>, from: u8, to: u8| all(&tree_of(&n.hist[&(3, from)].dms[&to].0), ".cap_c")[0].clone();
    let mut found = 0;
    for at in 0..a.nodes[&0].rng.1 {
        let b = with_change(Some((0, at, 1 << 14)), || run(&s, 3));
        if y(&b) == y(&a) { continue }
        found += 1;
        for (i, j) in [(0, 1), (1, 0)] { expect(c(&a, i, j) != c(&b, i, j), "what masks a change depends on both parties' keys", &mut bad); }
    }
    expect(found > 0, "the key of a party is changed", &mut bad);
    bad
}
'''),
dict(id="s10-short-mask", net=True, property="S10",
 needs="signing, with a look at the masks of the products with the key shares",
 breaks="the masks of the products with the key shares are no longer than a scalar, so that the products shine through",
 edits=[(S, "        let hat_betas = self\n            .context\n            .other_ids\n            .iter()\n            .map(|id| (id.clone(), SecretSigned::random_in_exponent_range(rng, P::LP_BOUND)))\n", "        let hat_betas = self\n            .context\n            .other_ids\n            .iter()\n            .map(|id| (id.clone(), SecretSigned::random_in_exponent_range(rng, P::L_BOUND + P::EPS_BOUND)))\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let s = Sign::<T>::of(&[0, 1], 1, Default::default());
    let n = run(&s, 3);
    let sk = s.aux[&0].secret.paillier_sk.clone().into_precomputed();
    for name in [".cap_fs[][].ciphertext", ".hat_cap_fs[][].ciphertext"] {
        let f = &all(&tree_of(&n.hist[&(2, 0)].eb.0), name)[0];
        let m = sk.public_key().modulus().nat(); let m2 = m.mul(&m);
        let phi = sk.totient_wide_unsigned().expose_secret().nat();
        let p = balanced(&num(f).powmod(&phi, &m2).sub(&Nat::one()).divrem(&m).0.mul(&phi.inv(&m).expect("invertible")).rem(&m), &m);
        expect(p.abs.bits() > <T as SchemeParams>::LP_BOUND - 20, "a mask is as wide as it has to be", &mut bad);
    }
    bad
}
'''),
dict(id="s10-same-randomizers", net=True, property="S10",
 needs="signing, with a look at two ciphertexts made for the same party",
 breaks="the two masks for a party are encrypted with the same randomizer, so that everybody can compare them",
 edits=[(S, "        let hat_rs = self\n            .context\n            .other_ids\n            .iter()\n            .map(|id| (id.clone(), Randomizer::random(rng, pk)))\n            .collect::<BTreeMap<_, _>>();\n", "        let hat_rs = rs.clone();\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let s = Sign::<T>::of(&[0, 1, 2], 1, Default::default());
    let n = run(&s, 3);
    for i in [0u8, 1, 2] {
        let m = s.aux[&i].secret.paillier_sk.clone().into_precomputed().public_key().modulus().nat();
        let t = tree_of(&n.hist[&(2, i)].eb.0);
        let f: Vec<Nat> = [".cap_fs[][].ciphertext", ".hat_cap_fs[][].ciphertext"].iter().flat_map(|c| all(&t, c)).map(|b| num(&b).rem(&m)).collect();
        for a in 0..f.len() { for b in 0..a { expect(f[a] != f[b], "ciphertexts have randomizers of their own", &mut bad); } }
    }
    bad
}
'''),
dict(id="s10-one-elgamal-key", net=True, property="S10",
 needs="signing, with a look at the two ElGamal commitments of a party",
 breaks="both commitments are made with the same randomness, so that everybody learns the difference of what is committed to",
 edits=[(S, "        let b = Secret::init_with(|| Scalar::random(rng));\n", "        let b = a.clone();\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let n = run(&Sign::<T>::of(&[0, 1], 1, Default::default()), 3);
    for i in [0u8, 1] { let t = tree_of(&n.hist[&(1, i)].eb.0); expect(all(&t, ".cap_a1") != all(&t, ".cap_b1"), "the two commitments are independent", &mut bad); }
    bad
}
'''),
dict(id="s10-one-schnorr-secret", net=True, property="S10",
 needs="a refresh with at least two parties, with a look at the commitments of its Schnorr proofs",
 breaks="all the Schnorr proofs of a party have the same secret, so that the changes of the shares follow from their differences",
 edits=[(R, "        let taus = self\n            .all_ids\n            .iter()\n            .map(|id| (id.clone(), SchSecret::random(rng)))\n            .collect::<BTreeMap<_, _>>();\n", "        let tau = SchSecret::random(rng);\n        let taus = self\n            .all_ids\n            .iter()\n            .map(|id| (id.clone(), tau.clone()))\n            .collect::<BTreeMap<_, _>>();\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let n = run(&Refresh::<T>::of(&[0, 1, 2]), 3);
    for i in [0u8, 1, 2] { let a = all(&tree_of(&n.hist[&(2, i)].nb.0), ".cap_as[][]"); expect(a.len() == 3 && a[0] != a[1] && a[1] != a[2] && a[0] != a[2], "proofs have secrets of their own", &mut bad); }
    bad
}
'''),
dict(id="s10-flat-polynomial", net=True, property="S10",
 needs="a threshold of at least three",
 breaks="the coefficients of a polynomial are all the same, so that two shares are enough for any threshold",
 edits=[(SSS, "        for _ in 1..degree {\n            coeffs.push(Secret::init_with(|| Scalar::random_nonzero(rng)));\n        }\n", "        let coeff = Secret::init_with(|| Scalar::random_nonzero(rng));\n        coeffs.resize(degree, coeff);\n")],
 demo=LOOK + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let old = ThresholdKeyShare::<T, u8>::new_centralized(&mut DetRng(4), &ids_of(&[0, 1]), 2, None).expect("shares");
    let s = Reshare { old, quorum: ids_of(&[0, 1]), new: ids_of(&[1, 2, 3]), new_threshold: 3 };
    let n = run(&s, 3);
    let p = all(&tree_of(&n.hist[&(1, 0)].eb.0), ".public_polynomial[]");
    expect(p.len() == 3 && p[1] != p[2], "the coefficients are independent", &mut bad);
    bad
}
'''),
]
