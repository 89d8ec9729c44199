exec(open("/verif/tools/bugs/zk1.py").read().split("bugs = [")[0])
ENC = KEYS + r'''
#[allow(dead_code)]
type W = <Q as PaillierParams>::WideUint;
'''
bugs = [
dict(id="z05-enc-elg-gamma", property="Z05",
 needs="looking at the size of a response of a proof that verifies",
 breaks="the mask of the commitment randomizer is narrower than what it has to hide",
 edits=[("src/zk/enc_elg.rs", "        let gamma = SecretSigned::random_in_exponent_range_scaled(rng, P::L_BOUND + P::EPS_BOUND, hat_cap_n);\n", "        let gamma = SecretSigned::random_in_exponent_range_scaled(rng, P::EPS_BOUND, hat_cap_n);\n")],
 demo=ENC + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let x = int(-123456);
    let rho = Randomizer::random(&mut rng, pk);
    let a = Scalar::<T>::random_nonzero(&mut rng);
    let b = Secret::init_with(|| Scalar::<T>::from(777));
    let cap_c = Ciphertext::new_with_randomizer(pk, &x, &rho);
    let cap_a = a.mul_by_generator();
    let cap_x = cap_a * &b + secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_b = Scalar::<T>::from(777u64).mul_by_generator();
    let public = EncElgPublicInputs::<T> { pk0: pk, cap_c: &cap_c, cap_a: &cap_a, cap_b: &cap_b, cap_x: &cap_x };
    let mut largest = 0;
    for _ in 0..40 {
        let proof = EncElgProof::<T>::new(&mut rng, EncElgSecretInputs { x: &x, rho: &rho, b: &b }, public, &setup, &aux);
        expect(proof.verify(public, &setup, &aux), "an honest proof", &mut bad);
        largest = largest.max(field(&value(&proof), "z3").expect("a response").deserialized::<PublicSigned<W>>().expect("a number").abs().bits_vartime());
    }
    // one of 40 masks has one of its four top bits set
    let want = T::L_BOUND + T::EPS_BOUND + 256 - 6;
    expect(largest >= want, &std::format!("the largest of 40 responses has {largest} bits, at least {want} are expected"), &mut bad);
    bad
}
'''),
dict(id="z05-aff-g-beta", property="Z05",
 needs="looking at the size of a response of a proof that verifies",
 breaks="the mask of y is as wide as the one of x, although y has more bits",
 edits=[("src/zk/aff_g.rs", "        let beta = SecretSigned::random_in_exponent_range(rng, P::LP_BOUND + P::EPS_BOUND);\n", "        let beta = SecretSigned::random_in_exponent_range(rng, P::L_BOUND + P::EPS_BOUND);\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk0 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let sk1 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let (pk0, pk1) = (sk0.public_key(), sk1.public_key());
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let (x, y) = (int(5000), int(-700_000_000));
    let (rho, rho_y) = (Randomizer::random(&mut rng, pk0), Randomizer::random(&mut rng, pk1));
    let cap_c = Ciphertext::new_with_randomizer(pk0, &int(99), &Randomizer::random(&mut rng, pk0));
    let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(pk0, &-&y, &rho);
    let cap_y = Ciphertext::new_with_randomizer(pk1, &y, &rho_y);
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let public = AffGPublicInputs::<T> { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
    let mut largest = 0;
    for _ in 0..40 {
        let proof = AffGProof::<T>::new(&mut rng, AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y }, public, &setup, &aux);
        expect(proof.verify(public, &setup, &aux), "an honest proof", &mut bad);
        largest = largest.max(field(&value(&proof), "z2").expect("a response").deserialized::<PublicSigned<U>>().expect("a number").abs().bits_vartime());
    }
    let want = T::LP_BOUND + T::EPS_BOUND - 6;
    expect(largest >= want, &std::format!("the largest of 40 responses has {largest} bits, at least {want} are expected"), &mut bad);
    bad
}
'''),
dict(id="z05-elog-shared", property="Z05",
 needs="comparing the two responses of one proof",
 breaks="the same mask is used for both secrets of a proof, so that their difference can be computed from it",
 edits=[("src/zk/elog.rs", "        let m = Secret::init_with(|| Scalar::random(rng));\n", "        let m = alpha.clone();\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let aux: &[u8] = b"aux";
    let (ys, ls) = (Scalar::<T>::random(&mut Det(1)), Scalar::<T>::random(&mut Det(2)));
    let y = Secret::init_with(|| ys);
    let lambda = Secret::init_with(|| ls);
    let h = Scalar::<T>::random(&mut rng).mul_by_generator();
    let cap_x = Scalar::<T>::random(&mut rng).mul_by_generator();
    let cap_l = lambda.mul_by_generator();
    let cap_m = y.mul_by_generator() + cap_x * &lambda;
    let cap_y = h * &y;
    let public = ElogPublicInputs::<T> { cap_l: &cap_l, cap_m: &cap_m, cap_x: &cap_x, cap_y: &cap_y, h: &h };
    let mut leaks = 0;
    for _ in 0..10 {
        let proof = ElogProof::<T>::new(&mut rng, ElogSecretInputs { y: &y, lambda: &lambda }, public, &aux);
        expect(proof.verify(public, &aux), "an honest proof", &mut bad);
        let v = value(&proof);
        let s = |n: &str| field(&v, n).expect("a response").deserialized::<Scalar<T>>().expect("a scalar");
        if s("z") - s("u") == s("e") * (ls - ys) { leaks += 1 }
    }
    expect(leaks < 5, "a proof tells the difference of its secrets", &mut bad);
    bad
}
'''),
dict(id="z05-dec-randomizer", property="Z05",
 needs="comparing the repetitions of one decryption proof",
 breaks="all repetitions mask the randomizer of the ciphertext with the same value, so that it can be computed from the proof",
 edits=[("src/zk/dec.rs", "        let (ephemerals, commitments): (Vec<_>, Vec<_>) = (0..P::SECURITY_PARAMETER)\n", "        let r = Randomizer::random(rng, public.pk0);\n        let (ephemerals, commitments): (Vec<_>, Vec<_>) = (0..P::SECURITY_PARAMETER)\n"),
        ("src/zk/dec.rs", "                let r = Randomizer::random(rng, public.pk0);\n", "                let r = r.clone();\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let (x, y) = (int(-2_000_000_000), int(31337));
    let rho = Randomizer::random(&mut rng, pk);
    let cap_k = Ciphertext::new_with_randomizer(pk, &int(99), &Randomizer::random(&mut rng, pk));
    let cap_d = Ciphertext::new_with_randomizer(pk, &y, &rho) + &cap_k * &-&x;
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_g = Scalar::<T>::from(5u64).mul_by_generator();
    let cap_s = cap_g * secret_scalar_from_signed::<T>(&y);
    let public = DecPublicInputs::<T> { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties: 2 };
    let proof = DecProof::<T>::new(&mut rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &setup, &aux);
    expect(proof.verify(public, &setup, &aux), "an honest proof", &mut bad);
    let v = value(&proof);
    let mut seen: Vec<Vec<u8>> = field(&v, "elements").unwrap().as_array().unwrap().iter().map(|e| cbor(&field(e, "nu").unwrap())).collect();
    let n = seen.len(); seen.sort(); seen.dedup();
    expect(seen.len() == n, &std::format!("{} values for {n} repetitions", seen.len()), &mut bad);
    bad
}
'''),
dict(id="z05-fac-mask", property="Z05",
 needs="looking at the size of a response of a proof that verifies",
 breaks="the second commitment randomizer of a small-factor proof is hidden by a mask no wider than itself",
 edits=[("src/zk/fac.rs", "        let y = SecretSigned::random_in_exponent_range_scaled(rng, P::L_BOUND + P::EPS_BOUND, hat_cap_n);\n", "        let y = SecretSigned::random_in_exponent_range_scaled(rng, P::L_BOUND, hat_cap_n);\n")],
 demo=ENC + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let mut largest = 0;
    for _ in 0..40 {
        let proof = FacProof::<T>::new(&mut rng, &sk, &setup, &aux);
        expect(proof.verify(sk.public_key(), &setup, &aux), "an honest proof", &mut bad);
        largest = largest.max(field(&value(&proof), "w2").expect("a response").deserialized::<PublicSigned<W>>().expect("a number").abs().bits_vartime());
    }
    let want = T::L_BOUND + T::EPS_BOUND + 256 - 6;
    expect(largest >= want, &std::format!("the largest of 40 responses has {largest} bits, at least {want} are expected"), &mut bad);
    bad
}
'''),
dict(id="s09-derived-threshold", net=True, property="S09",
 needs="a derived child share with a threshold below the number of holders, which is then reshared by a quorum",
 breaks="a derived share claims to need all holders",
 edits=[("src/entities/threshold.rs", "        Ok(Self {\n            owner: self.owner.clone(),\n            threshold: self.threshold,\n", "        Ok(Self {\n            owner: self.owner.clone(),\n            threshold: public_shares.len() as u32,\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let ids = ids_of(&[0, 1, 2]);
    let s = ThresholdKeyShare::<T, u8>::new_centralized(&mut DetRng(4), &ids, 2, None).expect("shares");
    let path: bip32::DerivationPath = "m/3".parse().expect("a path");
    let d: BTreeMap<u8, ThresholdKeyShare<T, u8>> = s.iter().map(|(i, k)| (*i, k.derive_bip32(&path).expect("a child"))).collect();
    let vk = d[&0].verifying_key().expect("a key");
    for k in d.values() { expect(k.threshold() == 2, "a child share needs as many parties as its parent", &mut bad); }
    for shares in [s, d] {
        let vk = shares[&0].verifying_key().expect("a key");
        let r = Reshare { old: shares, quorum: ids_of(&[0, 1]), new: ids_of(&[1, 2, 3]), new_threshold: 2 };
        match r.start(b"demo", BoxedFormat::Cbor, 5) {
            Ok(mut n) => {
                n.run(&mut Honest);
                if let Err(e) = finished(&r, &n) { expect(false, &e, &mut bad); continue }
                let new: BTreeMap<u8, ThresholdKeyShare<T, u8>> = results(&n, &r.new).into_iter().map(|(i, k)| (i, k.clone().expect("a share"))).collect();
                if let Err(e) = threshold_right::<T>(&new, &r.new, 2, &vk) { expect(false, &e, &mut bad); }
            }
            Err(e) => expect(false, &e, &mut bad),
        }
    }
    let _ = vk;
    bad
}
'''),
]
