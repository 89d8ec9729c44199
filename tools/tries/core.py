T = []
def t(name, path, old, new): T.append((name, "src/" + path, old, new))
# uint/traits
t("pow-signed-bound", "uint/traits.rs", "let abs_result = self.pow_bounded_exp(abs_exp.expose_secret(), exp.bound());", "let abs_result = self.pow_bounded_exp(abs_exp.expose_secret(), exp.bound().saturating_sub(1));")
t("pow-unsigned-bound", "uint/traits.rs", "self.pow_bounded_exp(exp.expose_secret(), exp.bound())", "self.pow_bounded_exp(exp.expose_secret(), exp.bound() - 1)")
t("pow-public-bound", "uint/traits.rs", "let abs_result = self.pow_bounded_exp(&abs_exp, exp.bound());", "let abs_result = self.pow_bounded_exp(&abs_exp, exp.bound() & !1);")
t("xof-mask", "uint/traits.rs", "(1 << (n_bits & 7)) - 1", "u8::MAX >> (n_bits & 7)")
t("xof-bytes", "uint/traits.rs", "let n_bytes = n_bits.div_ceil(8) as usize;", "let n_bytes = (n_bits / 8 + 1).min(T::BYTES as u32) as usize;")
t("narrow-check", "uint/traits.rs", "if value.bits_vartime() > Uint::<L>::BITS {", "if value.bits_vartime() > Uint::<L>::BITS + 1 {")
t("enc-len", "uint/traits.rs", "if bytes.len() != Self::BYTES {", "if bytes.len() < Self::BYTES {")
# rsa
t("blum-1mod4", "paillier/rsa.rs", "if prime.as_ref().first().expect(\"First Limb exists\").0 & 3 == 3 {\n            return prime;\n        }\n    }\n}\n\n/// The minimized", "if prime.as_ref().first().expect(\"First Limb exists\").0 & 1 == 1 {\n            return prime;\n        }\n    }\n}\n\n/// The minimized")
t("blum-msb", "paillier/rsa.rs", "SmallPrimesSieveFactory::<P::HalfUint>::new(P::PRIME_BITS, SetBits::TwoMsb)", "SmallPrimesSieveFactory::<P::HalfUint>::new(P::PRIME_BITS, SetBits::Msb)")
t("rp-not-safe", "paillier/rsa.rs", "Self::random_distinct(|| P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS))", "Self::random_distinct(|| random_paillier_blum_prime::<P>(rng))")
t("rp-safe-bits", "paillier/rsa.rs", "P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS))", "P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS - 1))")
t("totient-residue-modulus", "paillier/rsa.rs", "P::Uint::random_mod(rng, self.totient_nonzero().expose_secret())", "P::Uint::random_mod(rng, &NonZero::new(*self.modulus_wire().modulus()).expect(\"nz\"))")
t("residue-not-invertible", "paillier/rsa.rs", "            if r.is_invertible(&self.modulus.0) {\n                return r;\n            }\n        }\n    }\n\n    /// Returns a number", "            if !bool::from(r.is_zero()) {\n                return r;\n            }\n        }\n    }\n\n    /// Returns a number")
t("xof-residue-not-invertible", "paillier/rsa.rs", "if &r < self.modulus() && r.is_invertible(&self.modulus.0) {", "if &r < self.modulus() && !bool::from(r.is_zero()) {")
t("qr-nosquare", "paillier/rsa.rs", "            .to_montgomery(&self.monty_params_mod_n)\n            .square()", "            .to_montgomery(&self.monty_params_mod_n)")
t("totient-lcm", "paillier/rsa.rs", "let totient = Secret::init_with(|| p_minus_one.mul_wide(&q_minus_one));", "let totient = Secret::init_with(|| p_minus_one.mul_wide(&q_minus_one).wrapping_shr_vartime(1));")
t("p-signed-bound", "paillier/rsa.rs", "SecretSigned::new_positive(self.p(), P::PRIME_BITS).expect", "SecretSigned::new_positive(self.p(), P::PRIME_BITS + 1).expect")
# keys
t("nonsq-nosign", "paillier/keys.rs", "let b = Choice::from(rng.next_u32() as u8 & 1);", "let b = Choice::from((rng.next_u32() & 0x100 == 0x300) as u8);")
t("nonsq-jacobi1", "paillier/keys.rs", "let t = (&inv_p_mod_q + &inv_p_mod_q - one).retrieve();", "let t = (&inv_p_mod_q - one).retrieve();")
t("sqrt-power-bits", "paillier/keys.rs", "P::PRIME_BITS - 1);", "P::PRIME_BITS - 3);")
t("sqrt-nocheck", "paillier/keys.rs", "if candidate.square() == *x {", "if candidate.square() == *x || candidate.square() == -x.clone() {")
t("sqrt-part-q", "paillier/keys.rs", "let q_res = self.sqrt_part(q_part, self.primes.q_half());", "let q_res = self.sqrt_part(q_part, self.primes.p_half());")
# ring_pedersen
t("lambda-range", "paillier/ring_pedersen.rs", "            NonZero::new(primes.totient().expose_secret().wrapping_shr_vartime(2))\n                .expect(\"totient / 4 is still non-zero because p, q >= 5\")\n        });", "            NonZero::new(primes.totient().expose_secret().wrapping_shr_vartime(64))\n                .expect(\"totient / 4 is still non-zero because p, q >= 5\")\n        });")
t("rp-base-swap", "paillier/ring_pedersen.rs", "let base_value = base_randomizer.pow(&secret.lambda); // $s$", "let base_value = modulus.random_quadratic_residue(rng); // $s$")
t("rp-wire-swap", "paillier/ring_pedersen.rs", "            base_randomizer: self.base_randomizer.retrieve().into(),\n            base_value: self.base_value.retrieve().into(),", "            base_randomizer: self.base_value.retrieve().into(),\n            base_value: self.base_randomizer.retrieve().into(),")
# encryption
t("enc-noneg-public", "paillier/encryption.rs", "        if plaintext_is_negative {\n            prod_mod = -prod_mod;\n        }", "")
t("decrypt-nosign", "paillier/encryption.rs", "SecretSigned::new_modulo(positive_result, &pk.modulus_nonzero(), P::MODULUS_BITS)", "SecretSigned::new_modulo(positive_result, &NonZero::new(pk.modulus_nonzero().as_ref().wrapping_add(&P::Uint::one())).expect(\"nz\"), P::MODULUS_BITS)")
t("mask-noexp", "paillier/encryption.rs", "(self.randomizer_mod.pow(exponent) * &coeff.randomizer_mod)", "(coeff.randomizer_mod.pow(exponent) * &self.randomizer_mod)")
t("add-other-key", "paillier/encryption.rs", "    fn homomorphic_add(self, rhs: &Self) -> Self {\n        assert!(self.pk == rhs.pk);", "    fn homomorphic_add(self, rhs: &Self) -> Self {")
# signed
t("add-public-bound", "uint/secret_signed.rs", "let bound = core::cmp::max(self.bound, rhs.bound()) + 1;\n        let in_range = bound.ct_lt(&T::BITS);\n        let result = Self {\n            bound,\n            value: Secret::init_with(|| self.value.expose_secret().wrapping_add(rhs.value())),", "let bound = self.bound + 1;\n        let in_range = bound.ct_lt(&T::BITS);\n        let result = Self {\n            bound,\n            value: Secret::init_with(|| self.value.expose_secret().wrapping_add(rhs.value())),")
t("sub-bound", "uint/secret_signed.rs", "fn checked_sub(&self, rhs: &SecretSigned<T>) -> CtOption<Self> {\n        let bound = core::cmp::max(self.bound, rhs.bound()) + 1;", "fn checked_sub(&self, rhs: &SecretSigned<T>) -> CtOption<Self> {\n        let bound = core::cmp::max(self.bound, rhs.bound());")
t("range-shift", "uint/secret_signed.rs", "            .checked_sub(&T::one())\n            .expect(\"does not overflow because of the assertions above\");\n        let positive_result = Secret::init_with(|| T::random_mod(rng, &positive_bound));", "            .checked_sub(&T::zero())\n            .expect(\"does not overflow because of the assertions above\");\n        let positive_result = Secret::init_with(|| T::random_mod(rng, &positive_bound));")
t("range-half", "uint/secret_signed.rs", "                .overflowing_shl_vartime(exp)\n                .expect(\"does not overflow because of the assertions above\"),", "                .overflowing_shl_vartime(exp)\n                .expect(\"does not overflow because of the assertions above\")\n                .wrapping_sub(&T::one()),")
t("scaled-bound", "uint/secret_signed.rs", "SecretSigned::new_from_unsigned_unchecked(value, exp + scale.bits_vartime())", "SecretSigned::new_from_unsigned_unchecked(value, exp + scale.bits_vartime() - 1)")
t("scaled-shift", "uint/secret_signed.rs", "            .checked_sub(&XW::one())", "            .checked_sub(&XW::zero())")
t("abs-nosign", "uint/secret_signed.rs", "            self.is_negative() ^ Choice::from(rhs.is_negative() as u8),", "            self.is_negative() | Choice::from(rhs.is_negative() as u8),")
t("ensure-bound", "uint/secret_signed.rs", "                bound: exp + 1,", "                bound: exp - 1,")
t("to-wide-nosign", "uint/public_signed.rs", "PublicSigned::new_from_abs(abs_result, self.bound, self.is_negative())", "PublicSigned::new_from_abs(abs_result, self.bound, false)")
t("packed-trunc", "uint/public_signed.rs", "        if repr_len < bytes_len {", "        if false && repr_len < bytes_len {")
t("range-high-neg", "uint/public_signed.rs", "let is_high_end = (abs == T::one() << (exp - 1)) && !self.is_negative();", "let is_high_end = abs == T::one() << (exp - 1);")
# conversion
t("scalar-wide-order", "params/conversion.rs", "let r = *value % curve_order_wide_uint::<P>();", "let r = *value % NonZero::new(curve_order_wide_uint::<P>().as_ref().wrapping_add(&<P::Paillier as PaillierParams>::WideUint::one())).expect(\"nz\");")
t("signed-scalar-positive", "params/conversion.rs", "    SecretSigned::new_modulo(\n        secret_uint_from_scalar::<P>(value),\n        &curve_order_uint::<P>(),\n        <<P::Curve as CurveArithmetic>::Scalar as PrimeField>::NUM_BITS,\n    )", "    SecretSigned::new_positive(\n        secret_uint_from_scalar::<P>(value),\n        <<P::Curve as CurveArithmetic>::Scalar as PrimeField>::NUM_BITS,\n    )")
# curve
t("xof-scalar-half", "curve/arithmetic.rs", "let wide_uint = uint_hi.concat(&uint_lo);", "let wide_uint = <P::Curve as Curve>::Uint::ZERO.concat(&uint_lo);")
t("chain-no-generator", "curve/arithmetic.rs", "digest.chain::<&[u8]>(&generator_bytes.as_bytes())", "{ let _ = generator_bytes; digest }")
t("chain-order-first-limb", "curve/arithmetic.rs", "for limb in limbs {", "for limb in limbs.iter().take(1) {")
t("split-last", "curve/arithmetic.rs", "parts.push(scalar - partial_sum);", "parts.push(scalar + partial_sum);")
t("split-first-twice", "curve/arithmetic.rs", "        .map(|_| Secret::init_with(|| Scalar::random_nonzero(rng)))\n        .collect::<Vec<_>>();\n    let partial_sum", "        .map({ let fixed = Scalar::random_nonzero(rng); move |_| Secret::init_with(|| fixed) })\n        .collect::<Vec<_>>();\n    let partial_sum")
t("split-const", "curve/arithmetic.rs", ".map(|_| Secret::init_with(|| Scalar::random_nonzero(rng)))\n        .collect::<Vec<_>>();\n    let partial_sum", ".map(|i| Secret::init_with(|| Scalar::from(i as u64 + 1)))\n        .collect::<Vec<_>>();\n    let partial_sum")
t("tweak-chaincode", "curve/bip32.rs", "        chain_code = new_chain_code;\n", "        let _ = new_chain_code;\n")
t("tweak-pk-stale", "curve/bip32.rs", "        public_key = public_key.derive_child(tweak)?;\n        tweaks.push(tweak);", "        tweaks.push(tweak);")
t("tweak-cc-nopk", "curve/bip32.rs", "        .chain_update(pubkey_bytes)\n", "        .chain_update(&pubkey_bytes[..1])\n")
# hashing
t("hash-dst-raw", "tools/hashing.rs", "Self::new().chain_bytes(dst)", "Self::new().chain_raw_bytes(dst)")
t("hash-len-u8", "tools/hashing.rs", "let len = (bytes.as_ref().len() as u64).to_be_bytes();", "let len = (bytes.as_ref().len() as u16).to_be_bytes();")
t("hash-len-half", "tools/hashing.rs", "(security_bits * 2).div_ceil(8)", "security_bits.div_ceil(8)")
t("params-nol", "params/traits.rs", "        .chain_bytes(&P::LP_BOUND.to_be_bytes())\n", "")
t("params-paillier", "params/traits.rs", "let digest = chain_paillier_params::<P::Paillier, _>(digest);\n", "")
t("paillier-params-chain", "paillier/params.rs", "digest.chain_bytes(&P::PRIME_BITS.to_be_bytes())", "digest.chain_bytes(&P::PRIME_BITS.to_be_bytes()[2..3])")
# bitvec
t("bits-order", "tools/bitvec.rs", "            let bit_mask = 1 << (7 - (i % 8));\n            bit_vec.push", "            let bit_mask = 1 << (i % 8);\n            bit_vec.push")
t("bits-xor-or", "tools/bitvec.rs", "*lhs ^= rhs", "*lhs |= rhs")
t("bits-check", "tools/bitvec.rs", "source.bits.div_ceil(8) as usize > source.byte_vec.len()", "(source.bits / 8) as usize > source.byte_vec.len()")
# sss
t("poly-degree", "tools/sss.rs", "for _ in 1..degree {", "for _ in 2..degree {")
t("poly-same-coeff", "tools/sss.rs", "        for _ in 1..degree {\n            coeffs.push(Secret::init_with(|| Scalar::random_nonzero(rng)));", "        let c = Scalar::random_nonzero(rng);\n        for _ in 1..degree {\n            coeffs.push(Secret::init_with(|| c));")
t("interp-sign", "tools/sss.rs", "id.0 * (id.0 - share_id.0)", "id.0 * (share_id.0 - id.0)")
t("points-zero", "tools/sss.rs", "(1..=u64::try_from(num_shares)", "(0..u64::try_from(num_shares)")
# entities
t("update-owner", "entities/full.rs", "        if self.owner != change.owner {", "        if false && self.owner != change.owner {")
t("update-number", "entities/full.rs", "if self.public.0.len() != change.public_share_changes.len() {", "if self.public.0.len() > change.public_share_changes.len() {")
t("subset-len", "entities/full.rs", "if aux_infos.len() != parties.len() {", "if aux_infos.is_empty() {")
t("subset-owner", "entities/full.rs", "if !parties.contains(&self.owner) {", "if parties.is_empty() {")
t("newshare-zero", "entities/full.rs", "if public_shares.values().sum::<Point<P>>() == Point::identity() {", "if public_shares.is_empty() {")
t("central-random", "entities/full.rs", "Some(sk) => Scalar::from(sk.as_nonzero_scalar()),", "Some(sk) => { let _ = sk; Scalar::random(rng) }")
t("central-rp-shared", "entities/full.rs", "rp_params: RPParams::random(rng).to_wire(),", "rp_params: RPParams::random_with_secret(rng, &shared).to_wire(),")
TRIES = T
