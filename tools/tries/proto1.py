T = []
def t(name, path, old, new, nth=0): T.append((name, "src/protocols/" + path, old, new) if not nth else (name, "src/protocols/" + path, old, new, nth))
KI, AG, KR, RS = "key_init.rs", "aux_gen.rs", "key_refresh.rs", "key_resharing.rs"
DATA = {KI: ["id", "&self.cap_x", "&self.cap_a", "&self.rho", "&self.u", "sid"],
        AG: ["id", "&self.paillier_pk.clone().into_wire()", "&self.rp_params.to_wire()", "&self.psi", "&self.rid", "&self.u", "sid"],
        KR: ["id", "&self.cap_xs", "&self.cap_ys", "&self.cap_as", "&self.paillier_pk.clone().into_wire()", "&self.rp_params.to_wire()", "&self.psi", "&self.rid", "&self.u", "sid"]}
for f, items in DATA.items():
    for i in items:
        t(f"{f[:-3]}-unhash-{i.strip('&').split('.')[-1] if '()' not in i else i.split('.')[1].split('(')[0]}", f, f"            .chain({i})\n", "")
def skip(name, f, cond, err):  # a dropped check (the condition at the receiver)
    t(name, f, f"        if {cond} {{\n            return Err(ReceiveError::protocol({err}))", f"        if false && {cond} {{\n            return Err(ReceiveError::protocol({err}))")
for f in (KI, AG, KR):
    skip(f"{f[:-3]}-nohash", f, "&data.hash(&self.context.sid, from) != cap_v", "Error::R2HashMismatch.into()")
    b = "rho" if f == KI else "rid"
    c = f"data.{b}.num_bits() != P::SECURITY_PARAMETER || data.u.num_bits() != P::SECURITY_PARAMETER"
    t(f"{f[:-3]}-no-u-length", f, c, f"data.{b}.num_bits() != P::SECURITY_PARAMETER")
    t(f"{f[:-3]}-no-{b}-length", f, c, "data.u.num_bits() != P::SECURITY_PARAMETER")
    t(f"{f[:-3]}-short-u", f, c, f"data.{b}.num_bits() != P::SECURITY_PARAMETER || data.u.num_bits() > P::SECURITY_PARAMETER")
    e = f"r2_eb.{b}.num_bits() != P::SECURITY_PARAMETER || r2_nb.u.num_bits() != P::SECURITY_PARAMETER"
    t(f"{f[:-3]}-evidence-no-u-length", f, e, f"r2_eb.{b}.num_bits() != P::SECURITY_PARAMETER")
    t(f"{f[:-3]}-evidence-and", f, e, e.replace("||", "&&"))
    t(f"{f[:-3]}-evidence-hash-eq", f, "verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)", "verify_that(data.hash(&sid, guilty_party) == r1_eb.cap_v || data.u.num_bits() > 0)")
for f in (AG, KR):
    for k, n in (("paillier_pk", "Paillier"), ("rp_params", "RP")):
        c = f"data.{k}.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2"
        t(f"{f[:-3]}-{k}-no-size", f, f"if {c}", f"if false && {c}")
        t(f"{f[:-3]}-{k}-half-size", f, c, c.replace("MODULUS_BITS - 2", "MODULUS_BITS / 2"))
        t(f"{f[:-3]}-{k}-minus-3", f, c, c.replace("MODULUS_BITS - 2", "MODULUS_BITS - 3"))
        t(f"{f[:-3]}-{k}-strict", f, c, c.replace("MODULUS_BITS - 2", "MODULUS_BITS - 1"))
        w = ("r2_nb" if k == "paillier_pk" else "r2_eb")
        e = f"{w}.{k}.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2"
        t(f"{f[:-3]}-{k}-evidence-size", f, e, e.replace("MODULUS_BITS - 2", "MODULUS_BITS - 3"))
        t(f"{f[:-3]}-{k}-evidence-lenient", f, e, e.replace("MODULUS_BITS - 2", "MODULUS_BITS + 1"))
    t(f"{f[:-3]}-no-prm", f, "if !data.psi.verify(&data.rp_params, &aux) {", "if false && !data.psi.verify(&data.rp_params, &aux) {")
    t(f"{f[:-3]}-no-mod", f, "if !normal_broadcast.psi_prime.verify(&r2_payload.paillier_pk, &aux) {", "if false && !normal_broadcast.psi_prime.verify(&r2_payload.paillier_pk, &aux) {")
    t(f"{f[:-3]}-no-fac", f, "        if !direct_message\n            .psi", "        if false && !direct_message\n            .psi")
    t(f"{f[:-3]}-fac-reported-by", f, "                Error::R3FacFailed {\n                    reported_by: my_id.clone(),", "                Error::R3FacFailed {\n                    reported_by: from.clone(),")
    t(f"{f[:-3]}-fac-any", f, "                    .all(|rp_params| !r3_dm", "                    .any(|rp_params| !r3_dm")
    t(f"{f[:-3]}-rid-own-only", f, "        for payload in payloads.values() {\n            rid_combined ^= &payload.rid;\n        }\n", "        for payload in payloads.values().take(1) {\n            rid_combined ^= &payload.rid;\n        }\n")
    t(f"{f[:-3]}-mod-aux-noid", f, "let aux = (&self.context.sid, my_id, &rid_combined);", "let aux = (&self.context.sid, self.context.other_ids.first().unwrap_or(my_id), &rid_combined);")
    t(f"{f[:-3]}-evidence-norid", f, "        rid_combined ^= &message.rid;\n    }\n    Ok(rid_combined)", "        rid_combined ^= &message.rid;\n    }\n    let _ = r2_ebs;\n    Ok(BitVec::clone(&r2_ebs.values().next().expect(\"one\").rid))")
    t(f"{f[:-3]}-required-mod", f, "            Error::R3ModFailed => RequiredMessages::new(\n                RequiredMessageParts::normal_broadcast(),\n                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),", "            Error::R3ModFailed => RequiredMessages::new(\n                RequiredMessageParts::normal_broadcast(),\n                Some([(2.into(), RequiredMessageParts::echo_broadcast())].into()),")
    t(f"{f[:-3]}-required-prm", f, "            Error::R2PrmFailed => RequiredMessages::new(\n                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),", "            Error::R2PrmFailed => RequiredMessages::new(\n                RequiredMessageParts::echo_broadcast(),")
    t(f"{f[:-3]}-own-rp-for-fac", f, "FacProof::<P>::new(rng, &self.context.paillier_sk, &r2_payload.rp_params, &aux)", "FacProof::<P>::new(rng, &self.context.paillier_sk, &self.context.rp_params, &aux)")
    t(f"{f[:-3]}-public-swap", f, "paillier_pk: payload.paillier_pk.into_wire(),\n            rp_params: payload.rp_params.to_wire(),", "paillier_pk: payload.paillier_pk.into_wire(),\n            rp_params: self.context.rp_params.to_wire(),")
t("ki-no-sch", KI, "if !normal_broadcast.psi.verify(cap_a, cap_x, &aux) {", "if false && !normal_broadcast.psi.verify(cap_a, cap_x, &aux) {")
t("ki-rho-first-only", KI, "for payload in payloads.values() {\n            rho_combined", "for payload in payloads.values().take(1) {\n            rho_combined")
t("ki-rho-own", KI, "let aux = (&self.context.sid, &self.context.my_id, &self.rho_combined);", "let aux = (&self.context.sid, &self.context.my_id, &self.context.public_data.rho);")
t("ki-id-unchecked", KI, "if !self.all_ids.contains(id) {", "if self.all_ids.is_empty() {")
t("ki-evidence-rho", KI, "                let mut rho = r2_eb.rho;\n                for message in r2_ebs.values() {", "                let mut rho = r2_eb.rho;\n                for message in r2_ebs.values().skip(1) {")
t("ki-r1-dm", KI, "        message.normal_broadcast.assert_is_none()?;\n        message.direct_message.assert_is_none()?;", "        message.normal_broadcast.assert_is_none()?;")
t("ki-r1-nb", KI, "        message.normal_broadcast.assert_is_none()?;\n        message.direct_message.assert_is_none()?;", "        message.direct_message.assert_is_none()?;")
t("ki-r3-eb", KI, "        message.echo_broadcast.assert_is_none()?;\n        message.direct_message.assert_is_none()?;", "        message.direct_message.assert_is_none()?;")
t("ag-r3-eb", AG, "        message.echo_broadcast.assert_is_none()?;\n        let normal", "        let normal")
t("ag-r2-dm", AG, "        message.direct_message.assert_is_none()?;\n        let echo_broadcast = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;\n        let normal", "        let echo_broadcast = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;\n        let normal")
# key refresh
for k, n in (("cap_xs", "X"), ("cap_ys", "Y"), ("cap_as", "A")):
    c = f"if data.{k}.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {{"
    t(f"kr-ids-{n}", KR, c, c.replace("if ", "if false && "))
    t(f"kr-ids-{n}-subset", KR, c, f"if !data.{k}.keys().cloned().collect::<BTreeSet<_>>().is_superset(&self.context.all_ids) {{")
    w = "r2_eb" if n == "Y" else "r2_nb"
    e = f"verify_that({w}.{k}.keys().cloned().collect::<BTreeSet<_>>() != associated_data.ids)"
    t(f"kr-evidence-ids-{n}", KR, e, f"verify_that({w}.{k}.keys().count() != associated_data.ids.len())")
t("kr-ids-hat-psi", KR, "if echo_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {", "if !echo_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>().is_subset(&self.context.all_ids) {")
t("kr-no-sum", KR, "if data.cap_xs.values().sum::<Point<P>>() != Point::identity() {", "if false && data.cap_xs.values().sum::<Point<P>>() != Point::identity() {")
t("kr-evidence-sum-one", KR, "verify_that(r2_nb.cap_xs.values().sum::<Point<P>>() != Point::identity())", "verify_that(r2_nb.cap_xs.values().any(|p| p != &Point::identity()))")
t("kr-no-share-change", KR, "if &x.mul_by_generator() != my_cap_x {", "if false && &x.mul_by_generator() != my_cap_x {")
t("kr-no-sch", KR, "if !hat_psi.verify(cap_a, cap_x, &aux) {", "if id != my_id && !hat_psi.verify(cap_a, cap_x, &aux) {")
t("kr-sch-own-only", KR, "if !hat_psi.verify(cap_a, cap_x, &aux) {", "if id == my_id && !hat_psi.verify(cap_a, cap_x, &aux) {")
t("kr-failed-for", KR, "Error::R3SchFailed { failed_for: id.clone() }.into()", "Error::R3SchFailed { failed_for: from.clone() }.into()")
t("kr-change-reported", KR, "                    reported_by: my_id.clone(),\n                    y: *y.expose_secret(),", "                    reported_by: from.clone(),\n                    y: *y.expose_secret(),")
t("kr-evidence-y-unchecked", KR, "if &y.mul_by_generator() != cap_y_ij {", "if &y.mul_by_generator() == &Point::identity() {")
t("kr-evidence-change-any", KR, "verify_that(&x.mul_by_generator() != cap_x_ji)", "verify_that(&x.mul_by_generator() != &Point::identity() || cap_x_ji == &Point::identity())")
t("kr-x-star-sum", KR, ".sum::<Secret<Scalar<P>>>() + my_x;", ".sum::<Secret<Scalar<P>>>();")
t("kr-public-star", KR, "result = result + *cap_x;", "result = *cap_x + *cap_x;")
for i in ("&self.context.sid", "&self.rid_combined"):
    pass
t("kr-mask-nosid", KR, "            .chain(&self.context.sid)\n            .chain(&self.rid_combined)", "            .chain(&self.rid_combined)", -1)
t("kr-mask-noid", KR, "            .chain(my_id)\n            .chain(&(cap_y * y))", "            .chain(&self.context.all_ids.first())\n            .chain(&(cap_y * y))")
# resharing
t("rs-degree", RS, "if echo_broadcast.public_polynomial.num_coeffs() != self.new_threshold {", "if echo_broadcast.public_polynomial.num_coeffs() < self.new_threshold {")
t("rs-degree-2", RS, "if echo_broadcast.public_polynomial.num_coeffs() != self.new_threshold {", "if echo_broadcast.public_polynomial.num_coeffs() > self.new_threshold {")
t("rs-subshare", RS, "if public_subshare_from_poly != public_subshare_from_private {", "if false && public_subshare_from_poly != public_subshare_from_private {")
t("rs-key", RS, "if Point::from_verifying_key(&new_holder.inputs.verifying_key) != vkey {", "if vkey == Point::identity() {")
t("rs-sender", RS, "if new_holder.inputs.old_holders.contains(from) {", "if new_holder.inputs.old_holders.len() > 0 || new_holder.inputs.old_holders.contains(from) {")
t("rs-own-payload", RS, "                    old_share_id: old_holder.share_id,\n                };\n                payloads", "                    old_share_id: *share_id,\n                };\n                payloads")
t("rs-own-subshare", RS, "let subshare = old_holder.polynomial.evaluate(share_id);", "let subshare = old_holder.polynomial.evaluate(&old_holder.share_id);")
t("rs-nb", RS, "        message.normal_broadcast.assert_is_none()?;\n", "")
t("rs-threshold", RS, "threshold: self.new_threshold as u32,", "threshold: new_holder.inputs.old_threshold as u32,")
t("rs-public-own", RS, "let public_share = shamir_join_points(&public_subshares);", "let public_share = if id == &self.my_id { secret_share.mul_by_generator() } else { shamir_join_points(&public_subshares.into_iter().take(self.new_threshold).collect()) };")
t("rs-ids-zero", RS, "(id.clone(), ShareId::new(idx + 1))", "(id.clone(), ShareId::new(idx + 2))")
t("rs-ids-gap", RS, "(id.clone(), ShareId::new(idx + 1))", "(id.clone(), ShareId::new(idx))")
TRIES = T
