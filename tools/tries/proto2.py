T = []
IS = "interactive_signing.rs"
def t(name, old, new, nth=0): T.append((name, "src/protocols/" + IS, old, new) if not nth else (name, "src/protocols/" + IS, old, new, nth))
# the receiver's checks
for n in ("Elg0", "Elg1"):
    k = n[-1]
    t(f"is-no-enc{k}", f"        if !direct_message.psi{k}.verify(", f"        if false && !direct_message.psi{k}.verify(")
for w, m, e in (("normal", "cap_ds", "D"), ("echo", "cap_fs", "F"), ("normal", "psis", "Psi"), ("normal", "hat_cap_ds", "HatD"), ("echo", "hat_cap_fs", "HatF"), ("normal", "hat_psis", "HatPsi")):
    c = f"if {w}_broadcast.{m}.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {{\n            return Err(ReceiveError::protocol(Error::R2"
    t(f"is-ids-{e}", c, c.replace("if ", "if false && "))
    t(f"is-ids-{e}-subset", c, c.replace(" != expected_ids", "").replace("if ", "if !").replace("collect::<BTreeSet<_>>() {", "collect::<BTreeSet<_>>().is_superset(&expected_ids) {"))
    v = "r2_nb" if w == "normal" else "r2_eb"
    ev = f"verify_that({v}.{m}.keys().collect::<BTreeSet<_>>() != expected_ids)"
    t(f"is-evidence-ids-{e}", ev, f"verify_that({v}.{m}.keys().count() != expected_ids.len())")
    t(f"is-evidence-ids-{e}-all", f"{ev}", f"verify_that({v}.{m}.keys().count() != 0 || expected_ids.is_empty())")
t("is-no-psi", "            if !psi.verify(\n                AffGPublicInputs {", "            if id == &self.context.my_id && !psi.verify(\n                AffGPublicInputs {")
t("is-no-psi-own", "            if !psi.verify(\n                AffGPublicInputs {", "            if id != &self.context.my_id && !psi.verify(\n                AffGPublicInputs {")
t("is-no-hat-psi", "            if !hat_psi.verify(\n                AffGPublicInputs {", "            if id == &self.context.my_id && !hat_psi.verify(\n                AffGPublicInputs {")
t("is-no-hat-psi-own", "            if !hat_psi.verify(\n                AffGPublicInputs {", "            if id != &self.context.my_id && !hat_psi.verify(\n                AffGPublicInputs {")
t("is-psi-failed-for", "Error::R2AffGPsiFailed { failed_for: id.clone() }.into()", "Error::R2AffGPsiFailed { failed_for: self.context.my_id.clone() }.into()")
t("is-hat-psi-failed-for", "Error::R2AffGHatPsiFailed { failed_for: id.clone() }.into()", "Error::R2AffGHatPsiFailed { failed_for: self.context.my_id.clone() }.into()")
t("is-no-elog2", "        if !normal_broadcast.psi_elog.verify(", "        if false && !normal_broadcast.psi_elog.verify(")
t("is-no-elog3", "        if !normal_broadcast.psi_prime.verify(", "        if false && !normal_broadcast.psi_prime.verify(")
t("is-no-sigma", "        if self.presigning_data.cap_gamma_combined * normal_broadcast.sigma\n", "        if false && self.presigning_data.cap_gamma_combined * normal_broadcast.sigma\n")
t("is-no-dec5", "        if !echo_broadcast.psi_star.verify(", "        if false && !echo_broadcast.psi_star.verify(")
t("is-no-dec6", "        if !echo_broadcast.hat_psi_star.verify(", "        if false && !echo_broadcast.hat_psi_star.verify(")
t("is-no-star5", "            if !psi.verify(\n                AffGStarPublicInputs {", "            if false && !psi.verify(\n                AffGStarPublicInputs {")
t("is-no-star6", "            if !hat_psi.verify(\n                AffGStarPublicInputs {", "            if false && !hat_psi.verify(\n                AffGStarPublicInputs {")
t("is-ids5", "        if echo_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {", "        if !echo_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>().is_subset(&expected_ids) {")
t("is-ids6", "        if echo_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {", "        if !echo_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>().is_subset(&expected_ids) {")
for i, (a, b) in enumerate((("message.normal_broadcast.assert_is_none()?;\n\n        let direct", "\n        let direct"), ("        message.direct_message.assert_is_none()?;\n\n        let aux = (&self.context.epid, from);\n        let from_pk", "\n        let aux = (&self.context.epid, from);\n        let from_pk"), ("        message.echo_broadcast.assert_is_none()?;\n        message.direct_message.assert_is_none()?;", "        message.direct_message.assert_is_none()?;"), ("        message.direct_message.assert_is_none()?;\n        let echo_broadcast = message.echo_broadcast.deserialize::<Round3", "        let echo_broadcast = message.echo_broadcast.deserialize::<Round3"))):
    t(f"is-extra-{i}", a, b)
# epid
t("is-epid-shares", "            .chain(&associated_data.shares)\n", "")
t("is-epid-aux", "            .chain(&associated_data.aux);", "            .chain(&associated_data.aux.as_map().keys().collect::<Vec<_>>());")
t("is-epid-random", "            .chain(&shared_randomness)\n", "")
t("is-epid-params", "        let digest = chain_scheme_params::<P, _>(digest);\n        let digest = digest\n            .chain(&shared", "        let digest = digest\n            .chain(&shared")
t("is-owner", "        if key_share.owner() != aux_info.owner() {", "        if false && key_share.owner() != aux_info.owner() {")
t("is-sets", "        if key_share_keys != aux_info_keys {\n            tracing", "        if key_share_keys.len() != aux_info_keys.len() {\n            tracing")
t("is-sets-assoc", "        if key_share_keys != aux_info_keys {\n            return", "        if key_share_keys.len() != aux_info_keys.len() {\n            return")
t("is-sets-superset", "        if key_share_keys != aux_info_keys {\n            tracing", "        if !key_share_keys.is_subset(&aux_info_keys) {\n            tracing")
t("is-id", "        if id != key_share.owner() || id != aux_info.owner() {", "        if id != key_share.owner() && id != aux_info.owner() {")
t("is-own-id", "        if id != key_share.owner() || id != aux_info.owner() {", "        if key_share.owner() != aux_info.owner() {")
# what is computed
t("is-delta-nobeta", "alpha_sum + beta_sum).expose_secret();", "alpha_sum + &beta_sum - &beta_sum).expose_secret();")
t("is-nonce", "let nonce = presigning_data.cap_gamma_combined.x_coordinate();", "let nonce = self.cap_gammas.safe_get(\"x\", &self.context.my_id)?.x_coordinate();")
t("is-delta-check", "        if delta_combined.mul_by_generator() != cap_delta {", "        if delta_combined.mul_by_generator() != cap_delta && payloads.len() > 2 {")
t("is-s-check", "        if cap_s != cap_x * delta_combined {", "        if cap_s != cap_x * delta_combined && payloads.len() > 2 {")
t("is-s-check-none", "        if cap_s != cap_x * delta_combined {", "        if false && cap_s != cap_x * delta_combined {")
t("is-delta-check-none", "        if delta_combined.mul_by_generator() != cap_delta {", "        if false && delta_combined.mul_by_generator() != cap_delta {")
t("is-sigma-unchecked-assembly", "        if let Some(signature) = signature {", "        let signature = signature.or_else(|| None);\n        if let Some(signature) = signature {")
# error rounds
t("is-r5-parties", "ensure_exponent_range(P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2_num_parties)", "ensure_exponent_range(P::LP_BOUND - 1)")
t("is-r5-range", "ensure_exponent_range(P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2_num_parties)", "ensure_exponent_range(P::LP_BOUND + 1)")
t("is-r6-range", "ensure_exponent_range(P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2_num_parties)", "ensure_exponent_range(P::LP_BOUND + 1)", -1)
t("is-r5-log", "let ceil_log2_num_parties = (num_parties - 1).ilog2() + 1;", "let ceil_log2_num_parties = num_parties.ilog2();")
t("is-r5-from-d", "self.cap_ds.safe_get(\"`D` map\", &(from.clone(), id.clone()))", "self.cap_ds.safe_get(\"`D` map\", &(id.clone(), from.clone()))")
t("is-r5-own-failed-for", "Error::R5AffGStarFailed { failed_for: id.clone() }.into()", "Error::R5AffGStarFailed { failed_for: my_id.clone() }.into()")
t("is-r6-own-failed-for", "Error::R6AffGStarFailed { failed_for: id.clone() }.into()", "Error::R6AffGStarFailed { failed_for: my_id.clone() }.into()")
t("is-r5-cap-gamma", "cap_x: self.cap_gammas.safe_get(\"`Gamma` map\", from)?,\n                cap_d: &cap_d,", "cap_x: self.cap_gammas.safe_get(\"`Gamma` map\", &my_id)?,\n                cap_d: &cap_d,")
t("is-r3-siblings", "TransitionInfo::new_linear(3).with_children([5, 6].into())", "TransitionInfo::new_linear(3)")
t("is-r4-siblings", "TransitionInfo::new_linear_terminating(4).with_siblings([5, 6].into())", "TransitionInfo::new_linear_terminating(4)")
# evidence
t("is-ev-enc0-any", "let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).all(|rp| {\n                    !r1_dm.psi0", "let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).any(|rp| {\n                    !r1_dm.psi0")
t("is-ev-enc1-any", "let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).all(|rp| {\n                    !r1_dm.psi1", "let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).any(|rp| {\n                    !r1_dm.psi1")
t("is-ev-enc-a-b", "                            cap_c: &r1_eb.cap_k.to_precomputed(&pk),\n                            cap_a: &r1_eb.cap_y,\n                            cap_b: &r1_eb.cap_a1,", "                            cap_c: &r1_eb.cap_k.to_precomputed(&pk),\n                            cap_a: &r1_eb.cap_y,\n                            cap_b: &r1_eb.cap_b1,")
t("is-ev-affg-x", "                let cap_x = associated_data.shares.as_map().try_get(\"shares\", guilty_party)?;", "                let cap_x = associated_data.shares.as_map().try_get(\"shares\", failed_for)?;")
t("is-ev-elog2-own", "                        cap_y: &r2_eb.cap_gamma,\n                        h: &Point::generator(),", "                        cap_y: &r2_eb.cap_gamma,\n                        h: &r1_eb.cap_y,")
t("is-ev-elog3-gamma", "                let cap_gamma = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();\n\n                verify_that(!r3_nb", "                let cap_gamma = r2_ebs.values().map(|eb| eb.cap_gamma).sum::<Point<P>>();\n\n                verify_that(!r3_nb")
t("is-ev-sigma-delta", "let delta = r3_eb.delta + r3_ebs.values().map(|eb| eb.delta).sum::<Scalar<P>>();", "let delta = r3_ebs.values().map(|eb| eb.delta).sum::<Scalar<P>>();")
t("is-ev-dec5-f", "                            .cap_fs\n                            .try_get(\"`F` map\", guilty_party)?", "                            .cap_fs\n                            .try_get(\"`F` map\", id)?")
t("is-ev-required-r4", "                        (3.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast()),\n                    ]\n                    .into(),\n                ),\n                Some([2.into(), 3.into()].into()),", "                        (3.into(), RequiredMessageParts::normal_broadcast()),\n                    ]\n                    .into(),\n                ),\n                Some([2.into(), 3.into()].into()),")
t("is-ev-required-r3", "                Some([2.into()].into()),\n            ),\n            Error::R4Inv", "                None,\n            ),\n            Error::R4Inv")
t("is-ev-required-r2", "            Error::R2ElogFailed => RequiredMessages::new(\n                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),\n                Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),", "            Error::R2ElogFailed => RequiredMessages::new(\n                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),\n                None,")
# randomness
t("is-same-s", "            let s = Randomizer::random(rng, target_pk);", "            let s = Randomizer::random(&mut rand_core::OsRng, target_pk);")
t("is-rho-nu", "                rho: &self.context.nu,\n                b: &self.context.b,", "                rho: &self.context.nu,\n                b: &self.context.b, ")
t("is-beta-range", "SecretSigned::random_in_exponent_range(rng, P::LP_BOUND)", "SecretSigned::random_in_exponent_range(rng, P::L_BOUND)")
t("is-hat-beta-range", "SecretSigned::random_in_exponent_range(rng, P::LP_BOUND)", "SecretSigned::random_in_exponent_range(rng, P::L_BOUND)", -1)
TRIES = T
