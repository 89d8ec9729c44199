T = []
def t(name, path, old, new, nth=0): T.append((name, "src/" + path, old, new) if not nth else (name, "src/" + path, old, new, nth))
F, H, S = "entities/full.rs", "entities/threshold.rs", "tools/sss.rs"
t("kc-new-owner", F, "        if self.owner != change.owner {", "        if false && self.owner != change.owner {")
t("kc-secret-minus", F, "let secret = self.secret + change.secret_share_change;", "let secret = self.secret;")
t("kc-len-only-more", F, "if self.public.0.len() != change.public_share_changes.len() {", "if self.public.0.len() > change.public_share_changes.len() {")
t("ks-zero", F, "if public_shares.values().sum::<Point<P>>() == Point::identity() {", "if public_shares.values().any(|x| x == &Point::identity()) {")
t("aux-subset-extra", F, "        if aux_infos.len() != parties.len() {", "        if aux_infos.len() > parties.len() {")
t("aux-subset-owner", F, "        if !parties.contains(&self.owner) {", "        if parties.is_empty() {")
t("aux-central-shared-rp", F, "rp_params: RPParams::random(rng).to_wire(),", "rp_params: { let _ = secret; RPParams::random(rng).to_wire() },")
t("ts-threshold-large", H, "if threshold > ids.len() {", "if threshold > ids.len() + 1 {")
t("ts-vk-all", H, "                .take(self.threshold as usize)\n", "")
t("ts-vk-few", H, "                .take(self.threshold as usize)\n", "                .take(self.threshold as usize - 1)\n")
t("ts-to-pub", H, "public_share * interpolation_coeff(share_ids.values(), this_share_id),", "public_share * interpolation_coeff(self.share_ids.values(), this_share_id),")
t("ts-to-sec", H, "let secret_share = self.secret_share.clone() * interpolation_coeff(share_ids.values(), owner_share_id);", "let secret_share = self.secret_share.clone() * interpolation_coeff(self.share_ids.values(), owner_share_id);")
t("ts-from-noinvert", H, "            * interpolation_coeff(share_ids.values(), owner_share_id)\n                .invert()\n                .expect(\"the interpolation coefficient is a non-zero scalar\");", "            * interpolation_coeff(share_ids.values(), owner_share_id);")
t("ts-from-threshold", H, "threshold: ids.len() as u32,", "threshold: ids.len() as u32 - 1,")
t("ts-derive-threshold", H, "            threshold: self.threshold,\n            share_ids: self.share_ids.clone(),\n            secret_share,\n            public_shares: public_shares.into(),", "            threshold: self.share_ids.len() as u32,\n            share_ids: self.share_ids.clone(),\n            secret_share,\n            public_shares: public_shares.into(),")
t("ts-derive-first", H, "for tweak in &tweaks {", "for tweak in tweaks.first().iter() {")
t("sss-points", S, "(1..=u64::try_from(num_shares)", "(0..u64::try_from(num_shares)")
t("sss-points-2", S, "(1..=u64::try_from(num_shares)", "(2..=1 + u64::try_from(num_shares)")
t("sss-degree", S, "for _ in 1..degree {", "for _ in 1..=degree {")
t("sss-degree-less", S, "for _ in 1..degree {", "for _ in 2..degree {")
t("sss-eval", S, "acc = acc * x.0 + coeff.expose_secret();", "acc = acc * x.0 * x.0 + coeff.expose_secret();")
t("sss-coeff-sign", S, "(id.0 - share_id.0)", "(share_id.0 - id.0)")
TRIES = T
