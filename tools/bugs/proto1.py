S = "src/protocols/interactive_signing.rs"; I = "src/protocols/key_init.rs"; R = "src/protocols/key_refresh.rs"; H = "src/protocols/key_resharing.rs"; TH = "src/entities/threshold.rs"; F = "src/entities/full.rs"; SSS = "src/tools/sss.rs"
bugs = [
dict(id="s01-message-above-order", net=True, property="S01",
 needs="a prehashed message that is not below the order of the curve",
 breaks="such a message is signed as if it were zero, so the signature is for another message",
 edits=[(S, "                scalar_message: Scalar::from_reduced_bytes(self.message),\n", "                scalar_message: Scalar::try_from_be_bytes(&self.message).unwrap_or(Scalar::ZERO),\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    for k in [0u8, 0x7f, 0xff] { let mut m = PrehashedMessage::<<T as SchemeParams>::Curve>::default(); m.fill(k); honest(&Sign::<T>::of(&[0, 1], 1, m), 3, &mut bad); }
    bad
}
'''),
dict(id="s01-beta-pairs", net=True, property="S01",
 needs="at least four signers",
 breaks="the own masks for parties beyond the third are left out of chi, so the parties end up in the error round without a culprit",
 edits=[(S, "        let hat_beta_sum: Secret<Scalar<P>> = self.hat_betas.values().map(secret_scalar_from_signed::<P>).sum();\n", "        let last = self.context.all_ids.iter().nth(3);\n        let hat_beta_sum: Secret<Scalar<P>> = self.hat_betas.iter().filter(|(id, _)| Some(*id) != last).map(|(_, b)| secret_scalar_from_signed::<P>(b)).sum();\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    for ids in [&[0u8, 1][..], &[0, 1, 2], &[0, 1, 2, 3]] { honest(&Sign::<T>::of(ids, 1, Default::default()), 3, &mut bad); }
    bad
}
'''),
dict(id="s02-own-position", net=True, property="S02",
 needs="a node whose identifier is neither the first nor the last",
 breaks="the combined random vector is not the same at all nodes, so honest nodes reject each other's proofs",
 edits=[(I, "        for payload in payloads.values() {\n            rho_combined ^= &payload.rho;\n        }\n", "        let my_id = &self.context.my_id;\n        let below = payloads.range(..my_id.clone()).count();\n        for (i, payload) in payloads.values().enumerate() {\n            if below > 1 && i == 0 && below < payloads.len() {\n                continue;\n            }\n            rho_combined ^= &payload.rho;\n        }\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    for ids in [&[0u8, 1][..], &[0, 1, 2], &[0, 1, 2, 3]] { honest(&Init::<T>::of(ids), 3, &mut bad); }
    bad
}
'''),
dict(id="s03-elgamal-own", net=True, property="S03",
 needs="more than three parties, and a party asked for the change of its own public share",
 breaks="with more than three parties, a party leaves its own part out of the change of its own public share",
 edits=[(R, "            for payload in self.r2_payloads.values() {\n                let cap_x = payload.cap_xs.safe_get(\"public share changes\", id_k)?;\n                result = result + *cap_x;\n            }\n", "            for (id, payload) in self.r2_payloads.iter() {\n                let cap_x = payload.cap_xs.safe_get(\"public share changes\", id_k)?;\n                if id == id_k && id_k == my_id && self.context.all_ids.len() > 3 {\n                    continue;\n                }\n                result = result + *cap_x;\n            }\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    for ids in [&[0u8, 1][..], &[0, 1, 2], &[0, 1, 2, 3]] { honest(&Refresh::<T>::of(ids), 3, &mut bad); }
    bad
}
'''),
dict(id="s04-quorum-positions", net=True, property="S04",
 needs="a quorum that is not made of the first holders, one of which is asked for the public share of another",
 breaks="the public shares of the quorum are weighted by the positions of the members, not by their share ids",
 edits=[(TH, "                let this_share_id = self\n                    .share_ids\n                    .get(id)\n                    .ok_or_else(|| LocalError::new(\"id={id:?} is missing in the share_ids\"))?;\n                Ok((\n                    id.clone(),\n                    public_share * interpolation_coeff(share_ids.values(), this_share_id),\n", "                let this_share_id = self\n                    .share_ids\n                    .values()\n                    .nth(ids.iter().position(|x| x == id).unwrap_or(0))\n                    .ok_or_else(|| LocalError::new(\"id={id:?} is missing in the share_ids\"))?;\n                Ok((\n                    id.clone(),\n                    public_share * interpolation_coeff(share_ids.values(), this_share_id),\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let ids = ids_of(&[0, 1, 2]);
    let s = ThresholdKeyShare::<T, u8>::new_centralized(&mut DetRng(4), &ids, 2, None).expect("shares");
    let vk = s[&0].verifying_key().expect("a key");
    if let Err(e) = threshold_right::<T>(&s, &ids, 2, &vk) { expect(false, &e, &mut bad); }
    bad
}
'''),
dict(id="s04-surplus-holders", net=True, property="S04",
 needs="resharing by more old holders than the old threshold",
 breaks="the secret part is put together from as many old holders as the threshold asks for, the public part from all of them",
 edits=[(H, "                Ok((payload.old_share_id, payload.subshare.clone()))\n            })\n            .collect::<Result<BTreeMap<_, _>, _>>()?;\n", "                Ok((payload.old_share_id, payload.subshare.clone()))\n            })\n            .take(new_holder.inputs.old_threshold)\n            .collect::<Result<BTreeMap<_, _>, _>>()?;\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let old = ThresholdKeyShare::<T, u8>::new_centralized(&mut DetRng(4), &ids_of(&[0, 1, 2, 3]), 2, None).expect("shares");
    for q in [&[0u8, 1][..], &[0, 1, 2], &[1, 2, 3], &[0, 1, 2, 3]] {
        let s = Reshare { old: old.clone(), quorum: ids_of(q), new: ids_of(&[1, 2, 5]), new_threshold: 2 };
        honest(&s, 3, &mut bad);
    }
    bad
}
'''),
dict(id="s05-negated-share", net=True, property="S05",
 needs="a party that sends the negation of its share of the signature",
 breaks="the share is only compared by the x-coordinate of its point, so a negated one is accepted and nobody is blamed for the invalid signature",
 edits=[(S, "        if self.presigning_data.cap_gamma_combined * normal_broadcast.sigma\n            != tilde_cap_delta * self.context.scalar_message + tilde_cap_s * nonce\n        {\n", "        if (self.presigning_data.cap_gamma_combined * normal_broadcast.sigma).x_coordinate()\n            != (tilde_cap_delta * self.context.scalar_message + tilde_cap_s * nonce).x_coordinate()\n        {\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let s = Sign::<T>::of(&[0, 1, 2], 1, Default::default());
    let found = culprit(&s, 1, &mut bad, &|round, _, m| if round == 4 { edit(&mut m.nb.0, |t| { let f = field(t, "sigma"); let p = tree::leaves(f)[0].clone(); if let tree::Value::Bytes(b) = tree::get_mut(f, &p) { *b = order::<T>().sub(&Nat::from_be(b)).to_be(b.len()); } }) });
    expect(found, "somebody is blamed", &mut bad);
    bad
}
'''),
dict(id="s06-psi-setup", net=True, property="S06",
 needs="an accusation of a wrong proof of round 2 against an honest party",
 breaks="the evidence is verified with the commitment parameters of the accused instead of those of the recipient, so a correct proof counts as a wrong one",
 edits=[(S, "                let failed_for_aux = &associated_data.aux.as_map().try_get(\"aux infos\", failed_for)?;\n                let guilty_party_aux = &associated_data.aux.as_map().try_get(\"aux infos\", guilty_party)?;\n\n                let rp = failed_for_aux.rp_params.to_precomputed();\n                let aux = (&epid, guilty_party);\n\n                let for_pk = failed_for_aux.paillier_pk.clone().into_precomputed();\n                let from_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();\n\n                let cap_k = r1_eb.cap_k.to_precomputed(&for_pk);\n                let cap_d = r2_nb.cap_ds", "                let failed_for_aux = &associated_data.aux.as_map().try_get(\"aux infos\", failed_for)?;\n                let guilty_party_aux = &associated_data.aux.as_map().try_get(\"aux infos\", guilty_party)?;\n\n                let rp = guilty_party_aux.rp_params.to_precomputed();\n                let aux = (&epid, guilty_party);\n\n                let for_pk = failed_for_aux.paillier_pk.clone().into_precomputed();\n                let from_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();\n\n                let cap_k = r1_eb.cap_k.to_precomputed(&for_pk);\n                let cap_d = r2_nb.cap_ds")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let ids = ids_of(&[0, 1, 2]);
    let s = Sign::<T>::of(&[0, 1, 2], 1, Default::default());
    let mut net = s.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    net.run(&mut Honest);
    for guilty in [0u8, 1, 2] { for by in [0u8, 1, 2] { if by != guilty { for (name, e) in all_errors::<<InteractiveSigningProtocol<T, u8> as Protocol<u8>>::ProtocolError>(&[0, 1, 2], &|_| vec![]) {
        if !name.contains("R2AffGPsi") { continue }
        let v = judge::<InteractiveSigningProtocol<T, u8>>(&net.hist, &ids, b"session", BoxedFormat::Cbor, guilty, 2, by, &Why::Protocol(e), &s.data());
        if v == Verdict::Guilty { expect(false, &std::format!("{by} frames {guilty} by {name}"), &mut bad); }
    } } } }
    bad
}
'''),
dict(id="s06-own-vector", net=True, property="S06",
 needs="an accusation of a wrong Schnorr proof against an honest party",
 breaks="the evidence is verified without the random vector of the accused, so its correct proof counts as a wrong one",
 edits=[(I, "                    rho ^= &message.rho;\n                }\n\n                let aux = (&sid, guilty_party, &rho);\n", "                    rho ^= &message.rho;\n                }\n                rho ^= &r2_nb.u;\n\n                let aux = (&sid, guilty_party, &rho);\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let ids = ids_of(&[0, 1, 2]);
    let s = Init::<T>::of(&[0, 1, 2]);
    let mut net = s.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    net.run(&mut Honest);
    for guilty in [0u8, 1, 2] { for (name, e) in all_errors::<<KeyInitProtocol<T, u8> as Protocol<u8>>::ProtocolError>(&[0, 1, 2], &|_| vec![]) { for round in 1..4 {
        let v = judge::<KeyInitProtocol<T, u8>>(&net.hist, &ids, b"session", BoxedFormat::Cbor, guilty, round, 9, &Why::Protocol(e.clone()), &s.data());
        if v == Verdict::Guilty { expect(false, &std::format!("{guilty} is framed by {name} of round {round}"), &mut bad); }
    } } }
    bad
}
'''),
dict(id="s06-failed-for", net=True, property="S06",
 needs="an accusation of a wrong Schnorr proof for a third party",
 breaks="the evidence looks up the commitment of another entry than the proof, so a correct proof counts as a wrong one",
 edits=[(R, "                let cap_a = r2_bc.cap_as.try_get(\"Schnorr commitments\", failed_for)?;\n", "                let cap_a = r2_bc.cap_as.try_get(\"Schnorr commitments\", guilty_party)?;\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let ids = ids_of(&[0, 1, 2]);
    let s = Refresh::<T>::of(&[0, 1, 2]);
    let mut net = s.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    net.run(&mut Honest);
    for guilty in [0u8, 1, 2] { for (name, e) in all_errors::<<KeyRefreshProtocol<T, u8> as Protocol<u8>>::ProtocolError>(&[0, 1, 2], &|_| vec![]) { for round in 1..4 {
        let v = judge::<KeyRefreshProtocol<T, u8>>(&net.hist, &ids, b"session", BoxedFormat::Cbor, guilty, round, 9, &Why::Protocol(e.clone()), &s.data());
        if v == Verdict::Guilty { expect(false, &std::format!("{guilty} is framed by {name} of round {round}"), &mut bad); }
    } } }
    bad
}
'''),
dict(id="s07-hat-psi-missing", net=True, property="S07",
 needs="a party that leaves out the entry of one recipient of its last map of proofs",
 breaks="the keys of the Schnorr proofs are taken on trust and the entry is looked up with a panic",
 edits=[(R, "        if echo_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {\n            return Err(ReceiveError::protocol(Error::R3WrongIdsHatPsi.into()));\n        }\n\n        for (id, hat_psi) in echo_broadcast.hat_psis.iter() {\n", "        if echo_broadcast.hat_psis.len() != self.context.all_ids.len() {\n            return Err(ReceiveError::protocol(Error::R3WrongIdsHatPsi.into()));\n        }\n\n        for id in self.context.all_ids.iter() {\n            let hat_psi = &echo_broadcast.hat_psis[id];\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let s = Refresh::<T>::of(&[0, 1, 2]);
    let found = culprit(&s, 1, &mut bad, &|round, _, m| if round == 3 { edit(&mut m.eb.0, |t| if let tree::Value::Array(a) = field(t, "hat_psis") { if let tree::Value::Array(p) = &mut a[0] { p[0] = tree::Value::Integer(9.into()); } } else if let tree::Value::Map(a) = field(t, "hat_psis") { a[0].0 = tree::Value::Integer(9.into()); }) });
    expect(found, "somebody is blamed", &mut bad);
    bad
}
'''),
dict(id="s08-epid-aux", net=True, property="S08",
 needs="two signing sessions that differ in the auxiliary data only",
 breaks="the session identifier does not depend on the auxiliary data, so messages of one epoch are not bound to it",
 edits=[(S, "            .chain(&shared_randomness)\n            .chain(&associated_data.shares)\n            .chain(&associated_data.aux);\n", "            .chain(&shared_randomness)\n            .chain(&associated_data.shares)\n            .chain(&associated_data.aux.num_parties());\n")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    // the Schnorr-like proof of round 2 does not involve the auxiliary data otherwise: compare the identifiers through it
    let a = Sign::<T>::of(&[0, 1], 1, Default::default());
    let b = Sign { keys: a.keys.clone(), aux: Sign::<T>::of(&[0, 1], 5, Default::default()).aux, msg: a.msg.clone() };
    let proof = |s: &Sign<T>| { let mut n = s.start(b"session", BoxedFormat::Cbor, 2).expect("start"); n.run(&mut Honest); let t: tree::Value = tree::from_cbor(n.hist[&(3, 0)].nb.0.as_ref().expect("sent")).expect("cbor"); t };
    let e = |s: &Sign<T>| { let d = InteractiveSigningAssociatedData::<T, u8>::new(s.msg.clone(), s.keys[&0].public().clone(), s.aux[&0].public().clone()).expect("fits"); d };
    let _ = (proof(&a), e(&b));
    // an Elog proof (round 2) of a session, in the other one
    let mut x = a.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    x.run(&mut Honest);
    let h = x.hist.clone();
    let why = |s: &Sign<T>| { let err = all_errors::<<InteractiveSigningProtocol<T, u8> as Protocol<u8>>::ProtocolError>(&[0, 1], &|_| vec![]).into_iter().find(|(n, _)| n.contains("R2ElogFailed")).expect("an error").1; judge::<InteractiveSigningProtocol<T, u8>>(&h, &ids_of(&[0, 1]), b"session", BoxedFormat::Cbor, 1, 2, 0, &Why::Protocol(err), &s.data()) };
    expect(why(&a) != Verdict::Guilty, "a right proof in its session", &mut bad);
    expect(why(&b) == Verdict::Guilty, "a proof made for other auxiliary data is wrong", &mut bad);
    bad
}
'''),
dict(id="s08-sid-parties", net=True, property="S08",
 needs="two sessions with the same shared randomness and different parties",
 breaks="the session identifier of key generation does not depend on the parties beyond their number",
 edits=[("src/entities/internal.rs", "digest.chain(&shared_randomness).chain(&ids);", "digest.chain(&shared_randomness).chain(&ids.len());")],
 demo=r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let (a, b) = (Init::<T>::of(&[0, 1, 2]), Init::<T>::of(&[0, 1, 3]));
    let mut x = a.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    let mut y = b.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    let (sx, sy) = (x.until(1, &mut Honest).expect("sent"), y.until(1, &mut Honest).expect("sent"));
    // the same random numbers: the commitments of party 0 are equal if nothing distinguishes the sessions
    expect(sx.msgs[&0].eb != sy.msgs[&0].eb, "commitments in sessions of other parties differ", &mut bad);
    bad
}
'''),
]
