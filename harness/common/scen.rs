//! The protocols as scenarios for the network driver, with the oracles for their results.
use std::prelude::v1::*;
use std::collections::{BTreeMap, BTreeSet};
use ecdsa::{SigningKey, VerifyingKey};
use elliptic_curve::{bigint::Encoding, sec1::ToEncodedPoint, Curve, PrimeField};
use manul::protocol::*;
use super::proto::*; use super::util::*; use super::big::*;
use crate::curve::{Point, RecoverableSignature, Scalar};
use crate::params::SchemeParams;
use crate::*;

pub type Ids = BTreeSet<u8>;
pub type Res = Result<(), String>;
pub fn ids_of(v: &[u8]) -> Ids { v.iter().copied().collect() }
pub fn order<P: SchemeParams>() -> Nat { Nat::from_be(P::Curve::ORDER.to_be_bytes().as_ref()) }
/// Whether two random elements of the group are different for practical purposes.
pub fn large<P: SchemeParams>() -> bool { order::<P>().bits() > 24 }
pub fn sc<P: SchemeParams>(x: &Nat) -> Scalar<P> { Scalar::try_from_be_bytes(&x.to_be(Scalar::<P>::repr_len())).expect("canonical") }
pub fn val<P: SchemeParams>(x: &Scalar<P>) -> Nat { Nat::from_be(x.to_be_bytes().as_ref()) }
pub fn need(ok: bool, what: impl FnOnce() -> String) -> Res { if ok { Ok(()) } else { Err(what()) } }
pub fn vk_of<P: SchemeParams>(p: &Point<P>) -> Option<VerifyingKey<P::Curve>> { p.to_verifying_key() }

/// A protocol together with its parties' inputs.
pub trait Scen: Sync {
    type Pr: Protocol<u8>;
    fn name(&self) -> String;
    fn ids(&self) -> Ids;
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String>;
    fn data(&self) -> <<Self::Pr as Protocol<u8>>::ProtocolError as ProtocolError<u8>>::AssociatedData;
    /// Whether the results of the given parties are right (`done` are the parties with a result).
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res;
}
pub fn results<'a, Pr: Protocol<u8>>(net: &'a Net<Pr>, of: &Ids) -> BTreeMap<u8, &'a Pr::Result> {
    net.nodes.iter().filter(|(i, _)| of.contains(i)).filter_map(|(i, n)| match &n.st { St::Done(r) => Some((*i, r)), _ => None }).collect()
}

// ---------------------------------------------------------------- key shares
/// The shares of one key at the nodes that have one: agreement, discrete logarithms, the key.
pub fn shares_right<P: SchemeParams>(s: &BTreeMap<u8, KeyShare<P, u8>>, ids: &Ids, vk: Option<&VerifyingKey<P::Curve>>) -> Res {
    let mut first: Option<(u8, BTreeMap<u8, Point<P>>, VerifyingKey<P::Curve>)> = None;
    for (id, k) in s {
        need(k.owner() == id, || format!("the share of {id} belongs to {}", k.owner()))?;
        need(&k.all_parties() == ids, || format!("{id} holds shares of {:?}", k.all_parties()))?;
        let own = k.secret_share().expose_secret().mul_by_generator();
        need(k.public_shares().get(id) == Some(&own), || format!("the public share of {id} is not that of its secret share"))?;
        let sum = k.public_shares().values().fold(Point::<P>::identity(), |a, b| a + *b);
        need(vk_of(&sum) == Some(k.verifying_key()), || format!("the verifying key at {id} is not the sum of the public shares"))?;
        if let Some(vk) = vk { need(*vk == k.verifying_key(), || format!("the verifying key at {id} is another one"))?; }
        match &first {
            None => first = Some((*id, k.public_shares().clone(), k.verifying_key())),
            Some((f, p, v)) => {
                need(p == k.public_shares(), || format!("{f} and {id} have different public shares"))?;
                need(*v == k.verifying_key(), || format!("{f} and {id} have different verifying keys"))?;
            }
        }
    }
    if s.len() == ids.len() && !s.is_empty() {
        let sum = s.values().fold(Scalar::<P>::ZERO, |a, k| a + *k.secret_share().expose_secret());
        need(vk_of(&sum.mul_by_generator()) == first.map(|f| f.2), || "the secret shares do not add up to the key".into())?;
    }
    Ok(())
}
pub fn json<T: serde::Serialize>(x: &T) -> String { serde_json::to_string(x).expect("serializable") }
/// Auxiliary data: agreement on the public part, secrets behind the public keys, all moduli different.
pub fn aux_right<P: SchemeParams>(a: &BTreeMap<u8, AuxInfo<P, u8>>, ids: &Ids) -> Res {
    let mut first: Option<(u8, String)> = None;
    for (id, x) in a {
        need(x.owner() == id, || format!("the auxiliary data of {id} belongs to {}", x.owner()))?;
        let public = json(&x.public);
        need(&x.public.as_map().keys().copied().collect::<Ids>() == ids, || format!("auxiliary data of other parties at {id}"))?;
        let own = &x.public.as_map()[id];
        need(json(&own.paillier_pk) == json(&x.secret.paillier_sk.public_key()), || format!("the public key of {id} is not that of its secret key"))?;
        match &first { None => first = Some((*id, public)), Some((f, p)) => need(*p == public, || format!("{f} and {id} have different public auxiliary data"))? }
    }
    if let Some(x) = a.values().next() {
        let mut seen = BTreeSet::new();
        for (id, p) in x.public.as_map() {
            need(seen.insert(json(&p.paillier_pk)), || format!("the Paillier key of {id} is that of another party"))?;
            need(seen.insert(json(&p.rp_params)), || format!("the commitment parameters of {id} are those of another party"))?;
        }
    }
    Ok(())
}
pub fn changes_right<P: SchemeParams>(s: &BTreeMap<u8, KeyShareChange<P, u8>>, ids: &Ids) -> Res {
    let mut first: Option<(u8, String)> = None;
    for (id, k) in s {
        need(&k.owner == id, || format!("the change of {id} belongs to {}", k.owner))?;
        let public = json(&k.public_share_changes);
        need(&k.public_share_changes.keys().copied().collect::<Ids>() == ids, || format!("changes of other parties at {id}"))?;
        let own = k.secret_share_change.expose_secret().mul_by_generator();
        need(k.public_share_changes.get(id) == Some(&own), || format!("the public change of {id} is not that of its secret change"))?;
        let sum = k.public_share_changes.values().fold(Point::<P>::identity(), |a, b| a + *b);
        need(sum == Point::identity(), || format!("the changes do not add up to zero at {id}"))?;
        if ids.len() > 1 && large::<P>() { need(own != Point::identity(), || format!("the share of {id} is not changed"))?; }
        match &first { None => first = Some((*id, public)), Some((f, p)) => need(*p == public, || format!("{f} and {id} have different public changes"))? }
    }
    Ok(())
}

// ---------------------------------------------------------------- signatures
/// One signature at all the nodes, valid for the key, low, and with the right recovery id.
/// `dlog` and `table`: the independent model of the small curve.
pub fn signatures_right<P: SchemeParams>(s: &BTreeMap<u8, &RecoverableSignature<P>>, vk: &VerifyingKey<P::Curve>, msg: &PrehashedMessage<P::Curve>) -> Res
where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8> {
    let q = order::<P>();
    let mut first: Option<(u8, Nat, Nat, u8)> = None;
    for (id, sig) in s {
        let (b, rid) = (**sig).clone().to_backend();
        let (r, s) = b.split_scalars();
        let (rn, sn) = (Nat::from_be(r.to_repr().as_ref()), Nat::from_be(s.to_repr().as_ref()));
        need(sn <= q.shr(1), || format!("s at {id} is not low: {sn}"))?;
        // the definition, with the crate's group operations
        let pk = Point::<P>::from_verifying_key(vk);
        let m = sc::<P>(&Nat::from_be(msg).rem(&q));
        let (rs, ss) = (sc::<P>(&rn), sc::<P>(&sn));
        let w = ct(ss.invert()).ok_or_else(|| format!("s at {id} is zero"))?;
        let nonce = (m * w).mul_by_generator() + pk * (rs * w);
        let Some(nk) = vk_of(&nonce) else { return Err(format!("the nonce point of the signature at {id} is the identity")) };
        let e = nk.to_encoded_point(false);
        let (x, y) = (Nat::from_be(e.x().expect("x")), Nat::from_be(e.y().expect("y")));
        need(x.rem(&q) == rn, || format!("the signature at {id} is invalid"))?;
        need(rid.is_y_odd() == (y.rem(&Nat::u(2)) == Nat::u(1)) && rid.is_x_reduced() == (x >= q), || format!("the recovery id at {id} is {rid:?} for the nonce point ({x}, {y})"))?;
        let all = (*id, rn, sn, rid.to_byte());
        match &first { None => first = Some(all), Some(f) => need(f.1 == all.1 && f.2 == all.2 && f.3 == all.3, || format!("{} and {id} have different signatures", f.0))? }
    }
    Ok(())
}

// ---------------------------------------------------------------- the scenarios
pub struct Init<P>(pub Ids, pub std::marker::PhantomData<fn() -> P>);
impl<P: SchemeParams> Init<P> { pub fn of(v: &[u8]) -> Self { Init(ids_of(v), Default::default()) } }
impl<P: SchemeParams> Scen for Init<P> {
    type Pr = KeyInitProtocol<P, u8>;
    fn name(&self) -> String { format!("key init {:?}", self.0) }
    fn ids(&self) -> Ids { self.0.clone() }
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String> {
        Net::new(shared, fmt, seed, self.0.iter().map(|i| Ok((*i, KeyInit::<P, u8>::new(self.0.clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?)
    }
    fn data(&self) -> KeyInitAssociatedData<u8> { KeyInitAssociatedData { ids: self.0.clone() } }
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res { shares_right::<P>(&results(net, honest).into_iter().map(|(i, k)| (i, k.clone())).collect(), &self.0, None) }
}
pub struct Aux<P>(pub Ids, pub std::marker::PhantomData<fn() -> P>);
impl<P: SchemeParams> Aux<P> { pub fn of(v: &[u8]) -> Self { Aux(ids_of(v), Default::default()) } }
impl<P: SchemeParams> Scen for Aux<P> {
    type Pr = AuxGenProtocol<P, u8>;
    fn name(&self) -> String { format!("aux gen {:?}", self.0) }
    fn ids(&self) -> Ids { self.0.clone() }
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String> {
        Net::new(shared, fmt, seed, self.0.iter().map(|i| Ok((*i, AuxGen::<P, u8>::new(self.0.clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?)
    }
    fn data(&self) -> AuxGenAssociatedData<u8> { AuxGenAssociatedData { ids: self.0.clone() } }
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res { aux_right::<P>(&results(net, honest).into_iter().map(|(i, k)| (i, k.clone())).collect(), &self.0) }
}
pub struct Refresh<P>(pub Ids, pub std::marker::PhantomData<fn() -> P>);
impl<P: SchemeParams> Refresh<P> { pub fn of(v: &[u8]) -> Self { Refresh(ids_of(v), Default::default()) } }
impl<P: SchemeParams> Scen for Refresh<P> {
    type Pr = KeyRefreshProtocol<P, u8>;
    fn name(&self) -> String { format!("key refresh {:?}", self.0) }
    fn ids(&self) -> Ids { self.0.clone() }
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String> {
        Net::new(shared, fmt, seed, self.0.iter().map(|i| Ok((*i, KeyRefresh::<P, u8>::new(self.0.clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?)
    }
    fn data(&self) -> KeyRefreshAssociatedData<u8> { KeyRefreshAssociatedData { ids: self.0.clone() } }
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res {
        let r = results(net, honest);
        changes_right::<P>(&r.iter().map(|(i, k)| (*i, k.0.clone())).collect(), &self.0)?;
        aux_right::<P>(&r.iter().map(|(i, k)| (*i, k.1.clone())).collect(), &self.0)
    }
}
pub struct Sign<P: SchemeParams> { pub keys: BTreeMap<u8, KeyShare<P, u8>>, pub aux: BTreeMap<u8, AuxInfo<P, u8>>, pub msg: PrehashedMessage<P::Curve> }
impl<P: SchemeParams> Sign<P> {
    pub fn of(v: &[u8], seed: u64, msg: PrehashedMessage<P::Curve>) -> Self {
        let ids = ids_of(v);
        Sign { keys: KeyShare::new_centralized(&mut DetRng(seed + 17), &ids, None), aux: AuxInfo::new_centralized(&mut DetRng(seed + 18), &ids), msg }
    }
    pub fn vk(&self) -> VerifyingKey<P::Curve> { self.keys.values().next().expect("a share").verifying_key() }
}
impl<P: SchemeParams> Scen for Sign<P> where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8> {
    type Pr = InteractiveSigningProtocol<P, u8>;
    fn name(&self) -> String { format!("signing {:?}", self.ids()) }
    fn ids(&self) -> Ids { self.keys.keys().copied().collect() }
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String> {
        Net::new(shared, fmt, seed, self.keys.iter().map(|(i, k)| Ok((*i, InteractiveSigning::<P, u8>::new(self.msg.clone(), k.clone(), self.aux[i].clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?)
    }
    fn data(&self) -> InteractiveSigningAssociatedData<P, u8> {
        let i = self.keys.keys().next().expect("a party");
        InteractiveSigningAssociatedData::new(self.msg.clone(), self.keys[i].public().clone(), self.aux[i].public().clone()).expect("consistent")
    }
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res { signatures_right::<P>(&results(net, honest), &self.vk(), &self.msg) }
}
pub struct Reshare<P: SchemeParams> { pub old: BTreeMap<u8, ThresholdKeyShare<P, u8>>, pub quorum: Ids, pub new: Ids, pub new_threshold: usize }
impl<P: SchemeParams> Reshare<P> { pub fn vk(&self) -> VerifyingKey<P::Curve> { self.old.values().next().expect("a share").verifying_key().expect("a key") } }
impl<P: SchemeParams> Scen for Reshare<P> {
    type Pr = KeyResharingProtocol<P, u8>;
    fn name(&self) -> String { format!("resharing {}-of-{:?} (by {:?}) to {}-of-{:?}", self.old.values().next().unwrap().threshold(), self.old.keys().collect::<Vec<_>>(), self.quorum, self.new_threshold, self.new) }
    fn ids(&self) -> Ids { self.quorum.union(&self.new).copied().collect() }
    fn start(&self, shared: &[u8], fmt: Fmt, seed: u64) -> Result<Net<Self::Pr>, String> {
        Net::new(shared, fmt, seed, self.ids().into_iter().map(|i| {
            let old = self.quorum.contains(&i).then(|| OldHolder { key_share: self.old[&i].clone() });
            let new = self.new.contains(&i).then(|| NewHolder { verifying_key: self.vk(), old_threshold: self.old.values().next().unwrap().threshold(), old_holders: self.quorum.clone() });
            (i, KeyResharing::new(old, new, self.new.clone(), self.new_threshold))
        }).collect())
    }
    fn data(&self) {}
    fn right(&self, net: &Net<Self::Pr>, honest: &Ids) -> Res {
        let mut shares = BTreeMap::new();
        for (i, r) in results(net, honest) {
            match r { Some(k) => { need(self.new.contains(&i), || format!("{i} is no new holder but has a share"))?; shares.insert(i, k.clone()); } None => need(!self.new.contains(&i), || format!("{i} has no share"))? }
        }
        threshold_right::<P>(&shares, &self.new, self.new_threshold, &self.vk())
    }
}
/// All subsets of a set.
pub fn subsets(ids: &Ids) -> Vec<Ids> {
    let v: Vec<u8> = ids.iter().copied().collect();
    (0..1usize << v.len()).map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect()).collect()
}
pub fn threshold_right<P: SchemeParams>(s: &BTreeMap<u8, ThresholdKeyShare<P, u8>>, ids: &Ids, threshold: usize, vk: &VerifyingKey<P::Curve>) -> Res {
    let mut first: Option<(u8, String)> = None;
    for (id, k) in s {
        need(&k.owner == id, || format!("the share of {id} belongs to {}", k.owner))?;
        need(k.threshold() == threshold, || format!("the threshold at {id} is {}", k.threshold()))?;
        let got = quiet_vk(k)?;
        need(got == *vk, || format!("the verifying key at {id} is another one"))?;
        let public = json(&(&k.public_shares, &k.share_ids));
        match &first { None => first = Some((*id, public)), Some((f, p)) => need(*p == public, || format!("{f} and {id} have different public shares"))? }
    }
    // every quorum
    for q in subsets(ids).into_iter().filter(|q| q.len() == threshold && !q.is_empty()) {
        let have: Vec<u8> = q.iter().copied().filter(|i| s.contains_key(i)).collect();
        let mut additive = BTreeMap::new();
        for i in have { additive.insert(i, super::engine::quiet(|| s[&i].to_key_share(&q)).map_err(|p| format!("to_key_share for {q:?} panics: {p}"))?.map_err(|e| format!("to_key_share for {q:?}: {e}"))?); }
        shares_right::<P>(&additive, &q, Some(vk)).map_err(|e| format!("quorum {q:?}: {e}"))?;
    }
    // fewer shares do not determine the key
    for q in subsets(ids).into_iter().filter(|q| large::<P>() && q.len() < threshold && !q.is_empty() && q.iter().all(|i| s.contains_key(i))) {
        let sum = q.iter().fold(Scalar::<P>::ZERO, |a, i| a + *s[i].secret_share.expose_secret() * crate::tools::sss::interpolation_coeff(q.iter().map(|j| &s[i].share_ids[j]), &s[i].share_ids[i]));
        need(vk_of(&sum.mul_by_generator()).as_ref() != Some(vk), || format!("the key follows from the shares of {q:?} only"))?;
    }
    Ok(())
}
fn quiet_vk<P: SchemeParams>(k: &ThresholdKeyShare<P, u8>) -> Result<VerifyingKey<P::Curve>, String> { super::engine::quiet(|| k.verifying_key()).map_err(|p| format!("verifying_key panics: {p}"))?.map_err(|e| e.to_string()) }

/// Reorders what each node receives, by the choices made so far.
pub struct Order(pub BTreeMap<(u8, u8), usize>);
/// The `k`-th permutation.
pub fn permute<T>(v: &mut Vec<T>, mut k: usize) { let mut src: Vec<T> = v.drain(..).collect(); while !src.is_empty() { let i = k % src.len(); k /= src.len(); v.push(src.remove(i)); } }
pub fn factorial(n: usize) -> usize { (1..=n).product() }
impl Meddle for Order { fn order(&mut self, round: u8, to: u8, from: &mut Vec<u8>) { if let Some(k) = self.0.get(&(round, to)) { permute(from, *k) } } }
/// Everybody finishes and the results are right.
pub fn finished<S: Scen>(s: &S, net: &Net<S::Pr>) -> Res {
    need(net.nodes.values().all(|n| matches!(n.st, St::Done(_))), || format!("not everybody finished: {}", net.describe()))?;
    s.right(net, &s.ids())
}
