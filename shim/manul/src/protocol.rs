//! `manul::protocol`.
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};

use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

pub use crate::format::BoxedFormat;

// ---------------------------------------------------------------- ids and errors

pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}
impl<T> PartyId for T where T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + for<'de> Deserialize<'de> {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LocalError(String);
impl LocalError {
    pub fn new(message: impl Into<String>) -> Self {
        Self(message.into())
    }
}
impl Display for LocalError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Local error: {}", self.0)
    }
}
impl std::error::Error for LocalError {}

#[derive(Debug, Clone)]
pub struct RemoteError(pub String);

#[derive(Debug, Clone)]
pub struct DirectMessageError(pub String);
#[derive(Debug, Clone)]
pub struct EchoBroadcastError(pub String);
#[derive(Debug, Clone)]
pub struct NormalBroadcastError(pub String);

#[derive(Debug, Clone)]
pub enum MessageValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for MessageValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}

#[derive(Debug, Clone)]
pub enum ProtocolValidationError {
    Local(LocalError),
    InvalidEvidence(String),
}
impl From<LocalError> for ProtocolValidationError {
    fn from(e: LocalError) -> Self {
        Self::Local(e)
    }
}
// In manul a deserialization failure here means that the evidence itself is malformed.
impl From<DirectMessageError> for ProtocolValidationError {
    fn from(e: DirectMessageError) -> Self {
        Self::InvalidEvidence(format!("Failed to deserialize direct message: {}", e.0))
    }
}
impl From<EchoBroadcastError> for ProtocolValidationError {
    fn from(e: EchoBroadcastError) -> Self {
        Self::InvalidEvidence(format!("Failed to deserialize echo broadcast: {}", e.0))
    }
}
impl From<NormalBroadcastError> for ProtocolValidationError {
    fn from(e: NormalBroadcastError) -> Self {
        Self::InvalidEvidence(format!("Failed to deserialize normal broadcast: {}", e.0))
    }
}

#[derive(Debug)]
pub enum ReceiveErrorType<Id: PartyId, P: Protocol<Id>> {
    InvalidDirectMessage(DirectMessageError),
    InvalidEchoBroadcast(EchoBroadcastError),
    InvalidNormalBroadcast(NormalBroadcastError),
    Protocol(P::ProtocolError),
    Unprovable(RemoteError),
    Local(LocalError),
    #[allow(dead_code)]
    Phantom(std::marker::PhantomData<Id>),
}

#[derive(Debug)]
pub struct ReceiveError<Id: PartyId, P: Protocol<Id>>(pub ReceiveErrorType<Id, P>);

impl<Id: PartyId, P: Protocol<Id>> ReceiveError<Id, P> {
    pub fn local(message: impl Into<String>) -> Self {
        Self(ReceiveErrorType::Local(LocalError::new(message)))
    }
    pub fn unprovable(message: impl Into<String>) -> Self {
        Self(ReceiveErrorType::Unprovable(RemoteError(message.into())))
    }
    pub fn protocol(error: P::ProtocolError) -> Self {
        Self(ReceiveErrorType::Protocol(error))
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
    fn from(e: LocalError) -> Self {
        Self(ReceiveErrorType::Local(e))
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<DirectMessageError> for ReceiveError<Id, P> {
    fn from(e: DirectMessageError) -> Self {
        Self(ReceiveErrorType::InvalidDirectMessage(e))
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<EchoBroadcastError> for ReceiveError<Id, P> {
    fn from(e: EchoBroadcastError) -> Self {
        Self(ReceiveErrorType::InvalidEchoBroadcast(e))
    }
}
impl<Id: PartyId, P: Protocol<Id>> From<NormalBroadcastError> for ReceiveError<Id, P> {
    fn from(e: NormalBroadcastError) -> Self {
        Self(ReceiveErrorType::InvalidNormalBroadcast(e))
    }
}

// ---------------------------------------------------------------- rounds

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RoundId(u8);
impl RoundId {
    pub fn new(n: u8) -> Self {
        Self(n)
    }
    pub fn number(&self) -> u8 {
        self.0
    }
}
impl From<u8> for RoundId {
    fn from(n: u8) -> Self {
        Self(n)
    }
}
impl PartialEq<u8> for RoundId {
    fn eq(&self, n: &u8) -> bool {
        self.0 == *n
    }
}

#[derive(Debug, Clone)]
pub struct TransitionInfo {
    pub id: RoundId,
    pub parents: BTreeSet<RoundId>,
    pub siblings: BTreeSet<RoundId>,
    pub children: BTreeSet<RoundId>,
    pub may_produce_result: bool,
}
impl TransitionInfo {
    pub fn new_linear(n: u8) -> Self {
        Self {
            id: RoundId(n),
            parents: if n == 1 { BTreeSet::new() } else { [RoundId(n - 1)].into() },
            siblings: BTreeSet::new(),
            children: [RoundId(n + 1)].into(),
            may_produce_result: false,
        }
    }
    pub fn new_linear_terminating(n: u8) -> Self {
        Self {
            id: RoundId(n),
            parents: if n == 1 { BTreeSet::new() } else { [RoundId(n - 1)].into() },
            siblings: BTreeSet::new(),
            children: BTreeSet::new(),
            may_produce_result: true,
        }
    }
    pub fn with_siblings(mut self, siblings: BTreeSet<u8>) -> Self {
        self.siblings = siblings.into_iter().map(RoundId).collect();
        self
    }
    // manul's `with_children` keeps the linear child and adds the given ones.
    pub fn with_children(mut self, children: BTreeSet<u8>) -> Self {
        self.children.extend(children.into_iter().map(RoundId));
        self
    }
}

#[derive(Debug, Clone)]
pub enum EchoRoundParticipation<Id> {
    Default,
    Send,
    Receive { echo_targets: BTreeSet<Id> },
}

#[derive(Debug, Clone)]
pub struct CommunicationInfo<Id> {
    pub message_destinations: BTreeSet<Id>,
    pub expecting_messages_from: BTreeSet<Id>,
    pub echo_round_participation: EchoRoundParticipation<Id>,
}
impl<Id: PartyId> CommunicationInfo<Id> {
    pub fn regular(other_parties: &BTreeSet<Id>) -> Self {
        Self {
            message_destinations: other_parties.clone(),
            expecting_messages_from: other_parties.clone(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
    pub fn none() -> Self {
        Self {
            message_destinations: BTreeSet::new(),
            expecting_messages_from: BTreeSet::new(),
            echo_round_participation: EchoRoundParticipation::Default,
        }
    }
}

#[derive(Debug)]
pub struct Payload(Box<dyn Any + Send + Sync>);
impl Payload {
    pub fn new<T: 'static + Send + Sync>(x: T) -> Self {
        Self(Box::new(x))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        Ok(*(self.0.downcast::<T>().map_err(|_| LocalError::new("Failed to downcast Payload"))?))
    }
}
#[derive(Debug)]
pub struct Artifact(Box<dyn Any + Send + Sync>);
impl Artifact {
    pub fn new<T: 'static + Send + Sync>(x: T) -> Self {
        Self(Box::new(x))
    }
    pub fn empty() -> Self {
        Self::new(())
    }
    pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
        Ok(*(self.0.downcast::<T>().map_err(|_| LocalError::new("Failed to downcast Artifact"))?))
    }
}

pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
    AnotherRound(BoxedRound<Id, P>),
    Result(P::Result),
}
impl<Id: PartyId, P: Protocol<Id>> Debug for FinalizeOutcome<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::AnotherRound(_) => f.write_str("AnotherRound"),
            Self::Result(_) => f.write_str("Result"),
        }
    }
}

pub trait Protocol<Id>: 'static + Sized {
    type Result: Debug;
    type ProtocolError: ProtocolError<Id>;
    fn verify_direct_message_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &DirectMessage,
    ) -> Result<(), MessageValidationError>;
    fn verify_echo_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &EchoBroadcast,
    ) -> Result<(), MessageValidationError>;
    fn verify_normal_broadcast_is_invalid(
        format: &BoxedFormat,
        round_id: &RoundId,
        message: &NormalBroadcast,
    ) -> Result<(), MessageValidationError>;
}

pub trait ProtocolError<Id>: Display + Debug + Clone + Serialize + for<'de> Deserialize<'de> {
    type AssociatedData: Debug;
    fn required_messages(&self) -> RequiredMessages;
    #[allow(clippy::too_many_arguments)]
    fn verify_messages_constitute_error(
        &self,
        format: &BoxedFormat,
        guilty_party: &Id,
        shared_randomness: &[u8],
        associated_data: &Self::AssociatedData,
        message: ProtocolMessage,
        previous_messages: BTreeMap<RoundId, ProtocolMessage>,
        combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
    ) -> Result<(), ProtocolValidationError>;
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct RequiredMessageParts {
    pub echo_broadcast: bool,
    pub normal_broadcast: bool,
    pub direct_message: bool,
}
impl RequiredMessageParts {
    fn none() -> Self {
        Self { echo_broadcast: false, normal_broadcast: false, direct_message: false }
    }
    pub fn echo_broadcast() -> Self {
        Self::none().and_echo_broadcast()
    }
    pub fn normal_broadcast() -> Self {
        Self::none().and_normal_broadcast()
    }
    pub fn direct_message() -> Self {
        Self::none().and_direct_message()
    }
    pub fn and_echo_broadcast(mut self) -> Self {
        self.echo_broadcast = true;
        self
    }
    pub fn and_normal_broadcast(mut self) -> Self {
        self.normal_broadcast = true;
        self
    }
    pub fn and_direct_message(mut self) -> Self {
        self.direct_message = true;
        self
    }
}

#[derive(Debug, Clone)]
pub struct RequiredMessages {
    pub this_round: RequiredMessageParts,
    pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
    pub combined_echos: Option<BTreeSet<RoundId>>,
}
impl RequiredMessages {
    pub fn new(
        this_round: RequiredMessageParts,
        previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        combined_echos: Option<BTreeSet<RoundId>>,
    ) -> Self {
        Self { this_round, previous_rounds, combined_echos }
    }
}

// ---------------------------------------------------------------- messages

pub trait ProtocolMessagePart: Sized {
    type Error;
    fn payload(&self) -> Option<&[u8]>;
    fn from_payload(payload: Option<Vec<u8>>) -> Self;
    fn make_error(message: String) -> Self::Error;

    fn new<T: Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError> {
        Ok(Self::from_payload(Some(format.serialize(&message).map_err(LocalError::new)?)))
    }
    fn none() -> Self {
        Self::from_payload(None)
    }
    fn is_none(&self) -> bool {
        self.payload().is_none()
    }
    fn assert_is_none(&self) -> Result<(), Self::Error> {
        if self.is_none() {
            Ok(())
        } else {
            Err(Self::make_error("The payload was expected to be `None`, but contains a message".into()))
        }
    }
    fn verify_is_some(&self) -> Result<(), MessageValidationError> {
        if self.payload().is_some() {
            Ok(())
        } else {
            Err(MessageValidationError::InvalidEvidence(
                "The payload is `None`, as expected".into(),
            ))
        }
    }
    fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
        match self.payload() {
            None => Ok(()),
            Some(p) => {
                if format.deserialize::<T>(p).is_err() {
                    Ok(())
                } else {
                    Err(MessageValidationError::InvalidEvidence(
                        "The payload can be deserialized correctly".into(),
                    ))
                }
            }
        }
    }
    fn deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, Self::Error> {
        let p = self
            .payload()
            .ok_or_else(|| Self::make_error("The payload is `None` and cannot be deserialized".into()))?;
        format.deserialize(p).map_err(Self::make_error)
    }
}

macro_rules! part {
    ($name:ident, $err:ident) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $name(pub Option<Vec<u8>>);
        impl ProtocolMessagePart for $name {
            type Error = $err;
            fn payload(&self) -> Option<&[u8]> {
                self.0.as_deref()
            }
            fn from_payload(payload: Option<Vec<u8>>) -> Self {
                Self(payload)
            }
            fn make_error(message: String) -> Self::Error {
                $err(message)
            }
        }
    };
}
part!(DirectMessage, DirectMessageError);
part!(EchoBroadcast, EchoBroadcastError);
part!(NormalBroadcast, NormalBroadcastError);

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct ProtocolMessage {
    pub echo_broadcast: EchoBroadcast,
    pub normal_broadcast: NormalBroadcast,
    pub direct_message: DirectMessage,
}

// ---------------------------------------------------------------- Round

pub trait Round<Id: PartyId>: 'static + Debug + Send + Sync {
    type Protocol: Protocol<Id>;
    fn transition_info(&self) -> TransitionInfo;
    fn communication_info(&self) -> CommunicationInfo<Id>;
    fn make_direct_message(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
        _destination: &Id,
    ) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
        Ok((DirectMessage::none(), None))
    }
    fn make_echo_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<EchoBroadcast, LocalError> {
        Ok(EchoBroadcast::none())
    }
    fn make_normal_broadcast(
        &self,
        _rng: &mut dyn CryptoRngCore,
        _format: &BoxedFormat,
    ) -> Result<NormalBroadcast, LocalError> {
        Ok(NormalBroadcast::none())
    }
    fn receive_message(
        &self,
        format: &BoxedFormat,
        from: &Id,
        message: ProtocolMessage,
    ) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
    fn finalize(
        self: Box<Self>,
        rng: &mut dyn CryptoRngCore,
        payloads: BTreeMap<Id, Payload>,
        artifacts: BTreeMap<Id, Artifact>,
    ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
}

pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(Box<dyn Round<Id, Protocol = P>>);
impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
    pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
        Self(Box::new(round))
    }
    pub fn as_ref(&self) -> &dyn Round<Id, Protocol = P> {
        self.0.as_ref()
    }
    pub fn into_boxed(self) -> Box<dyn Round<Id, Protocol = P>> {
        self.0
    }
}
impl<Id: PartyId, P: Protocol<Id>> Debug for BoxedRound<Id, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

pub trait EntryPoint<Id: PartyId> {
    type Protocol: Protocol<Id>;
    fn entry_round_id() -> RoundId;
    fn make_round(
        self,
        rng: &mut dyn CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
}
