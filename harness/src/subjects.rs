//! Adapters between the model's values and the real types.

use crate::model::{Kind, Rule, Val, TYPES};
use std::io::Write;
use stratumv2::codec::{frame, unframe, ByteParser, Deserializable, Frameable, Message, Serializable};
use stratumv2::common::{self, ChannelEndpointChanged, Protocol, SetupConnectionErrorCode};
use stratumv2::error::{Error, Result};
use stratumv2::noise::{Signature, SignatureNoiseMessage};
use stratumv2::types::{MessageType, B0_16M, B0_255, B0_31, B0_32, B0_64K, STR0_255, STR0_32, U24, U256};
use stratumv2::{job_negotiation as jn, mining};

pub const SETUP_CODES: &[&str] = &[
    "unsupported-feature-flags",
    "unsupported-protocol",
    "protocol-version-mismatch",
];
pub const OPEN_CODES: &[&str] = &["unknown-user", "max-target-out-of-range"];
pub const SETUP_CODE_V: [SetupConnectionErrorCode; 3] = [
    SetupConnectionErrorCode::UnsupportedFeatureFlags,
    SetupConnectionErrorCode::UnsupportedProtocol,
    SetupConnectionErrorCode::ProtocolVersionMismatch,
];
pub fn open_code_v() -> [mining::OpenMiningChannelErrorCode; 2] {
    [
        mining::OpenMiningChannelErrorCode::UnknownUser,
        mining::OpenMiningChannelErrorCode::MaxTargetOutOfRange,
    ]
}
pub const PROTO_V: [Protocol; 4] = [
    Protocol::Mining,
    Protocol::JobNegotiation,
    Protocol::TemplateDistribution,
    Protocol::JobDistribution,
];
pub const MT_V: [MessageType; 29] = [
    MessageType::SetupConnection,
    MessageType::SetupConnectionSuccess,
    MessageType::SetupConnectionError,
    MessageType::ChannelEndpointChanged,
    MessageType::OpenStandardMiningChannel,
    MessageType::OpenStandardMiningChannelSuccess,
    MessageType::OpenStandardMiningChannelError,
    MessageType::OpenExtendedMiningChannel,
    MessageType::OpenExtendedMiningChannelSuccess,
    MessageType::OpenExtendedMiningChannelError,
    MessageType::UpdateChannel,
    MessageType::UpdateChannelError,
    MessageType::CloseChannel,
    MessageType::SetExtranoncePrefix,
    MessageType::SubmitSharesStandard,
    MessageType::SubmitSharesExtended,
    MessageType::SubmitSharesSuccess,
    MessageType::SubmitSharesError,
    MessageType::NewMiningJob,
    MessageType::NewExtendedMiningJob,
    MessageType::SetNewPrevHash,
    MessageType::SetTarget,
    MessageType::SetCustomMiningJob,
    MessageType::SetCustomMiningJobSuccess,
    MessageType::SetCustomMiningJobError,
    MessageType::Reconnect,
    MessageType::SetGroupChannel,
    MessageType::TestMessage1,
    MessageType::TestMessage2,
];
pub fn mt_index(t: MessageType) -> usize {
    MT_V.iter().position(|x| *x == t).expect("message type of the table")
}

pub trait Adapt: Serializable + Deserializable + Sized {
    fn build(v: &Val) -> Result<Self>;
    fn read(&self) -> Val;
    /// The recorded length fields agree with the contents.
    fn lens_ok(&self) -> bool {
        true
    }
    fn same(&self, _o: &Self) -> Option<bool> {
        None
    }
    fn unlike(&self, _o: &Self) -> Option<bool> {
        None
    }
    fn copy(&self) -> Option<Self> {
        None
    }
}

pub struct Subject {
    pub name: &'static str,
    pub kind: Kind,
    /// index into TYPES of the frame type of a message
    pub ftype: Option<usize>,
    pub build: fn(&Val) -> Result<()>,
    /// construct (outer result), encode into the writer (inner result)
    pub encode_to: fn(&Val, &mut dyn Write) -> Result<Result<usize>>,
    pub decode_at: fn(&[u8], usize) -> Result<(Val, usize)>,
    /// decode and keep nothing: for allocation monitoring
    pub decode_drop: fn(&[u8]) -> bool,
    /// decode and re-encode
    pub reencode: fn(&[u8]) -> Result<Vec<u8>>,
    pub lens_ok: fn(&Val) -> Result<bool>,
    pub equal: fn(&Val, &Val) -> Result<Option<bool>>,
    /// a == b, b == a, a != b, b != a for values obtained by the given routes
    pub relate: fn(&Val, u8, &Val, u8) -> Result<Option<[bool; 4]>>,
    /// a clone whose original is gone, read and encoded; the original read after the clone is gone
    pub cloned: fn(&Val) -> Result<Option<(Val, Vec<u8>, Val)>>,
    /// decode several values one after another with one parser; where the last one
    /// ended, or the error that ended the sequence
    pub decode_seq: fn(&[u8], usize) -> (Vec<Val>, Result<usize>),
    /// decode values until the bytes end, keeping none; how many
    pub consume: fn(&[u8]) -> usize,
    /// construct once, encode so many times into the writer, one after another
    pub produce: fn(&Val, usize, &mut dyn Write) -> Result<usize>,
    pub frame: Option<fn(&Val) -> Result<Message>>,
    pub unframe: Option<fn(&Message) -> Result<Val>>,
}

/// Position of a parser over `b`, observed through its public interface.
fn position(p: &mut ByteParser, b: &[u8]) -> usize {
    match p.next_by(1) {
        Ok(s) => s.as_ptr() as usize - b.as_ptr() as usize,
        Err(_) => b.len(),
    }
}

impl Subject {
    pub fn encode(&self, v: &Val) -> Result<Result<(Vec<u8>, usize)>> {
        let mut o = Vec::new();
        Ok(match (self.encode_to)(v, &mut o)? {
            Ok(n) => Ok((o, n)),
            Err(e) => Err(e),
        })
    }
    pub fn decode(&self, b: &[u8]) -> Result<(Val, usize)> {
        (self.decode_at)(b, 0)
    }
}

fn build_<T: Adapt>(v: &Val) -> Result<()> {
    T::build(v).map(|_| ())
}
fn encode_to_<T: Adapt>(v: &Val, mut w: &mut dyn Write) -> Result<Result<usize>> {
    let t = T::build(v)?;
    Ok(t.serialize(&mut w))
}
fn decode_at_<T: Adapt>(b: &[u8], start: usize) -> Result<(Val, usize)> {
    let mut p = ByteParser::new(b, start);
    let t = T::deserialize(&mut p)?;
    Ok((t.read(), position(&mut p, b)))
}
fn decode_drop_<T: Adapt>(b: &[u8]) -> bool {
    stratumv2::codec::deserialize::<T>(b).is_ok()
}
fn reencode_<T: Adapt>(b: &[u8]) -> Result<Vec<u8>> {
    stratumv2::codec::serialize(&stratumv2::codec::deserialize::<T>(b)?)
}
fn lens_ok_<T: Adapt>(v: &Val) -> Result<bool> {
    Ok(T::build(v)?.lens_ok())
}
fn equal_<T: Adapt>(a: &Val, b: &Val) -> Result<Option<bool>> {
    Ok(T::build(a)?.same(&T::build(b)?))
}
pub const ROUTES: [&str; 3] = ["constructed", "decoded", "cloned"];
fn obtain<T: Adapt>(v: &Val, route: u8) -> Result<T> {
    let t = T::build(v)?;
    match route {
        1 => stratumv2::codec::deserialize::<T>(&stratumv2::codec::serialize(&t)?),
        2 => Ok(t.copy().unwrap_or(t)),
        _ => Ok(t),
    }
}
fn relate_<T: Adapt>(a: &Val, ra: u8, b: &Val, rb: u8) -> Result<Option<[bool; 4]>> {
    let (a, b): (T, T) = (obtain(a, ra)?, obtain(b, rb)?);
    Ok((|| Some([a.same(&b)?, b.same(&a)?, a.unlike(&b)?, b.unlike(&a)?]))())
}
fn cloned_<T: Adapt>(v: &Val) -> Result<Option<(Val, Vec<u8>, Val)>> {
    let t = T::build(v)?;
    let x = match t.copy() {
        Some(x) => x,
        None => return Ok(None),
    };
    drop(x);
    let y = t.copy().unwrap();
    let after = t.read();
    drop(t);
    let _scribble = vec![0xa5u8; 300];
    Ok(Some((y.read(), stratumv2::codec::serialize(&y)?, after)))
}
fn decode_seq_<T: Adapt>(b: &[u8], max: usize) -> (Vec<Val>, Result<usize>) {
    let mut p = ByteParser::new(b, 0);
    let mut out = Vec::new();
    for _ in 0..max {
        match T::deserialize(&mut p) {
            Ok(t) => out.push(t.read()),
            Err(e) => return (out, Err(e)),
        }
    }
    (out, Ok(position(&mut p, b)))
}
fn consume_<T: Adapt>(b: &[u8]) -> usize {
    let mut p = ByteParser::new(b, 0);
    let mut n = 0;
    while n < b.len() && T::deserialize(&mut p).is_ok() {
        n += 1;
    }
    n
}
fn produce_<T: Adapt>(v: &Val, n: usize, mut w: &mut dyn Write) -> Result<usize> {
    let t = T::build(v)?;
    let mut k = 0;
    for _ in 0..n {
        k += t.serialize(&mut w)?;
    }
    Ok(k)
}
fn frame_<T: Adapt + Frameable>(v: &Val) -> Result<Message> {
    frame(&T::build(v)?)
}
fn unframe_<T: Adapt + Frameable>(m: &Message) -> Result<Val> {
    Ok(unframe::<T>(m)?.read())
}

fn subj<T: Adapt>(name: &'static str, kind: Kind) -> Subject {
    Subject {
        name,
        kind,
        ftype: None,
        build: build_::<T>,
        encode_to: encode_to_::<T>,
        decode_at: decode_at_::<T>,
        decode_drop: decode_drop_::<T>,
        reencode: reencode_::<T>,
        lens_ok: lens_ok_::<T>,
        equal: equal_::<T>,
        relate: relate_::<T>,
        cloned: cloned_::<T>,
        decode_seq: decode_seq_::<T>,
        consume: consume_::<T>,
        produce: produce_::<T>,
        frame: None,
        unframe: None,
    }
}
fn fsubj<T: Adapt + Frameable>(name: &'static str, ftype: &str, kind: Kind) -> Subject {
    let mut s = subj::<T>(name, kind);
    s.ftype = Some(TYPES.iter().position(|t| t.0 == ftype).unwrap());
    s.frame = Some(frame_::<T>);
    s.unframe = Some(unframe_::<T>);
    s
}

macro_rules! adapt_int {
    ($t:ty) => {
        impl Adapt for $t {
            fn build(v: &Val) -> Result<Self> {
                Ok(v.u() as $t)
            }
            fn read(&self) -> Val {
                Val::U(*self as u64)
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_int!(u8);
adapt_int!(u16);
adapt_int!(u32);
impl Adapt for bool {
    fn build(v: &Val) -> Result<Self> {
        Ok(v.u() == 1)
    }
    fn read(&self) -> Val {
        Val::U(*self as u64)
    }
}
impl Adapt for f32 {
    fn build(v: &Val) -> Result<Self> {
        Ok(v.f())
    }
    fn read(&self) -> Val {
        Val::F(self.to_bits())
    }
}
impl Adapt for U24 {
    fn build(v: &Val) -> Result<Self> {
        U24::new(v.u() as u32)
    }
    fn read(&self) -> Val {
        Val::U(self.0 as u64)
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for U256 {
    fn build(v: &Val) -> Result<Self> {
        Ok(U256::from(v.a32()))
    }
    fn read(&self) -> Val {
        Val::A(self.0.to_vec())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
macro_rules! adapt_bytes {
    ($t:ident, $l:expr) => {
        impl Adapt for $t {
            fn build(v: &Val) -> Result<Self> {
                $t::new(v.b())
            }
            fn read(&self) -> Val {
                Val::B(self.data.clone())
            }
            fn lens_ok(&self) -> bool {
                let f: fn(&$t) -> usize = $l;
                f(self) == self.data.len()
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_bytes!(B0_31, |x| x.length as usize);
adapt_bytes!(B0_32, |x| x.length as usize);
adapt_bytes!(B0_255, |x| x.length as usize);
adapt_bytes!(B0_64K, |x| x.length as usize);
adapt_bytes!(B0_16M, |x| x.length.0 as usize);
macro_rules! adapt_str {
    ($t:ident) => {
        impl Adapt for $t {
            fn build(v: &Val) -> Result<Self> {
                $t::new(v.s())
            }
            fn read(&self) -> Val {
                Val::S(self.data.clone())
            }
            fn lens_ok(&self) -> bool {
                self.length as usize == self.data.len()
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_str!(STR0_32);
adapt_str!(STR0_255);
macro_rules! adapt_flags {
    ($t:ty) => {
        impl Adapt for $t {
            fn build(v: &Val) -> Result<Self> {
                <$t>::from_bits(v.u() as u32).ok_or(Error::UnknownFlags())
            }
            fn read(&self) -> Val {
                Val::U(self.bits() as u64)
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_flags!(mining::SetupConnectionFlags);
adapt_flags!(mining::SetupConnectionSuccessFlags);
adapt_flags!(jn::SetupConnectionFlags);
adapt_flags!(jn::SetupConnectionSuccessFlags);
impl Adapt for SetupConnectionErrorCode {
    fn build(v: &Val) -> Result<Self> {
        Ok(SETUP_CODE_V[v.code()])
    }
    fn read(&self) -> Val {
        Val::Code(SETUP_CODE_V.iter().position(|x| x == self).unwrap())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for mining::OpenMiningChannelErrorCode {
    fn build(v: &Val) -> Result<Self> {
        Ok(open_code_v()[v.code()].clone())
    }
    fn read(&self) -> Val {
        Val::Code(open_code_v().iter().position(|x| x == self).unwrap())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for Signature {
    fn build(v: &Val) -> Result<Self> {
        Ok(<Signature as ed25519_dalek::ed25519::signature::Signature>::from_bytes(&v.b())?)
    }
    fn read(&self) -> Val {
        Val::A(self.to_bytes().to_vec())
    }
}
impl Adapt for Protocol {
    fn build(v: &Val) -> Result<Self> {
        Ok(PROTO_V[v.u() as usize])
    }
    fn read(&self) -> Val {
        Val::U(PROTO_V.iter().position(|x| x == self).unwrap() as u64)
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for Message {
    fn build(v: &Val) -> Result<Self> {
        match v {
            Val::Frame(t, p) => Ok(Message::new(MT_V[*t], p.clone())),
            _ => panic!("model: not a frame"),
        }
    }
    fn read(&self) -> Val {
        Val::Frame(mt_index(self.message_type), self.payload.clone())
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for SignatureNoiseMessage {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Ok(SignatureNoiseMessage {
            version: m[0].u() as u16,
            valid_from: m[1].u() as u32,
            not_valid_after: m[2].u() as u32,
            signature: Signature::build(&m[3])?,
        })
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.version.read(),
            self.valid_from.read(),
            self.not_valid_after.read(),
            self.signature.read(),
        ])
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}

macro_rules! adapt_setup {
    ($m:ident) => {
        impl Adapt for $m::SetupConnection {
            fn build(v: &Val) -> Result<Self> {
                let m = v.m();
                $m::SetupConnection::new(
                    m[0].u() as u16,
                    m[1].u() as u16,
                    $m::SetupConnectionFlags::build(&m[2])?,
                    m[3].s(),
                    m[4].u() as u16,
                    m[5].s(),
                    m[6].s(),
                    m[7].s(),
                    m[8].s(),
                )
            }
            fn read(&self) -> Val {
                Val::M(vec![
                    self.min_version.read(),
                    self.max_version.read(),
                    self.flags.read(),
                    self.endpoint_host.read(),
                    self.endpoint_port.read(),
                    self.vendor.read(),
                    self.hardware_version.read(),
                    self.firmware.read(),
                    self.device_id.read(),
                ])
            }
            fn lens_ok(&self) -> bool {
                self.endpoint_host.lens_ok()
                    && self.vendor.lens_ok()
                    && self.hardware_version.lens_ok()
                    && self.firmware.lens_ok()
                    && self.device_id.lens_ok()
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
        impl Adapt for $m::SetupConnectionSuccess {
            fn build(v: &Val) -> Result<Self> {
                let m = v.m();
                $m::SetupConnectionSuccess::new(
                    m[0].u() as u16,
                    $m::SetupConnectionSuccessFlags::build(&m[1])?,
                )
            }
            fn read(&self) -> Val {
                Val::M(vec![self.used_version.read(), self.flags.read()])
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
        impl Adapt for $m::SetupConnectionError {
            fn build(v: &Val) -> Result<Self> {
                let m = v.m();
                $m::SetupConnectionError::new(
                    $m::SetupConnectionFlags::build(&m[0])?,
                    SetupConnectionErrorCode::build(&m[1])?,
                )
            }
            fn read(&self) -> Val {
                Val::M(vec![self.flags.read(), self.error_code.read()])
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_setup!(mining);
adapt_setup!(jn);

impl Adapt for common::SetupConnection {
    fn build(v: &Val) -> Result<Self> {
        match v {
            Val::Setup(0, v) => {
                let m = v.m();
                common::SetupConnection::new_mining(
                    m[0].u() as u16,
                    m[1].u() as u16,
                    mining::SetupConnectionFlags::build(&m[2])?,
                    m[3].s(),
                    m[4].u() as u16,
                    m[5].s(),
                    m[6].s(),
                    m[7].s(),
                    m[8].s(),
                )
            }
            Val::Setup(_, v) => {
                let m = v.m();
                common::SetupConnection::new_job_negotation(
                    m[0].u() as u16,
                    m[1].u() as u16,
                    jn::SetupConnectionFlags::build(&m[2])?,
                    m[3].s(),
                    m[4].u() as u16,
                    m[5].s(),
                    m[6].s(),
                    m[7].s(),
                    m[8].s(),
                )
            }
            _ => panic!("model: not a setup message"),
        }
    }
    fn read(&self) -> Val {
        match self {
            common::SetupConnection::Mining(m) => Val::Setup(0, Box::new(m.read())),
            common::SetupConnection::JobNegotiation(m) => Val::Setup(1, Box::new(m.read())),
        }
    }
    fn lens_ok(&self) -> bool {
        match self {
            common::SetupConnection::Mining(m) => m.lens_ok(),
            common::SetupConnection::JobNegotiation(m) => m.lens_ok(),
        }
    }
}

impl Adapt for ChannelEndpointChanged {
    fn build(v: &Val) -> Result<Self> {
        ChannelEndpointChanged::new(v.m()[0].u() as u32)
    }
    fn read(&self) -> Val {
        Val::M(vec![self.channel_id.read()])
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for mining::OpenStandardMiningChannel {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Self::new(m[0].u() as u32, m[1].s(), m[2].f(), m[3].a32())
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.request_id.read(),
            self.user_identity.read(),
            self.nominal_hash_rate.read(),
            self.max_target.read(),
        ])
    }
    fn lens_ok(&self) -> bool {
        self.user_identity.lens_ok()
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for mining::OpenStandardMiningChannelSuccess {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Self::new(
            m[0].u() as u32,
            m[1].u() as u32,
            m[2].a32(),
            m[3].b(),
            m[4].u() as u32,
        )
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.request_id.read(),
            self.channel_id.read(),
            self.target.read(),
            self.extranonce_prefix.read(),
            self.group_channel_id.read(),
        ])
    }
    fn lens_ok(&self) -> bool {
        self.extranonce_prefix.lens_ok()
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
macro_rules! adapt_open_error {
    ($t:ident) => {
        impl Adapt for mining::$t {
            fn build(v: &Val) -> Result<Self> {
                let m = v.m();
                Self::new(
                    m[0].u() as u32,
                    mining::OpenMiningChannelErrorCode::build(&m[1])?,
                )
            }
            fn read(&self) -> Val {
                Val::M(vec![self.request_id.read(), self.error_code.read()])
            }
            fn same(&self, o: &Self) -> Option<bool> {
                Some(self == o)
            }
            fn unlike(&self, o: &Self) -> Option<bool> {
                Some(self != o)
            }
            fn copy(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
adapt_open_error!(OpenStandardMiningChannelError);
adapt_open_error!(OpenExtendedMiningChannelError);
impl Adapt for mining::OpenExtendedMiningChannel {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Self::new(m[0].u() as u32, m[1].s(), m[2].f(), m[3].a32(), m[4].u() as u16)
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.request_id.read(),
            self.user_identity.read(),
            self.nominal_hash_rate.read(),
            self.max_target.read(),
            self.min_extranonce_size.read(),
        ])
    }
    fn lens_ok(&self) -> bool {
        self.user_identity.lens_ok()
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for mining::OpenExtendedMiningChannelSuccess {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Self::new(
            m[0].u() as u32,
            m[1].u() as u32,
            m[2].a32(),
            m[3].u() as u16,
            m[4].b(),
        )
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.request_id.read(),
            self.channel_id.read(),
            self.target.read(),
            self.extranonce_size.read(),
            self.extranonce_prefix.read(),
        ])
    }
    fn lens_ok(&self) -> bool {
        self.extranonce_prefix.lens_ok()
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl Adapt for mining::UpdateChannel {
    fn build(v: &Val) -> Result<Self> {
        let m = v.m();
        Self::new(m[0].u() as u32, m[1].f(), m[2].a32())
    }
    fn read(&self) -> Val {
        Val::M(vec![
            self.channel_id.read(),
            self.nominal_hash_rate.read(),
            self.max_target.read(),
        ])
    }
    fn same(&self, o: &Self) -> Option<bool> {
        Some(self == o)
    }
    fn unlike(&self, o: &Self) -> Option<bool> {
        Some(self != o)
    }
    fn copy(&self) -> Option<Self> {
        Some(self.clone())
    }
}

fn setup_kind(mask: u32) -> Kind {
    let s = Kind::Str(255);
    Kind::Msg(
        Rule::SetupConnection,
        vec![
            ("min_version", Kind::U16),
            ("max_version", Kind::U16),
            ("flags", Kind::Flags(mask)),
            ("endpoint_host", s.clone()),
            ("endpoint_port", Kind::U16),
            ("vendor", s.clone()),
            ("hardware_version", s.clone()),
            ("firmware", s.clone()),
            ("device_id", s),
        ],
    )
}
fn msg(f: Vec<(&'static str, Kind)>) -> Kind {
    Kind::Msg(Rule::None, f)
}

pub const M_FLAGS: u32 = 7;
pub const M_SUCC: u32 = 3;
pub const J_FLAGS: u32 = 1;
pub const J_SUCC: u32 = 0;

/// Every encodable and decodable type, with its specification.
pub fn subjects() -> &'static [Subject] {
    static S: std::sync::OnceLock<Vec<Subject>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        let id = |n| (n, Kind::U32);
        let u256 = |n| (n, Kind::U256);
        let rate = ("nominal_hash_rate", Kind::F32);
        let user = ("user_identity", Kind::Str(255));
        let pre = ("extranonce_prefix", Kind::Bytes(1, 32));
        let err = |mask| {
            Kind::Msg(
                Rule::SetupError,
                vec![("flags", Kind::Flags(mask)), ("error_code", Kind::Code(SETUP_CODES))],
            )
        };
        vec![
            subj::<bool>("bool", Kind::Bool),
            subj::<u8>("u8", Kind::U8),
            subj::<u16>("u16", Kind::U16),
            subj::<u32>("u32", Kind::U32),
            subj::<f32>("f32", Kind::F32),
            subj::<U24>("U24", Kind::U24),
            subj::<U256>("U256", Kind::U256),
            subj::<B0_31>("B0_31", Kind::Bytes(1, 31)),
            subj::<B0_32>("B0_32", Kind::Bytes(1, 32)),
            subj::<B0_255>("B0_255", Kind::Bytes(1, 255)),
            subj::<B0_64K>("B0_64K", Kind::Bytes(2, 65535)),
            subj::<B0_16M>("B0_16M", Kind::Bytes(3, (1 << 24) - 1)),
            subj::<STR0_32>("STR0_32", Kind::Str(32)),
            subj::<STR0_255>("STR0_255", Kind::Str(255)),
            subj::<mining::SetupConnectionFlags>("mining::SetupConnectionFlags", Kind::Flags(M_FLAGS)),
            subj::<mining::SetupConnectionSuccessFlags>("mining::SetupConnectionSuccessFlags", Kind::Flags(M_SUCC)),
            subj::<jn::SetupConnectionFlags>("job_negotiation::SetupConnectionFlags", Kind::Flags(J_FLAGS)),
            subj::<jn::SetupConnectionSuccessFlags>("job_negotiation::SetupConnectionSuccessFlags", Kind::Flags(J_SUCC)),
            subj::<SetupConnectionErrorCode>("SetupConnectionErrorCode", Kind::Code(SETUP_CODES)),
            subj::<mining::OpenMiningChannelErrorCode>("OpenMiningChannelErrorCode", Kind::Code(OPEN_CODES)),
            subj::<Protocol>("Protocol", Kind::Proto),
            subj::<Signature>("Signature", Kind::Sig),
            subj::<SignatureNoiseMessage>(
                "SignatureNoiseMessage",
                msg(vec![
                    ("version", Kind::U16),
                    ("valid_from", Kind::U32),
                    ("not_valid_after", Kind::U32),
                    ("signature", Kind::Sig),
                ]),
            ),
            subj::<Message>("Message", Kind::Frame),
            fsubj::<common::SetupConnection>(
                "common::SetupConnection",
                "SetupConnection",
                Kind::Setup(Box::new(setup_kind(M_FLAGS)), Box::new(setup_kind(J_FLAGS))),
            ),
            fsubj::<mining::SetupConnection>("mining::SetupConnection", "SetupConnection", setup_kind(M_FLAGS)),
            fsubj::<jn::SetupConnection>("job_negotiation::SetupConnection", "SetupConnection", setup_kind(J_FLAGS)),
            fsubj::<mining::SetupConnectionSuccess>(
                "mining::SetupConnectionSuccess",
                "SetupConnectionSuccess",
                msg(vec![("used_version", Kind::U16), ("flags", Kind::Flags(M_SUCC))]),
            ),
            fsubj::<jn::SetupConnectionSuccess>(
                "job_negotiation::SetupConnectionSuccess",
                "SetupConnectionSuccess",
                msg(vec![("used_version", Kind::U16), ("flags", Kind::Flags(J_SUCC))]),
            ),
            fsubj::<mining::SetupConnectionError>("mining::SetupConnectionError", "SetupConnectionError", err(M_FLAGS)),
            fsubj::<jn::SetupConnectionError>("job_negotiation::SetupConnectionError", "SetupConnectionError", err(J_FLAGS)),
            fsubj::<ChannelEndpointChanged>(
                "ChannelEndpointChanged",
                "ChannelEndpointChanged",
                msg(vec![id("channel_id")]),
            ),
            fsubj::<mining::OpenStandardMiningChannel>(
                "OpenStandardMiningChannel",
                "OpenStandardMiningChannel",
                msg(vec![id("request_id"), user.clone(), rate.clone(), u256("max_target")]),
            ),
            fsubj::<mining::OpenStandardMiningChannelSuccess>(
                "OpenStandardMiningChannelSuccess",
                "OpenStandardMiningChannelSuccess",
                msg(vec![
                    id("request_id"),
                    id("channel_id"),
                    u256("target"),
                    pre.clone(),
                    id("group_channel_id"),
                ]),
            ),
            fsubj::<mining::OpenStandardMiningChannelError>(
                "OpenStandardMiningChannelError",
                "OpenStandardMiningChannelError",
                msg(vec![id("request_id"), ("error_code", Kind::Code(OPEN_CODES))]),
            ),
            fsubj::<mining::OpenExtendedMiningChannel>(
                "OpenExtendedMiningChannel",
                "OpenExtendedMiningChannel",
                msg(vec![
                    id("request_id"),
                    user,
                    rate.clone(),
                    u256("max_target"),
                    ("min_extranonce_size", Kind::U16),
                ]),
            ),
            fsubj::<mining::OpenExtendedMiningChannelSuccess>(
                "OpenExtendedMiningChannelSuccess",
                "OpenExtendedMiningChannelSuccess",
                msg(vec![
                    id("request_id"),
                    id("channel_id"),
                    u256("target"),
                    ("extranonce_size", Kind::U16),
                    pre,
                ]),
            ),
            fsubj::<mining::OpenExtendedMiningChannelError>(
                "OpenExtendedMiningChannelError",
                "OpenExtendedMiningChannelError",
                msg(vec![id("request_id"), ("error_code", Kind::Code(OPEN_CODES))]),
            ),
            fsubj::<mining::UpdateChannel>(
                "UpdateChannel",
                "UpdateChannel",
                msg(vec![id("channel_id"), rate, u256("max_target")]),
            ),
        ]
    })
}

pub fn by_name(n: &str) -> &'static Subject {
    subjects().iter().find(|s| s.name == n).unwrap()
}
pub fn messages() -> Vec<&'static Subject> {
    subjects().iter().filter(|s| s.ftype.is_some()).collect()
}
