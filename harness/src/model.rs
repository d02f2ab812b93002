//! The reference model of the wire format: what a value of each type is, its
//! canonical encoding and exactly which byte strings decode to it. Written from
//! the Stratum V2 specification, independent of the code under test.

use crate::dict::dict;
use crate::util::Rng;

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Bool,
    U8,
    U16,
    U32,
    F32,
    U24,
    U256,
    /// UTF-8 text with a 1-byte length, at most `max` bytes
    Str(usize),
    /// bytes with an n-byte little-endian length, at most `max` bytes
    Bytes(usize, usize),
    /// 32-bit flag word with these defined bits
    Flags(u32),
    /// error code: one of these texts, encoded as STR0_255
    Code(&'static [&'static str]),
    /// Ed25519 signature, 64 bytes, scalar below the group order
    Sig,
    /// protocol number 0..=3
    Proto,
    /// a frame: type, payload
    Frame,
    Msg(Rule, Vec<(&'static str, Kind)>),
    /// protocol number 0/1 followed by that sub protocol's message
    Setup(Box<Kind>, Box<Kind>),
}

/// Additional requirements on a message.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule {
    None,
    SetupConnection,
    SetupError,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    U(u64),
    F(u32),
    A(Vec<u8>),
    S(String),
    B(Vec<u8>),
    Code(usize),
    M(Vec<Val>),
    Frame(usize, Vec<u8>),
    Setup(u8, Box<Val>),
}

impl Val {
    pub fn u(&self) -> u64 {
        match self {
            Val::U(v) => *v,
            _ => panic!("model: not an integer"),
        }
    }
    pub fn f(&self) -> f32 {
        match self {
            Val::F(v) => f32::from_bits(*v),
            _ => panic!("model: not a float"),
        }
    }
    pub fn s(&self) -> String {
        match self {
            Val::S(v) => v.clone(),
            _ => panic!("model: not a string"),
        }
    }
    pub fn b(&self) -> Vec<u8> {
        match self {
            Val::B(v) | Val::A(v) => v.clone(),
            _ => panic!("model: not bytes"),
        }
    }
    pub fn a32(&self) -> [u8; 32] {
        let mut a = [0u8; 32];
        a.copy_from_slice(&self.b());
        a
    }
    pub fn code(&self) -> usize {
        match self {
            Val::Code(c) => *c,
            _ => panic!("model: not a code"),
        }
    }
    pub fn m(&self) -> &[Val] {
        match self {
            Val::M(v) => v,
            _ => panic!("model: not a message"),
        }
    }
    pub fn has_nan(&self) -> bool {
        match self {
            Val::F(b) => f32::from_bits(*b).is_nan(),
            Val::M(v) => v.iter().any(|x| x.has_nan()),
            Val::Setup(_, v) => v.has_nan(),
            _ => false,
        }
    }
    pub fn show(&self) -> String {
        let s = format!("{self:?}");
        if s.len() > 700 {
            let mut k = 700;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            format!("{}...", &s[..k])
        } else {
            s
        }
    }
}

/// (name, message type number, belongs to a channel)
pub const TYPES: [(&str, u8, bool); 29] = [
    ("SetupConnection", 0x00, false),
    ("SetupConnectionSuccess", 0x01, false),
    ("SetupConnectionError", 0x02, false),
    ("ChannelEndpointChanged", 0x03, true),
    ("OpenStandardMiningChannel", 0x10, false),
    ("OpenStandardMiningChannelSuccess", 0x11, false),
    ("OpenStandardMiningChannelError", 0x12, false),
    ("OpenExtendedMiningChannel", 0x13, false),
    ("OpenExtendedMiningChannelSuccess", 0x14, false),
    ("OpenExtendedMiningChannelError", 0x15, false),
    ("UpdateChannel", 0x16, true),
    ("UpdateChannelError", 0x17, true),
    ("CloseChannel", 0x18, true),
    ("SetExtranoncePrefix", 0x19, true),
    ("SubmitSharesStandard", 0x1a, true),
    ("SubmitSharesExtended", 0x1b, true),
    ("SubmitSharesSuccess", 0x1c, true),
    ("SubmitSharesError", 0x1d, true),
    ("NewMiningJob", 0x1e, true),
    ("NewExtendedMiningJob", 0x1f, true),
    ("SetNewPrevHash", 0x20, true),
    ("SetTarget", 0x21, true),
    ("SetCustomMiningJob", 0x22, false),
    ("SetCustomMiningJobSuccess", 0x23, false),
    ("SetCustomMiningJobError", 0x24, false),
    ("Reconnect", 0x25, false),
    ("SetGroupChannel", 0x26, false),
    ("TestMessage1", 0xfe, false),
    ("TestMessage2", 0xff, true),
];

/// The Ed25519 group order, little-endian.
pub const ORDER_L: [u8; 32] = [
    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
];
pub fn below_l(s: &[u8]) -> bool {
    for i in (0..32).rev() {
        if s[i] != ORDER_L[i] {
            return s[i] < ORDER_L[i];
        }
    }
    false
}

/// Whether a decoded value holds a signature whose scalar fits 253 bits but is
/// not below the group order: a decoder may refuse it or leave that to the
/// verification.
pub fn unreduced(k: &Kind, v: &Val) -> bool {
    match (k, v) {
        (Kind::Sig, Val::A(a)) => a.len() == 64 && !below_l(&a[32..]),
        (Kind::Msg(_, f), Val::M(v)) => f.iter().zip(v).any(|((_, k), v)| unreduced(k, v)),
        _ => false,
    }
}

pub fn rule_ok(rule: Rule, v: &[Val]) -> bool {
    match rule {
        Rule::None => true,
        Rule::SetupConnection => {
            v[0].u() >= 2 && v[1].u() >= 2 && !v[5].s().is_empty() && !v[7].s().is_empty()
        }
        // code 0 is "unsupported-feature-flags"
        Rule::SetupError => !(v[1].code() == 0 && v[0].u() == 0),
    }
}

/// Whether a value satisfies sizes, ranges and requirements.
pub fn valid(k: &Kind, v: &Val) -> bool {
    match (k, v) {
        (Kind::Bool, Val::U(x)) => *x < 2,
        (Kind::U8, Val::U(x)) => *x < 1 << 8,
        (Kind::U16, Val::U(x)) => *x < 1 << 16,
        (Kind::U24, Val::U(x)) => *x < 1 << 24,
        (Kind::U32, Val::U(x)) => *x < 1 << 32,
        (Kind::F32, Val::F(_)) => true,
        (Kind::U256, Val::A(a)) => a.len() == 32,
        (Kind::Str(m), Val::S(s)) => s.len() <= *m,
        (Kind::Bytes(_, m), Val::B(b)) => b.len() <= *m,
        (Kind::Flags(m), Val::U(x)) => *x & !(*m as u64) == 0,
        (Kind::Code(c), Val::Code(i)) => *i < c.len(),
        (Kind::Sig, Val::A(a)) => a.len() == 64 && below_l(&a[32..]),
        (Kind::Proto, Val::U(x)) => *x < 4,
        (Kind::Frame, Val::Frame(t, p)) => *t < TYPES.len() && p.len() < 1 << 24,
        (Kind::Msg(r, f), Val::M(v)) => {
            f.len() == v.len() && f.iter().zip(v).all(|((_, k), v)| valid(k, v)) && rule_ok(*r, v)
        }
        (Kind::Setup(a, b), Val::Setup(p, v)) => match p {
            0 => valid(a, v),
            1 => valid(b, v),
            _ => false,
        },
        _ => false,
    }
}

pub fn encode(k: &Kind, v: &Val, out: &mut Vec<u8>) {
    match (k, v) {
        (Kind::Bool, Val::U(x)) | (Kind::U8, Val::U(x)) | (Kind::Proto, Val::U(x)) => {
            out.push(*x as u8)
        }
        (Kind::U16, Val::U(x)) => out.extend_from_slice(&[*x as u8, (*x >> 8) as u8]),
        (Kind::U24, Val::U(x)) => {
            out.extend_from_slice(&[*x as u8, (*x >> 8) as u8, (*x >> 16) as u8])
        }
        (Kind::U32, Val::U(x)) | (Kind::Flags(_), Val::U(x)) => out.extend_from_slice(&[
            *x as u8,
            (*x >> 8) as u8,
            (*x >> 16) as u8,
            (*x >> 24) as u8,
        ]),
        (Kind::F32, Val::F(x)) => out.extend_from_slice(&[
            *x as u8,
            (*x >> 8) as u8,
            (*x >> 16) as u8,
            (*x >> 24) as u8,
        ]),
        (Kind::U256, Val::A(a)) | (Kind::Sig, Val::A(a)) => out.extend_from_slice(a),
        (Kind::Str(_), Val::S(s)) => {
            out.push(s.len() as u8);
            out.extend_from_slice(s.as_bytes());
        }
        (Kind::Bytes(n, _), Val::B(b)) => {
            for i in 0..*n {
                out.push((b.len() >> (8 * i)) as u8);
            }
            out.extend_from_slice(b);
        }
        (Kind::Code(c), Val::Code(i)) => {
            out.push(c[*i].len() as u8);
            out.extend_from_slice(c[*i].as_bytes());
        }
        (Kind::Frame, Val::Frame(t, p)) => {
            let (_, n, ch) = TYPES[*t];
            out.push(0);
            out.push(if ch { 0x80 } else { 0 });
            out.push(n);
            for i in 0..3 {
                out.push((p.len() >> (8 * i)) as u8);
            }
            out.extend_from_slice(p);
        }
        (Kind::Msg(_, f), Val::M(v)) => {
            for ((_, k), v) in f.iter().zip(v) {
                encode(k, v, out);
            }
        }
        (Kind::Setup(a, b), Val::Setup(p, v)) => {
            out.push(*p);
            encode(if *p == 0 { a } else { b }, v, out);
        }
        _ => panic!("model: kind/value mismatch {k:?}"),
    }
}
pub fn enc(k: &Kind, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    encode(k, v, &mut o);
    o
}

fn take<'a>(b: &'a [u8], p: &mut usize, n: usize) -> Option<&'a [u8]> {
    if b.len() - *p < n {
        return None;
    }
    let r = &b[*p..*p + n];
    *p += n;
    Some(r)
}
fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}

fn dec_at(k: &Kind, b: &[u8], p: &mut usize) -> Option<Val> {
    Some(match k {
        Kind::Bool => Val::U((take(b, p, 1)?[0] & 1) as u64),
        Kind::U8 => Val::U(le(take(b, p, 1)?)),
        Kind::U16 => Val::U(le(take(b, p, 2)?)),
        Kind::U24 => Val::U(le(take(b, p, 3)?)),
        Kind::U32 => Val::U(le(take(b, p, 4)?)),
        Kind::F32 => Val::F(le(take(b, p, 4)?) as u32),
        Kind::U256 => Val::A(take(b, p, 32)?.to_vec()),
        Kind::Str(m) => {
            let n = take(b, p, 1)?[0] as usize;
            let s = take(b, p, n)?;
            if n > *m {
                return None;
            }
            Val::S(std::str::from_utf8(s).ok()?.to_string())
        }
        Kind::Bytes(ln, m) => {
            let n = le(take(b, p, *ln)?) as usize;
            let s = take(b, p, n)?;
            if n > *m {
                return None;
            }
            Val::B(s.to_vec())
        }
        Kind::Flags(m) => {
            let x = le(take(b, p, 4)?);
            if x & !(*m as u64) != 0 {
                return None;
            }
            Val::U(x)
        }
        Kind::Code(c) => {
            let n = take(b, p, 1)?[0] as usize;
            let s = take(b, p, n)?;
            Val::Code(c.iter().position(|t| t.as_bytes() == s)?)
        }
        Kind::Sig => {
            let s = take(b, p, 64)?;
            if s[63] & 0xe0 != 0 {
                return None;
            }
            Val::A(s.to_vec())
        }
        Kind::Proto => {
            let x = take(b, p, 1)?[0];
            if x > 3 {
                return None;
            }
            Val::U(x as u64)
        }
        Kind::Frame => {
            let h = take(b, p, 6)?;
            let t = TYPES
                .iter()
                .position(|(_, n, ch)| h[0] == 0 && h[1] == if *ch { 0x80 } else { 0 } && h[2] == *n)?;
            let n = le(&h[3..6]) as usize;
            Val::Frame(t, take(b, p, n)?.to_vec())
        }
        Kind::Msg(r, f) => {
            let mut v = Vec::with_capacity(f.len());
            for (_, k) in f {
                v.push(dec_at(k, b, p)?);
            }
            if !rule_ok(*r, &v) {
                return None;
            }
            Val::M(v)
        }
        Kind::Setup(a, c) => {
            let x = take(b, p, 1)?[0];
            match x {
                0 => Val::Setup(0, Box::new(dec_at(a, b, p)?)),
                1 => Val::Setup(1, Box::new(dec_at(c, b, p)?)),
                _ => return None,
            }
        }
    })
}
/// What the bytes decode to, and how many of them belong to it; None: rejected.
pub fn decode(k: &Kind, b: &[u8]) -> Option<(Val, usize)> {
    let mut p = 0;
    let v = dec_at(k, b, &mut p)?;
    Some((v, p))
}

// ---- generators ----------------------------------------------------------

pub fn gen_int(r: &mut Rng, bits: u32) -> u64 {
    let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    match r.below(8) {
        0 => 0,
        1 => max,
        2 | 3 => *r.pick(dict().upto(max)),
        4 => r.u64() & 0xff & max,
        5 => max - (r.u64() & 0xff & max),
        6 => {
            // one byte set
            let k = r.below((bits as usize + 7) / 8);
            ((r.u64() & 0xff) << (8 * k)) & max
        }
        _ => r.u64() & max,
    }
}

pub fn gen_f32(r: &mut Rng) -> u32 {
    const S: &[u32] = &[
        0,
        0x8000_0000,
        0x3f80_0000,
        0xbf80_0000,
        0x7f80_0000,
        0xff80_0000,
        0x7fc0_0000,
        0xffc0_0000,
        0x7fc0_0001,
        0x7f80_0001,
        0x7fbf_ffff,
        0x7fff_ffff,
        0xffff_ffff,
        0x0000_0001,
        0x8000_0001,
        0x007f_ffff,
        0x0080_0000,
        0x7f7f_ffff,
        0xff7f_ffff,
        0x4b80_0000,
        0x4f00_0000,
        0x5f00_0000,
    ];
    match r.below(5) {
        0 | 1 => *r.pick(S),
        2 => gen_int(r, 32) as u32,
        3 => 0x7f80_0000 | (r.u32() & 0x807f_ffff), // NaN payloads
        _ => r.u32(),
    }
}

const CHARS: &[char] = &[
    'a', 'Z', '0', '.', '-', '_', ' ', '\t', '\n', '\r', '\0', '\u{1}', '\u{1b}', '\u{7f}', '\u{80}', '\u{a0}',
    '%', '{', '}', '"', '\'', '\\', '/', ':', '@', '*', '$', '<', '&', 'é', 'ß', 'İ', 'ı', 'ſ', 'µ', 'Ω', 'ж', '\u{301}',
    '\u{200b}', '\u{200d}', '\u{202e}', '\u{2028}', '\u{feff}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}',
    '\u{fffe}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '中', '가', 'ﬁ', '１', '٣',
];

/// A string of exactly `n` bytes.
pub fn gen_str_len(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    let style = r.below(9);
    match style {
        0 => {
            let c = *r.pick(CHARS);
            while s.len() + c.len_utf8() <= n {
                s.push(c);
            }
        }
        1 => {
            while s.len() < n {
                s.push((b' ' + (r.below(95) as u8)) as char);
            }
        }
        2 => {
            // leading and trailing white space or zero bytes
            let w = *r.pick(&[' ', '\t', '\n', '\0', '\r']);
            let lead = r.below(3);
            let trail = r.below(4);
            for _ in 0..lead.min(n) {
                s.push(w);
            }
            while s.len() + trail < n {
                s.push((b'a' + r.below(26) as u8) as char);
            }
            while s.len() < n {
                s.push(w);
            }
        }
        3 => {
            while s.len() < n {
                let c = match r.below(4) {
                    0 => r.below(0x80) as u32,
                    1 => 0x80 + r.below(0x780) as u32,
                    2 => 0x800 + r.below(0xf800) as u32,
                    _ => 0x10000 + r.below(0x100000) as u32,
                };
                if let Some(c) = char::from_u32(c) {
                    if s.len() + c.len_utf8() <= n {
                        s.push(c);
                        continue;
                    }
                }
                s.push('x');
            }
        }
        4 => {
            let d = &dict().strs;
            if !d.is_empty() {
                let t = r.pick(d);
                if t.len() <= n {
                    s.push_str(t);
                }
            }
        }
        _ => {
            while s.len() < n {
                let c = *r.pick(CHARS);
                if s.len() + c.len_utf8() <= n {
                    s.push(c);
                } else {
                    s.push('.');
                }
            }
        }
    }
    while s.len() < n {
        s.push((b'a' + (s.len() % 26) as u8) as char);
    }
    s
}

pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => max,
        3 => max - r.below(3.min(max + 1)),
        4 => *r.pick(dict().upto(max.min(4096) as u64)) as usize,
        5 | 6 => r.below(max.min(40) + 1),
        _ => r.below(max.min(300) + 1),
    }
}

pub fn gen_bytes_len(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut b = match r.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| i as u8).collect(),
        3 => {
            let mut v = r.bytes(n);
            // leading / trailing zeros
            let z = r.below(n + 1);
            if r.bool() {
                v[..z].fill(0);
            } else {
                v[n - z..].fill(0);
            }
            v
        }
        4 => {
            let x = r.u8();
            vec![x; n]
        }
        _ => r.bytes(n),
    };
    if n > 0 && r.chance(1, 4) {
        let k = r.below(n);
        b[k] = r.u8();
    }
    b
}

/// A value of the kind that satisfies the sizes and ranges (and the message rules).
/// A value whose encoding is one pattern over and over: all zero, one byte, two halves.
fn gen_periodic(r: &mut Rng, k: &Kind) -> Option<Val> {
    let n = *r.pick(&[1usize, 1, 1, 2, 4, 8, 16, 32, 33]);
    let mut p = if n == 1 { vec![*r.pick(&[0u8, 0, 1, 2, 0xff, 0x20])] } else { gen_bytes_len(r, n) };
    let fit = |p: &[u8]| {
        let b: Vec<u8> = p.iter().copied().cycle().take(1200).collect();
        decode(k, &b).filter(|(v, _)| valid(k, v) && !unreduced(k, v))
    };
    let (v, n) = fit(&p)?;
    if n > 1 && n % 2 == 0 && r.bool() {
        // exactly two halves
        let b = enc(k, &v);
        p = b[..n / 2].to_vec();
        return fit(&p).filter(|x| x.1 == n).map(|x| x.0).or(Some(v));
    }
    Some(v)
}

pub fn gen(r: &mut Rng, k: &Kind) -> Val {
    if matches!(k, Kind::Msg(..) | Kind::Setup(..) | Kind::Frame) && r.chance(1, 20) {
        if let Some(v) = gen_periodic(r, k) {
            return v;
        }
    }
    match k {
        Kind::Bool => Val::U(r.below(2) as u64),
        Kind::U8 => Val::U(gen_int(r, 8)),
        Kind::U16 => Val::U(gen_int(r, 16)),
        Kind::U24 => Val::U(gen_int(r, 24)),
        Kind::U32 => Val::U(gen_int(r, 32)),
        Kind::F32 => Val::F(gen_f32(r)),
        Kind::U256 => {
            let d = &dict().bytes;
            if !d.is_empty() && r.chance(1, 16) {
                Val::A(r.pick(d).clone())
            } else {
                Val::A(gen_bytes_len(r, 32))
            }
        }
        Kind::Str(m) => {
            let d = &dict().strs;
            if !d.is_empty() && r.chance(1, 10) {
                let s = r.pick(d);
                if s.len() <= *m {
                    return Val::S(s.clone());
                }
            }
            let n = gen_len(r, *m);
            Val::S(gen_str_len(r, n))
        }
        Kind::Bytes(_, m) => {
            let n = gen_len(r, (*m).min(70_000));
            Val::B(gen_bytes_len(r, n))
        }
        Kind::Flags(m) => Val::U((r.u32() & m) as u64),
        Kind::Code(c) => Val::Code(r.below(c.len())),
        Kind::Sig => {
            let mut a = gen_bytes_len(r, 64);
            match r.below(4) {
                0 => {
                    // just below the order
                    a[32..].copy_from_slice(&ORDER_L);
                    let k = r.below(250) as u8;
                    a[32] = 0xec - k.min(0xec);
                }
                1 => a[63] = 0x0f,
                _ => a[63] &= 0x0f,
            }
            Val::A(a)
        }
        Kind::Proto => Val::U(r.below(4) as u64),
        Kind::Frame => {
            let t = r.below(TYPES.len());
            let n = if r.chance(1, 50) {
                *r.pick(&[65535usize, 65536, 65537, 100_000])
            } else {
                gen_len(r, 600)
            };
            Val::Frame(t, gen_bytes_len(r, n))
        }
        Kind::Msg(rule, f) => loop {
            let mut v: Vec<Val> = f.iter().map(|(_, k)| gen(r, k)).collect();
            // correlated fields: sometimes two fields of one kind are equal
            if v.len() > 1 && r.chance(1, 5) {
                let i = r.below(v.len());
                let j = r.below(v.len());
                if f[i].1 == f[j].1 {
                    v[i] = v[j].clone();
                }
            }
            if rule_ok(*rule, &v) {
                return Val::M(v);
            }
        },
        Kind::Setup(a, b) => {
            if r.bool() {
                Val::Setup(0, Box::new(gen(r, a)))
            } else {
                Val::Setup(1, Box::new(gen(r, b)))
            }
        }
    }
}

/// A value whose byte and text fields are as long as they can be, up to `cap`.
pub fn largest(r: &mut Rng, k: &Kind, cap: usize) -> Val {
    match k {
        Kind::Bytes(_, m) => Val::B(r.bytes((*m).min(cap))),
        Kind::Str(m) => Val::S(gen_str_len(r, *m)),
        Kind::Frame => Val::Frame(r.below(TYPES.len()), r.bytes(cap)),
        Kind::Msg(Rule::SetupError, _) => plain(k),
        Kind::Msg(rule, f) => {
            for _ in 0..100 {
                let v: Vec<Val> = f.iter().map(|(_, k)| largest(r, k, cap)).collect();
                if rule_ok(*rule, &v) {
                    return Val::M(v);
                }
            }
            plain(k)
        }
        Kind::Setup(a, _) => Val::Setup(0, Box::new(largest(r, a, cap))),
        k => gen(r, k),
    }
}

/// As `gen`, with every field in a plain small form: a base for one-field variations.
pub fn plain(k: &Kind) -> Val {
    match k {
        Kind::Bool => Val::U(1),
        Kind::U8 | Kind::U16 | Kind::U24 | Kind::U32 => Val::U(2),
        Kind::Proto => Val::U(1),
        Kind::F32 => Val::F(0x4148_0000),
        Kind::U256 => Val::A((1..=32).collect()),
        Kind::Str(_) => Val::S("abc".into()),
        Kind::Bytes(..) => Val::B(vec![1, 2, 3]),
        Kind::Flags(m) => Val::U(*m as u64),
        Kind::Code(_) => Val::Code(0),
        Kind::Sig => Val::A((0..64).map(|i| i as u8 & 15).collect()),
        Kind::Frame => Val::Frame(0, vec![1, 2, 3]),
        Kind::Msg(Rule::SetupError, _) => Val::M(vec![Val::U(1), Val::Code(1)]),
        Kind::Msg(_, f) => Val::M(f.iter().map(|(_, k)| plain(k)).collect()),
        Kind::Setup(a, _) => Val::Setup(0, Box::new(plain(a))),
    }
}

/// Interesting values of one field kind, for systematic one-field variation.
pub fn corner_values(k: &Kind, r: &mut Rng, deep: bool) -> Vec<Val> {
    let mut o = Vec::new();
    let ints = |max: u64, o: &mut Vec<Val>| {
        for v in dict().upto(max) {
            o.push(Val::U(*v));
        }
        for b in 0..64 {
            let v = max ^ (1 << b);
            if v <= max {
                o.push(Val::U(v));
            }
        }
        o.push(Val::U(max));
    };
    match k {
        Kind::Bool => o.extend([Val::U(0), Val::U(1)]),
        Kind::U8 => o.extend((0..256).map(Val::U)),
        Kind::U16 => {
            if deep {
                o.extend((0..65536).map(Val::U));
            } else {
                ints(65535, &mut o);
                o.extend((0..512).map(Val::U));
                o.extend((0..256).map(|x| Val::U(x << 8)));
            }
        }
        Kind::U24 => ints((1 << 24) - 1, &mut o),
        Kind::U32 => ints(u32::MAX as u64, &mut o),
        Kind::F32 => {
            for e in 0..512u32 {
                for m in [0u32, 1, 0x400000, 0x7fffff] {
                    o.push(Val::F(e << 23 | m));
                }
            }
        }
        Kind::U256 => {
            for x in [0u8, 1, 0x7f, 0x80, 0xff] {
                o.push(Val::A(vec![x; 32]));
            }
            for i in 0..32 {
                let mut a = vec![0u8; 32];
                a[i] = 1;
                o.push(Val::A(a.clone()));
                a[i] = 0xff;
                o.push(Val::A(a));
                let mut a = vec![0xffu8; 32];
                a[i] = 0;
                o.push(Val::A(a));
                o.push(Val::A((0..32).map(|j| if j < i { 0 } else { 0xff }).collect()));
                o.push(Val::A((0..32).map(|j| if j < i { 0xff } else { 0 }).collect()));
            }
            for b in &dict().bytes {
                o.push(Val::A(b.clone()));
            }
        }
        Kind::Str(m) => {
            for n in 0..=*m {
                o.push(Val::S("a".repeat(n)));
                o.push(Val::S(gen_str_len(r, n)));
                if n >= 4 {
                    o.push(Val::S(format!("{}\u{1f600}", "b".repeat(n - 4))));
                }
            }
            for c in CHARS {
                o.push(Val::S(c.to_string()));
                o.push(Val::S(format!("{c}x")));
                o.push(Val::S(format!("x{c}")));
                o.push(Val::S(format!("a{c}b{c}c")));
            }
            for c in 0..=255u8 {
                o.push(Val::S((c as char).to_string()));
            }
            for s in &dict().strs {
                if s.len() <= *m {
                    o.push(Val::S(s.clone()));
                }
            }
        }
        Kind::Bytes(_, m) => {
            for n in 0..=(*m).min(300) {
                o.push(Val::B(vec![0; n]));
                o.push(Val::B(vec![0xff; n]));
                o.push(Val::B(gen_bytes_len(r, n)));
            }
            for d in 0..3 {
                if *m < 100_000 && *m > 300 {
                    o.push(Val::B(gen_bytes_len(r, m - d)));
                }
            }
            for v in dict().upto((*m).min(20_000) as u64) {
                o.push(Val::B(gen_bytes_len(r, *v as usize)));
            }
        }
        Kind::Flags(m) => {
            let mut s = 0u32;
            loop {
                o.push(Val::U((s & m) as u64));
                s = (s.wrapping_sub(*m)) & m;
                if s == 0 {
                    break;
                }
            }
        }
        Kind::Code(c) => o.extend((0..c.len()).map(Val::Code)),
        Kind::Sig => {
            for _ in 0..40 {
                o.push(gen(r, k));
            }
        }
        Kind::Proto => o.extend((0..4).map(Val::U)),
        Kind::Frame => {
            for t in 0..TYPES.len() {
                for n in [0usize, 1, 2, 255, 256, 257] {
                    o.push(Val::Frame(t, gen_bytes_len(r, n)));
                }
            }
            for n in 0..300 {
                o.push(Val::Frame(0, gen_bytes_len(r, n)));
            }
            for n in [65534usize, 65535, 65536, 65537, 1 << 20] {
                o.push(Val::Frame(3, gen_bytes_len(r, n)));
            }
        }
        Kind::Msg(..) | Kind::Setup(..) => {}
    }
    o
}

/// Systematic variations of a kind: each field in turn takes its corner values.
pub fn variations(k: &Kind, r: &mut Rng, deep: bool) -> Vec<Val> {
    match k {
        Kind::Msg(rule, f) => {
            let mut o = Vec::new();
            for i in 0..f.len() {
                for c in corner_values(&f[i].1, r, deep) {
                    let mut base = match plain(k) {
                        Val::M(v) => v,
                        _ => unreachable!(),
                    };
                    base[i] = c;
                    if rule_ok(*rule, &base) {
                        o.push(Val::M(base));
                    }
                }
            }
            // every flag set with every code
            if *rule == Rule::SetupError {
                for a in corner_values(&f[0].1, r, deep) {
                    for b in corner_values(&f[1].1, r, deep) {
                        let v = vec![a.clone(), b];
                        if rule_ok(*rule, &v) {
                            o.push(Val::M(v));
                        }
                    }
                }
            }
            o
        }
        Kind::Setup(a, b) => {
            let mut o: Vec<Val> = variations(a, r, deep)
                .into_iter()
                .map(|v| Val::Setup(0, Box::new(v)))
                .collect();
            o.extend(
                variations(b, r, deep)
                    .into_iter()
                    .map(|v| Val::Setup(1, Box::new(v))),
            );
            o
        }
        _ => corner_values(k, r, deep),
    }
}

/// Byte strings that are close to the encoding of a valid value, and hostile ones.
pub fn hostile(r: &mut Rng, k: &Kind) -> Vec<u8> {
    let v = gen(r, k);
    let mut b = enc(k, &v);
    for _ in 0..1 + r.below(3) {
        mutate(r, &mut b);
    }
    b
}

/// Encodings of messages whose single fields are invalid (flags, codes, UTF-8, rules).
pub fn invalid_enc(r: &mut Rng, k: &Kind, out: &mut Vec<u8>, bad: bool) {
    match k {
        Kind::Msg(rule, f) => {
            let i = r.below(f.len());
            if *rule == Rule::SetupConnection && r.chance(1, 2) {
                // break the rules at the wire level
                let v = gen(r, k);
                let mut v = v.m().to_vec();
                for _ in 0..1 + r.below(2) {
                    match r.below(4) {
                        0 => v[0] = Val::U(r.below(3) as u64),
                        1 => v[1] = Val::U(r.below(3) as u64),
                        2 => v[5] = Val::S(String::new()),
                        _ => v[7] = Val::S(String::new()),
                    }
                }
                encode(&Kind::Msg(Rule::None, f.clone()), &Val::M(v), out);
                return;
            }
            if *rule == Rule::SetupError && r.chance(1, 3) {
                let v = vec![Val::U(0), Val::Code(0)];
                encode(&Kind::Msg(Rule::None, f.clone()), &Val::M(v), out);
                return;
            }
            for (j, (_, k)) in f.iter().enumerate() {
                invalid_enc(r, k, out, i == j);
            }
        }
        Kind::Setup(a, b) => {
            if r.chance(1, 6) {
                out.push(r.u8());
                encode(a, &gen(r, a), out);
            } else if r.bool() {
                out.push(0);
                invalid_enc(r, a, out, true);
            } else {
                out.push(1);
                invalid_enc(r, b, out, true);
            }
        }
        _ if !bad => encode(k, &gen(r, k), out),
        Kind::Str(m) => {
            let mut b = match r.below(8) {
                0 => vec![0xff],
                1 => vec![b'a', 0xc3],
                2 => vec![0xed, 0xa0, 0x80],
                3 => vec![0xf4, 0x90, 0x80, 0x80],
                4 => vec![0xc0, 0x80],
                5 => vec![0xe0, 0x80, 0xaf],
                6 => vec![0xf0, 0x82, 0x82, 0xac],
                _ => {
                    let n = r.below(*m) + 1;
                    let mut b = gen_str_len(r, n).into_bytes();
                    let k = r.below(b.len());
                    b[k] = 0x80 | r.u8();
                    b
                }
            };
            if r.chance(1, 4) && *m < 255 {
                b = vec![b'x'; m + 1 + r.below(255 - m)];
            }
            let pre = r.below(20);
            let mut t = vec![b'p'; pre.min(255 - b.len())];
            t.extend_from_slice(&b);
            out.push(t.len() as u8);
            out.extend_from_slice(&t);
        }
        Kind::Bytes(n, m) => {
            let lim = (1usize << (8 * n)) - 1;
            let len = if *m < lim { m + 1 + r.below((lim - m).min(300)) } else { r.below(200) };
            for i in 0..*n {
                out.push((len >> (8 * i)) as u8);
            }
            let k = if *m < lim { len } else { len / 2 };
            out.extend(std::iter::repeat(0x5a).take(k));
        }
        Kind::Flags(m) => {
            let mut x = r.u32() & m;
            for _ in 0..1 + r.below(3) {
                x |= 1 << r.below(32);
            }
            out.extend_from_slice(&x.to_le_bytes());
        }
        Kind::Code(c) => {
            let k = r.below(c.len());
            let t = near_text(r, c[k]);
            let t = &t.as_bytes()[..t.len().min(255)];
            out.push(t.len() as u8);
            out.extend_from_slice(t);
        }
        Kind::Sig => {
            let mut a = r.bytes(64);
            match r.below(3) {
                0 => {
                    a[32..].copy_from_slice(&ORDER_L);
                    a[32] = a[32].wrapping_add(r.below(3) as u8);
                }
                1 => a[63] |= 0x20 << r.below(3),
                _ => a[32..].fill(0xff),
            }
            out.extend_from_slice(&a);
        }
        Kind::Proto => out.push(r.u8()),
        Kind::Frame => {
            let t = r.below(TYPES.len());
            let (_, n, ch) = TYPES[t];
            let mut h = vec![0, if ch { 0x80 } else { 0 }, n];
            match r.below(4) {
                0 => h[1] ^= 0x80,
                1 => h[2] = r.u8(),
                2 => {
                    let b = r.below(16);
                    h[b / 8] ^= 1 << (b % 8);
                }
                _ => {}
            }
            out.extend_from_slice(&h);
            let len = gen_len(r, 100);
            let have = if r.bool() { len } else { r.below(len + 1) };
            out.extend_from_slice(&[len as u8, (len >> 8) as u8, 0]);
            out.extend_from_slice(&r.bytes(have));
        }
        _ => encode(k, &gen(r, k), out),
    }
}

/// Text close to `s`: other case, white space, prefixes, extensions, one edit.
/// The Unicode scalar values of the i-th block of 256.
pub fn scalars(i: u64) -> impl Iterator<Item = char> {
    (0..256u32).filter_map(move |lo| char::from_u32(i as u32 * 256 + lo))
}
/// Other characters that become this one (or that this one becomes) under a change of
/// letter case, of width, or when only the low byte is kept.
pub fn lookalikes(x: char) -> Vec<char> {
    let mut v: Vec<char> = ['\u{212a}', '\u{17f}', '\u{130}', '\u{131}', '\u{212b}']
        .into_iter()
        .filter(|y| y.to_lowercase().next() == x.to_lowercase().next() || y.to_uppercase().next() == x.to_uppercase().next())
        .collect();
    let n = x as u32;
    v.extend(x.to_lowercase().chain(x.to_uppercase()));
    if (0x21..0x7f).contains(&n) {
        v.extend([n + 0xfee0, n + 0x100, n + 0x1_0000, n | 0x80, n + 0x200].into_iter().filter_map(char::from_u32));
    }
    v.retain(|y| *y != x);
    v
}
pub fn near_text(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<char> = s.chars().collect();
    if t.is_empty() {
        t.push('a');
    }
    match r.below(20) {
        19 => {
            let k = r.below(t.len());
            let like = lookalikes(t[k]);
            if !like.is_empty() {
                t[k] = *r.pick(&like);
            }
        }
        18 => {
            // what a hash with multiplier 31 does not tell apart, like "Aa" and "BB"
            let k = r.below(t.len());
            if k + 1 < t.len() {
                let (a, b) = (t[k] as u32, t[k + 1] as u32);
                let (a, b) = if r.bool() { (a + 1, b.wrapping_sub(31)) } else { (a.wrapping_sub(1), b + 31) };
                if let (Some(a), Some(b)) = (char::from_u32(a), char::from_u32(b)) {
                    t[k] = a;
                    t[k + 1] = b;
                }
            }
        }
        16 | 17 => {
            // something in front, behind or around; also what the sources mention
            const AFFIX: [&str; 34] = [
                "\u{feff}", "\u{200b}", "\u{a0}", "\u{ad}", "\u{2060}", "\u{202e}", "\u{3000}", "\u{85}", "\r\n", "\u{301}",
                "0x", "0X", "+", "-", "#", "$", "\"", "'", "<>", "()", "[]", "{}", "hex:", "base58:", "key:", "mining.", "common.", "error:", "error-", "err_", "sv2:", "stratum+", "=", ";",
            ];
            let ds = &crate::dict::dict().strs;
            let x = if ds.is_empty() || r.bool() { *r.pick(&AFFIX) } else { r.pick(ds).as_str() };
            return match r.below(3) {
                0 => format!("{x}{s}"),
                1 => format!("{s}{x}"),
                _ => {
                    let k = if x.is_char_boundary(x.len() / 2) { x.len() / 2 } else { x.len() };
                    format!("{}{s}{}", &x[..k], &x[k..])
                }
            };
        }
        0 => return s.to_uppercase(),
        1 => {
            let k = r.below(t.len());
            t[k] = t[k].to_ascii_uppercase();
        }
        2 => t.insert(0, *r.pick(&[' ', '\t', '\n', '\0', '-', '"'])),
        3 => t.push(*r.pick(&[' ', '\t', '\n', '\0', '-', '.', 's', '"'])),
        4 => {
            t.pop();
        }
        5 => {
            t.remove(0);
        }
        6 => {
            let k = r.below(t.len());
            t.remove(k);
        }
        7 => return s.replace('-', "_"),
        8 => return s.replace('-', " "),
        9 => return s.replace('-', ""),
        10 => return format!("{s}{s}"),
        11 => {
            let k = r.below(t.len());
            t[k] = (b'a' + r.below(26) as u8) as char;
        }
        12 => {
            let k = r.below(t.len() + 1);
            t.insert(k, (b' ' + r.below(95) as u8) as char);
        }
        13 => return String::new(),
        14 => {
            if t.len() > 1 {
                let k = r.below(t.len() - 1);
                t.swap(k, k + 1);
            }
        }
        _ => {
            let k = r.below(t.len());
            t[k] = *r.pick(CHARS);
        }
    }
    t.into_iter().collect()
}

/// Where the parts of a handshake or transport message of `n` bytes may begin and end.
pub fn cuts(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 2, 4, 8, 12, 16, 24, 32, 48, 64, 80, 96, 112, 128].iter().copied().filter(|k| *k <= n).collect();
    v.extend([32usize, 16, 8, 4, 1, 0].iter().filter(|k| **k <= n).map(|k| n - k));
    v.sort_unstable();
    v.dedup();
    v
}
/// The bytes from `i` to `j` overwritten: with one value, or with what stands elsewhere.
pub fn filled(b: &[u8], i: usize, j: usize, how: usize, value: u8) -> Vec<u8> {
    let mut x = b.to_vec();
    let n = x.len();
    match how {
        0 | 1 => x[i..j].iter_mut().for_each(|c| *c = 0),
        2 => x[i..j].iter_mut().for_each(|c| *c = 0xff),
        3 => x[i..j].iter_mut().for_each(|c| *c = value),
        // the part before it, or the last part
        4 => {
            let k = (j - i).min(i);
            let y = x[i - k..i].to_vec();
            x[i..i + k].copy_from_slice(&y);
        }
        _ => {
            let k = (j - i).min(n - j);
            let y = x[n - k..].to_vec();
            x[i..i + k].copy_from_slice(&y);
        }
    }
    x
}


/// A message altered as something between the two ends could: padded, cut, wrapped,
/// reordered, at the sizes of blocks and frames.
pub fn altered(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    const SIZES: [usize; 12] = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096];
    let mut x = b.to_vec();
    let n = x.len();
    let k = *r.pick(&SIZES);
    match r.below(18) {
        14..=17 => {
            for _ in 0..1 + r.below(2) {
                let cuts = cuts(n);
                let (i, j) = (*r.pick(&cuts), *r.pick(&cuts));
                x = filled(&x, i.min(j), i.max(j), r.below(6), r.u8());
            }
        }
        0..=3 => {
            // to a multiple of a block
            let m = (n / k + 1) * k;
            let m = if m > 65535 || r.chance(1, 8) { n + 1 + r.below(40) } else { m };
            match r.below(5) {
                0 | 1 => x.resize(m, 0),
                2 => x.resize(m, 0xff),
                3 => x.resize(m, (m - n) as u8),
                _ => {
                    x.push(0x80);
                    x.resize(m, 0)
                }
            }
        }
        4 => x.truncate(n / k * k),
        5 => {
            let mut y = match r.below(4) {
                0 => (n as u16).to_le_bytes().to_vec(),
                1 => (n as u16).to_be_bytes().to_vec(),
                2 => (n as u32).to_le_bytes()[..3].to_vec(),
                _ => vec![0; k.min(64)],
            };
            y.extend(&x);
            x = y;
        }
        6 => {
            x.drain(..k.min(n));
        }
        7 => x.truncate(n.saturating_sub(k)),
        8 => {
            let y = x.clone();
            x.extend(y)
        }
        9 => x.reverse(),
        10 => x.iter_mut().for_each(|c| *c = !*c),
        11 => {
            let k = k.max(16);
            if n >= 2 * k {
                let j = r.below(n / k - 1) * k;
                let (a, b) = x[j..j + 2 * k].split_at_mut(k);
                a.swap_with_slice(b);
            }
        }
        12 => {
            while x.last() == Some(&0) {
                x.pop();
            }
        }
        _ => {
            // one bit, near either end or at a power of two
            if n > 0 {
                let p = match r.below(4) {
                    0 => n - 1 - r.below(n.min(40)),
                    1 => r.below(n.min(120)),
                    2 => (k + r.below(3)).saturating_sub(1) % n,
                    _ => r.below(n),
                };
                x[p] ^= 1 << r.below(8);
            }
        }
    }
    x
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(11) {
        0 => {
            let k = r.below(b.len() + 1);
            b.truncate(k);
        }
        1 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] ^= 1 << r.below(8);
        }
        2 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] = r.u8();
        }
        3 => {
            let k = r.below(b.len() + 1);
            b.insert(k, r.u8());
        }
        4 if !b.is_empty() => {
            let k = r.below(b.len());
            b.remove(k);
        }
        5 => {
            let n = r.below(20);
            let t = r.bytes(n);
            b.extend_from_slice(&t);
        }
        6 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 31, 32, 33, 254, 255]);
        }
        7 if b.len() >= 2 => {
            let (i, j) = (r.below(b.len()), r.below(b.len()));
            b.swap(i, j);
        }
        8 if !b.is_empty() => {
            let k = r.below(b.len());
            let n = r.below(b.len() - k) + 1;
            let s = b[k..k + n].to_vec();
            let at = r.below(b.len() + 1);
            b.splice(at..at, s);
        }
        9 if !b.is_empty() => {
            let k = r.below(b.len());
            b[k] = b[k].wrapping_add(1);
        }
        _ => {
            let n = r.below(60);
            *b = r.bytes(n);
        }
    }
}
