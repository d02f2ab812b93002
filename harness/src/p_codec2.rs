//! Monitors for imperfect writers (C09), memory use (C27) and errors (C28).

use crate::alloc::{measure, Usage};
use crate::ctx::{Case, Ctx};
use crate::model::{self, enc, gen, gen_bytes_len, Kind, Val, TYPES};
use crate::p_codec::hostile_input;
use crate::subjects::*;
use crate::util::{base58, hash, hexs, Rng};
use std::convert::TryFrom;
use std::error::Error as StdError;
use stratumv2::error::Error;
use std::io::{self, ErrorKind, IoSlice, Write};
use std::str::FromStr;
use stratumv2::codec::{ByteParser, Deserializable, Message, Serializable};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticPublicKey};

// ---------------------------------------------------------------- C09

/// What a writer does when asked for byte number `at` or beyond.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    Never,
    /// fails with this kind, now and for ever
    Dead(ErrorKind),
    /// fails once with this kind, then accepts everything
    Once(ErrorKind),
    /// is full: accepts nothing any more
    Full,
    /// accepts nothing once, then everything
    FullOnce,
}

struct Imperfect {
    got: Vec<u8>,
    /// largest number of bytes accepted at once; cycled
    chunks: Vec<usize>,
    calls: usize,
    /// every n-th call is interrupted (0: none)
    interrupt: usize,
    fault: Fault,
    at: usize,
    fired: bool,
    short: u64,
    after_fault: u64,
}
impl Imperfect {
    fn new(chunks: Vec<usize>, interrupt: usize, fault: Fault, at: usize) -> Self {
        Imperfect { got: Vec::new(), chunks, calls: 0, interrupt, fault, at, fired: false, short: 0, after_fault: 0 }
    }
}
impl Write for Imperfect {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupt != 0 && self.calls % self.interrupt == 0 {
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len().min(self.chunks[self.calls % self.chunks.len()].max(1));
        if self.fault != Fault::Never {
            if self.got.len() < self.at {
                n = n.min(self.at - self.got.len());
            } else {
                let first = !self.fired;
                self.fired = true;
                if !first {
                    self.after_fault += 1;
                }
                match self.fault {
                    Fault::Dead(k) => return Err(io::Error::from(k)),
                    Fault::Full => return Ok(0),
                    Fault::Once(k) if first => return Err(io::Error::from(k)),
                    Fault::FullOnce if first => return Ok(0),
                    _ => {}
                }
            }
        }
        if n < b.len() {
            self.short += 1;
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        for b in bufs {
            if !b.is_empty() {
                return self.write(b);
            }
        }
        Ok(0)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn judge(c: &mut Case, name: &str, full: &[u8], w: &Imperfect, res: Result<usize, String>) {
    c.check("writer holds a prefix", full.starts_with(&w.got), || {
        let k = full.iter().zip(&w.got).take_while(|(a, b)| a == b).count();
        format!(
            "{name}: writer (chunks {:?}, interrupt {}, {:?} at {}) received {} bytes that differ from the encoding of {} bytes from byte {k}; result {res:?}; encoding {}",
            w.chunks, w.interrupt, w.fault, w.at, w.got.len(), full.len(), hexs(full)
        )
    });
    match res {
        Ok(n) => {
            c.check("success means everything written", w.got == full && n == full.len(), || {
                format!(
                    "{name}: Ok({n}) although the writer (chunks {:?}, interrupt {}, {:?} at {}) received {} of {} bytes; encoding {}",
                    w.chunks, w.interrupt, w.fault, w.at, w.got.len(), full.len(), hexs(full)
                )
            });
            if w.fired && w.got.len() < full.len() {
                c.obs("fault swallowed", 1);
            }
        }
        Err(_) => c.obs("error reported", 1),
    }
    if w.short > 0 {
        c.obs("short writes exercised", w.short);
    }
    if w.fired {
        c.obs("faults fired", 1);
    }
}

const KINDS: [ErrorKind; 9] = [
    ErrorKind::Other,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::UnexpectedEof,
    ErrorKind::ConnectionReset,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
];

/// Runs one encoding against writers that fail at every byte position.
fn every_position(c: &mut Case, name: &str, full: &[u8], max_pos: usize, go: &mut dyn FnMut(&mut dyn Write) -> Result<usize, String>) {
    let n = full.len();
    let step = (n / max_pos).max(1);
    let mut at = 0;
    while at <= n {
        // the last position is past the end: the fault never fires
        for fault in [
            Fault::Dead(*c.rng.pick(&KINDS)),
            Fault::Once(*c.rng.pick(&KINDS)),
            Fault::Full,
            Fault::FullOnce,
        ] {
            let chunk = match c.rng.below(4) {
                0 => vec![1],
                1 => vec![usize::MAX],
                _ => (0..1 + c.rng.below(5)).map(|_| 1 + c.rng.below(9)).collect(),
            };
            let intr = if c.rng.chance(1, 4) { 2 + c.rng.below(4) } else { 0 };
            let mut w = Imperfect::new(chunk, intr, fault, at);
            let r = go(&mut w);
            c.eval(hash(&[name.as_bytes(), full, &at.to_le_bytes(), format!("{:?}", (fault, &w.chunks, intr)).as_bytes()]));
            judge(c, name, full, &w, r);
        }
        at += if at < 600 { 1 } else { step };
    }
    for chunk in [vec![1], vec![2], vec![3], vec![5], vec![7], vec![1, usize::MAX], vec![usize::MAX, 1], vec![8], vec![64]] {
        for intr in [0, 2, 3] {
            if n > 5000 && chunk[0] < 64 {
                continue;
            }
            let mut w = Imperfect::new(chunk.clone(), intr, Fault::Never, 0);
            let r = go(&mut w);
            c.eval(hash(&[name.as_bytes(), full, format!("{:?}", (&w.chunks, intr)).as_bytes()]));
            judge(c, name, full, &w, r);
        }
    }
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("an input is a value encoded into a writer with a behaviour: accepted chunk sizes, interruptions, and a fault (dead, fails once, full, full once) at a byte position; every position up to 600 is used. Distinct by type, bytes, position and behaviour.");
    let subs = subjects();
    ctx.section("every-position", subs.len() as u64 * ctx.n(30, 600), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let mut v = gen(&mut c.rng, &s.kind);
        for _ in 0..4 {
            if enc(&s.kind, &v).len() > 3000 {
                v = gen(&mut c.rng, &s.kind);
            }
        }
        let full = enc(&s.kind, &v);
        let mut go = |w: &mut dyn Write| match (s.encode_to)(&v, w) {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(e) => Err(format!("constructor: {e}")),
        };
        // the encoding into a perfect writer is the reference
        let mut perfect = Vec::new();
        match go(&mut perfect) {
            Ok(n) => {
                c.check("success means everything written", perfect == full && n == full.len(), || {
                    format!("{}: Ok({n}) with {} of {} bytes in a plain vector", s.name, perfect.len(), full.len())
                });
            }
            Err(e) => {
                // not encodable at all: another property's concern
                c.sample(|| format!("{}: {e}", s.name));
                return;
            }
        }
        c.sample(|| format!("{}: {} bytes into faulty writers at every position", s.name, full.len()));
        every_position(c, s.name, &full, 400, &mut go);
    });
    ctx.section("large", if ctx.tiny() { 0 } else { ctx.n(40, 400) }, |c| {
        let n = *c.rng.pick(&[4095usize, 4096, 8191, 8192, 8193, 65535, 65536, 70_000, 1 << 20]);
        let p = gen_bytes_len(&mut c.rng, n);
        let s = if n <= 65535 && c.rng.bool() { by_name("B0_64K") } else { by_name("Message") };
        let v = if s.name == "B0_64K" { Val::B(p) } else { Val::Frame(c.rng.below(TYPES.len()), p) };
        let full = enc(&s.kind, &v);
        let go = |w: &mut dyn Write| match (s.encode_to)(&v, w) {
            Ok(r) => r.map_err(|e| e.to_string()),
            Err(e) => Err(format!("constructor: {e}")),
        };
        for _ in 0..12 {
            let at = c.rng.below(full.len() + 1);
            let fault = *c.rng.pick(&[
                Fault::Never,
                Fault::Full,
                Fault::FullOnce,
                Fault::Dead(ErrorKind::Other),
                Fault::Once(ErrorKind::WouldBlock),
                Fault::Once(ErrorKind::TimedOut),
            ]);
            let chunk = *c.rng.pick(&[100usize, 1000, 4096, 1 << 16, usize::MAX]);
            let intr = *c.rng.pick(&[0usize, 2, 5]);
            let mut w = Imperfect::new(vec![chunk], intr, fault, at);
            let r = go(&mut w);
            c.eval(hash(&[s.name.as_bytes(), &full.len().to_le_bytes(), &at.to_le_bytes(), format!("{fault:?}{chunk}{intr}").as_bytes()]));
            judge(c, s.name, &full, &w, r);
        }
    });
    // encoders without a decoder: public keys, certificates
    ctx.section("certificates", ctx.n(60, 2000), |c| {
        let pk = match StaticPublicKey::from_bytes({
            let mut b = c.rng.arr32();
            b[31] &= 0x7f;
            b
        }) {
            Ok(p) => p,
            Err(_) => return,
        };
        let (ver, from, to) = (c.rng.u32() as u16, c.rng.u32() >> 1, (1u32 << 31) + (c.rng.u32() >> 1));
        let mut cert_bytes = Vec::new();
        cert_bytes.extend_from_slice(&ver.to_le_bytes());
        cert_bytes.extend_from_slice(&from.to_le_bytes());
        cert_bytes.extend_from_slice(&to.to_le_bytes());
        cert_bytes.extend_from_slice(&pk.as_bytes());
        let ser = |e: stratumv2::error::Result<usize>| e.map_err(|e| e.to_string());
        every_position(c, "StaticPublicKey", &pk.as_bytes(), 400, &mut |mut w| ser(pk.serialize(&mut w)));
        if let Ok(cert) = SignedCertificate::new(ver, from, to, &pk) {
            every_position(c, "SignedCertificate", &cert_bytes, 400, &mut |mut w| ser(cert.serialize(&mut w)));
            let kp = crate::p_codec2::auth_key(&c.rng.arr32());
            if let Ok(m) = SignatureNoiseMessage::from_auth_key(&kp, &cert) {
                let text = base58(&kp.public.to_bytes());
                if let Ok(f) = CertificateFormat::new(&text, &pk, &m) {
                    every_position(c, "CertificateFormat", &cert_bytes, 400, &mut |mut w| ser(f.serialize(&mut w)));
                }
            }
        }
    });
    ctx.require(&["writer holds a prefix", "success means everything written", "faults fired", "short writes exercised", "error reported"]);
}

pub fn auth_key(seed: &[u8; 32]) -> ed25519_dalek::Keypair {
    let secret = ed25519_dalek::SecretKey::from_bytes(seed).unwrap();
    let public = ed25519_dalek::PublicKey::from(&secret);
    ed25519_dalek::Keypair { secret, public }
}

// ---------------------------------------------------------------- C27

const BASE: u64 = 16 * 1024;

fn mem_check(c: &mut Case, name: &str, b: &[u8], f: &mut dyn FnMut() -> bool) {
    let mut u: Option<Usage> = None;
    let mut ok = false;
    // a first call may initialise something once and for all
    for _ in 0..3 {
        let (r, m) = measure(&mut *f);
        ok = r;
        let better = match u {
            None => true,
            Some(x) => m.peak < x.peak || m.left < x.left,
        };
        if better {
            u = Some(m);
        }
        if m.peak as u64 <= BASE + 4 * b.len() as u64 && m.left == 0 {
            u = Some(m);
            break;
        }
    }
    let u = u.unwrap();
    let n = b.len() as u64;
    c.check("peak allocation bounded", u.peak as u64 <= BASE + 4 * n, || {
        format!("{name}: decoding {n} bytes held {} bytes at once (largest block {}); input {}", u.peak, u.largest, hexs(b))
    });
    c.check("total allocation bounded", u.total <= BASE + 32 * n, || {
        format!("{name}: decoding {n} bytes allocated {} bytes in {} blocks; input {}", u.total, u.calls, hexs(b))
    });
    c.check("nothing left allocated", u.left <= 0, || {
        format!("{name}: decoding {n} bytes (and dropping the result) left {} bytes allocated; input {}", u.left, hexs(b))
    });
    if ok {
        c.obs("accepted inputs measured", 1);
    } else {
        c.obs("rejected inputs measured", 1);
    }
    if u.calls > 0 {
        c.obs("allocations observed", u.calls);
    }
}

/// An encoding whose texts (error codes included) are random: no two alike.
fn noisy_enc(r: &mut Rng, k: &Kind, out: &mut Vec<u8>) {
    match k {
        Kind::Msg(_, f) => f.iter().for_each(|(_, k)| noisy_enc(r, k, out)),
        Kind::Setup(a, b) => {
            let which = r.bool();
            out.push(which as u8);
            noisy_enc(r, if which { b } else { a }, out);
        }
        Kind::Code(_) => {
            let n = 40 + r.below(200);
            out.push(n as u8);
            for _ in 0..n {
                out.push(b'a' + r.below(26) as u8);
            }
        }
        Kind::Str(_) if r.chance(1, 4) => {
            let n = 40 + r.below(200);
            out.push(n as u8);
            let b = r.bytes(n);
            out.extend(b);
        }
        Kind::Flags(_) if r.chance(1, 4) => out.extend(r.bytes(4)),
        _ => enc_into(r, k, out),
    }
}
fn enc_into(r: &mut Rng, k: &Kind, out: &mut Vec<u8>) {
    let v = gen(r, k);
    out.extend(enc(k, &v));
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("an input is a byte string offered to one decoder under an allocator that counts this thread's blocks: hostile and near-valid bytes, headers announcing every size class with few bytes behind them, and large valid values. Distinct by type and bytes.");
    let subs = subjects();
    ctx.section("hostile", ctx.n(60_000, 2_000_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let b = hostile_input(&mut c.rng, &s.kind);
        c.eval(hash(&[s.name.as_bytes(), &b]));
        mem_check(c, s.name, &b, &mut || (s.decode_drop)(&b));
    });
    // short input announcing much: every length-prefixed field of every message
    ctx.section("announced", subs.len() as u64 * ctx.n(60, 3000), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let v = gen(&mut c.rng, &s.kind);
        let full = enc(&s.kind, &v);
        let full = &full[..full.len().min(400)];
        for at in 0..full.len() {
            for w in 1..=3usize {
                if at + w > full.len() {
                    continue;
                }
                let mut b = full.to_vec();
                b[at..at + w].fill(0xff);
                let keep = (at + w + c.rng.below(12)).min(b.len());
                b.truncate(keep);
                c.eval(hash(&[s.name.as_bytes(), &b]));
                mem_check(c, s.name, &b, &mut || (s.decode_drop)(&b));
            }
        }
    });
    ctx.section("frame-headers", ctx.n(6000, 400_000), |c| {
        let (_, num, ch) = TYPES[c.rng.below(TYPES.len())];
        let len = match c.rng.below(4) {
            0 => (1 << c.rng.below(25)) - 1,
            1 => 0xff_ffff - c.rng.below(3) as u32,
            2 => c.rng.u32() & 0xff_ffff,
            _ => (1u32 << c.rng.below(24)) + c.rng.below(2) as u32,
        };
        let mut b = vec![0, if ch { 0x80 } else { 0 }, num];
        b.extend_from_slice(&len.to_le_bytes()[..3]);
        let n = c.rng.below(40);
        b.extend(c.rng.bytes(n));
        c.eval(hash(&[b"frame", &b]));
        mem_check(c, "Message", &b, &mut || stratumv2::codec::deserialize::<Message>(&b).is_ok());
        // the same through a parser in the middle of a buffer
        let mut long = vec![7u8; 3];
        long.extend_from_slice(&b);
        mem_check(c, "Message in a buffer", &b, &mut || {
            let mut p = ByteParser::new(&long, 3);
            Message::deserialize(&mut p).is_ok()
        });
    });
    // a message queue's worth of many small values: no growth per value
    ctx.section("valid-large", if ctx.tiny() { 2 } else { ctx.n(60, 600) }, |c| {
        let n = *c.rng.pick(&[1000usize, 20_000, 65_535, 1 << 20, (1 << 24) - 1]);
        let p = vec![0x41u8; n];
        for (s, v) in [
            (by_name("Message"), Val::Frame(c.rng.below(TYPES.len()), p.clone())),
            (by_name("B0_16M"), Val::B(p.clone())),
            (by_name("B0_64K"), Val::B(p[..n.min(65535)].to_vec())),
        ] {
            let b = enc(&s.kind, &v);
            c.eval(hash(&[s.name.as_bytes(), &b.len().to_le_bytes()]));
            mem_check(c, s.name, &b, &mut || (s.decode_drop)(&b));
            let cut = b.len() - 1 - c.rng.below(b.len() / 2);
            mem_check(c, s.name, &b[..cut], &mut || (s.decode_drop)(&b[..cut]));
        }
    });
    ctx.section("unframe", ctx.n(20_000, 500_000), |c| {
        let ms = messages();
        let s = ms[c.rng.below(ms.len())];
        let payload = hostile_input(&mut c.rng, &s.kind);
        let m = Message::new(MT_V[s.ftype.unwrap()], payload.clone());
        c.eval(hash(&[b"unframe", s.name.as_bytes(), &payload]));
        // decode_val keeps the value; only rejections are measured here
        if s.unframe.unwrap()(&m).is_err() {
            mem_check(c, s.name, &payload, &mut || s.unframe.unwrap()(&m).is_ok());
        }
    });
    // a sequence of rejected inputs leaves nothing behind
    ctx.section("no-growth", ctx.n(40, 400), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let inputs: Vec<Vec<u8>> = (0..300).map(|_| hostile_input(&mut c.rng, &s.kind)).collect();
        for b in &inputs {
            (s.decode_drop)(b);
        }
        let (_, u) = measure(|| {
            for b in &inputs {
                (s.decode_drop)(b);
            }
        });
        c.check("no growth over many inputs", u.left <= 0, || {
            format!("{}: 300 decodes left {} bytes allocated", s.name, u.left)
        });
    });
    // bytes that never repeat: nothing of them may pile up. A cache of limited size fills
    // within a few rounds, so only growth in every round counts. One thread: blocks are
    // attributed to the thread that frees them.
    ctx.section_t("pile-up", if ctx.tiny() { 2 } else { subs.len() as u64 * ctx.n(1, 4) }, 1, |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let rounds = 12;
        let per = if c.ctx.tiny() { 10 } else { 120 };
        for accepted in [false, true] {
            let mut left = Vec::new();
            let mut n = 0u64;
            for _ in 0..rounds {
                let mut inputs = Vec::new();
                let mut tries = 0;
                while inputs.len() < per && tries < 4 * per {
                    tries += 1;
                    let b = if accepted {
                        let v = gen(&mut c.rng, &s.kind);
                        enc(&s.kind, &v)
                    } else {
                        let mut b = Vec::new();
                        noisy_enc(&mut c.rng, &s.kind, &mut b);
                        b
                    };
                    if b.len() < 70_000 {
                        inputs.push(b);
                    }
                }
                n += inputs.len() as u64;
                let (ok, u) = measure(|| inputs.iter().filter(|b| (s.decode_drop)(b)).count());
                c.obs(if accepted { "accepted inputs in rounds" } else { "rejected inputs in rounds" }, if accepted { ok } else { inputs.len() - ok } as u64);
                left.push(u.left);
            }
            c.eval(hash(&[b"pile", s.name.as_bytes(), &c.idx.to_le_bytes(), &[accepted as u8]]));
            c.check("nothing piles up", !left.iter().all(|l| *l > 0), || {
                format!("{}: decoding {n} different byte strings in {rounds} rounds left bytes allocated after every round: {left:?}", s.name)
            });
        }
    });
    ctx.require(&[
        "nothing piles up",
        "rejected inputs in rounds",
        "peak allocation bounded",
        "total allocation bounded",
        "nothing left allocated",
        "allocations observed",
        "accepted inputs measured",
        "rejected inputs measured",
        "no growth over many inputs",
    ]);
}

// ---------------------------------------------------------------- C28

/// The monitor: formats an error in every way a logger would, and walks its causes.
pub fn inspect(c: &mut Case, origin: &str, e: &(dyn StdError + 'static)) {
    let mut shown = String::new();
    let mut chain = 0usize;
    let mut end = false;
    let ok = c.run("errors format", || format!("formatting an error of {origin}"), || {
        shown = e.to_string();
        let _ = format!("{e:?} {e:#?} {e:>40} {e:.3} {e:#}");
        let mut cur: Option<&(dyn StdError + 'static)> = e.source();
        while let Some(s) = cur {
            let _ = (s.to_string(), format!("{s:?}"));
            chain += 1;
            if chain > 16 {
                break;
            }
            cur = s.source();
        }
        end = cur.is_none();
    });
    if ok.is_none() {
        return;
    }
    c.eval(hash(&[origin.as_bytes(), shown.as_bytes(), format!("{e:?}").as_bytes()]));
    c.check("display text not empty", !shown.trim().is_empty(), || format!("an error of {origin} displays as {shown:?} ({e:?})"));
    c.check("cause chain ends", end, || format!("the causes of an error of {origin} ({shown}) do not end after {chain} steps"));
    c.obs("errors format", 1);
    c.sample(|| format!("{origin}: {shown}"));
}

pub fn c28(ctx: &Ctx) {
    ctx.rule("an input is a failing operation (decoding, construction, conversion, encoding into a failing writer, handshake, transport, key parsing, certificate handling, time conversion); the error it returns is formatted and its causes are followed. Distinct by operation and error.");
    let subs = subjects();
    ctx.section("decode", ctx.n(60_000, 2_000_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let b = hostile_input(&mut c.rng, &s.kind);
        if let Err(e) = s.decode(&b) {
            inspect(c, s.name, &e);
        }
        let ms = messages();
        let m = ms[c.rng.below(ms.len())];
        let f = Message::new(MT_V[c.rng.below(MT_V.len())], b.clone());
        if let Err(e) = m.unframe.unwrap()(&f) {
            inspect(c, "unframe", &e);
        }
    });
    ctx.section("construct", ctx.n(6000, 200_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        if let Some(v) = spoil(c, &s.kind) {
            if let Err(e) = (s.build)(&v) {
                inspect(c, s.name, &e);
            }
        }
    });
    ctx.section("convert", ctx.n(20_000, 500_000), |c| {
        use stratumv2::common::{Protocol, SetupConnectionErrorCode};
        use stratumv2::mining::OpenMiningChannelErrorCode;
        use stratumv2::types::{MessageType, U24};
        let n = c.rng.u32();
        let txt = {
            let base = *c.rng.pick(&["unsupported-protocol", "unknown-user", "", "x"]);
            model::near_text(&mut c.rng, base)
        };
        if let Err(e) = Protocol::try_from(n as u8) {
            inspect(c, "Protocol", &e);
        }
        if let Err(e) = MessageType::new((n >> 16) as u16, n as u8) {
            inspect(c, "MessageType", &e);
        }
        if let Err(e) = U24::new(n) {
            inspect(c, "U24", &e);
        }
        if let Err(e) = U24::try_from(n as usize * 0x101) {
            inspect(c, "U24", &e);
        }
        if let Err(e) = SetupConnectionErrorCode::from_str(&txt) {
            inspect(c, "SetupConnectionErrorCode", &e);
        }
        if let Err(e) = OpenMiningChannelErrorCode::from_str(&txt) {
            inspect(c, "OpenMiningChannelErrorCode", &e);
        }
        let mut p = ByteParser::new(txt.as_bytes(), n as usize % 40);
        let step = if c.rng.bool() { usize::MAX - c.rng.below(3) } else { c.rng.below(100) };
        if let Err(e) = p.next_by(step) {
            inspect(c, "ByteParser", &e);
        }
    });
    // the public error types with texts of any kind
    ctx.section("texts", ctx.n(6000, 200_000), |c| {
        let mut t = match c.rng.below(4) {
            0 => {
                let n = 1 + c.rng.below(60);
                model::gen_str_len(&mut c.rng, n)
            }
            1 => c.rng.pick(&["missing field:", "`", "{}", "{0}", "%s", ":", "a: b: c:", "x.", ", ", "(", "\u{1b}[0m", "\\", "\"", "=>", "-", "/"]).to_string(),
            2 => (0..1 + c.rng.below(5)).map(|_| *c.rng.pick(&["a", ":", " ", "`", "{", "}", "\n", "é", "\t", "/", ".", ","])).collect(),
            _ => {
                let base = "expected 4 bytes, got 3";
                model::near_text(&mut c.rng, base)
            }
        };
        if t.trim().is_empty() {
            t.push('x');
        }
        for e in [
            Error::VersionError(t.clone()),
            Error::ProtocolMismatchError(t.clone()),
            Error::RequirementError(t.clone()),
            Error::DeserializationError(t.clone()),
            Error::ParseError(t.clone()),
            Error::UnexpectedMessageType(c.rng.u32() as u16, c.rng.u32() as u8),
            Error::UnexpectedChannelBit(c.rng.bool()),
            Error::from(io::Error::new(*c.rng.pick(&KINDS), t.clone())),
            Error::from(io::Error::from_raw_os_error(1 + c.rng.below(133) as i32)),
        ] {
            inspect(c, "constructed error", &e);
        }
    });
    ctx.section("encode", ctx.n(6000, 100_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let v = gen(&mut c.rng, &s.kind);
        let k = *c.rng.pick(&KINDS);
        let at = c.rng.below(enc(&s.kind, &v).len().min(200) + 1);
        let mut w = Imperfect::new(vec![usize::MAX], 0, if c.rng.bool() { Fault::Dead(k) } else { Fault::Full }, at);
        if let Ok(Err(e)) = (s.encode_to)(&v, &mut w) {
            inspect(c, "encoding into a failing writer", &e);
        }
    });
    crate::p_noise::c28_noise(ctx);
    crate::p_cert::c28_cert(ctx);
    ctx.require(&["errors format", "display text not empty", "cause chain ends"]);
}

/// A value of kind `k` that violates a size or requirement somewhere, if possible.
fn spoil(c: &mut Case, k: &Kind) -> Option<Val> {
    Some(match k {
        Kind::U24 => Val::U((1 << 24) + (c.rng.u32() >> 9) as u64),
        Kind::Str(m) => Val::S("y".repeat(m + 1 + c.rng.below(40))),
        Kind::Bytes(_, m) if *m < 70_000 => {
            let n = m + 1 + c.rng.below(40);
            Val::B(gen_bytes_len(&mut c.rng, n))
        }
        Kind::Msg(_, f) => {
            let mut v = match gen(&mut c.rng, k) {
                Val::M(v) => v,
                _ => return None,
            };
            let j = c.rng.below(f.len());
            match &f[j].1 {
                Kind::Str(_) => v[j] = Val::S(if c.rng.bool() { String::new() } else { "z".repeat(256) }),
                Kind::U16 => v[j] = Val::U(c.rng.below(2) as u64),
                Kind::Bytes(_, m) if *m < 70_000 => v[j] = Val::B(vec![1; m + 1]),
                Kind::Flags(_) => v[j] = Val::U(0),
                _ => return None,
            }
            Val::M(v)
        }
        Kind::Setup(a, _) => Val::Setup(0, Box::new(spoil(c, a)?)),
        _ => return None,
    })
}
