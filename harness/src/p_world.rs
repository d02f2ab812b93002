//! Monitors for equality and copies (C31), whole connections (C32), independence of
//! unrelated history (C33) and long-running use (C34).

use crate::alloc::measure;
use crate::ctx::{guard, Case, Caught, Ctx};
use crate::model::{enc, gen, gen_f32, hostile, mutate, valid, Kind, Val};
use crate::p_cert::issue;
use crate::p_codec::hostile_input;
use crate::p_codec2::auth_key;
use crate::p_noise::{gen_priv, gen_prologue, keypair};
use crate::p_peer::{Job, Plain, JOB_KINDS};
use crate::refcrypto::x25519_base;
use crate::subjects::*;
use crate::util::{base58, hash, hex, hexs, Rng};
use crate::vclock;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::collections::VecDeque;
use std::io::{self, Write};
use std::time::UNIX_EPOCH;
use stratumv2::types::unix_timestamp::system_unix_time_to_u32;
use std::str::FromStr;
use stratumv2::codec::{deserialize, serialize, ByteParser, Deserializable, Message, Serializable};
use stratumv2::common;
use stratumv2::network::{ConnectionEncryptor, Encryptor, NetworkConfig, NewConnReceiver, NoiseConfig, Peer, ServerConfig};
use stratumv2::noise::{new_noise_initiator, new_noise_responder, CertificateFormat, SignatureNoiseMessage, SignedCertificate};
use stratumv2::{job_negotiation as jn, mining};

// ---------------------------------------------------------------- C31

/// Equality as the fields define it: floats as numbers, all else bit for bit.
fn ieq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        (Val::M(x), Val::M(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| ieq(a, b)),
        (Val::Setup(i, x), Val::Setup(j, y)) => i == j && ieq(x, y),
        _ => a == b,
    }
}

/// Changes one leaf a little.
fn tweak(r: &mut Rng, k: &Kind, v: &mut Val) {
    match (k, v) {
        (Kind::Msg(_, f), Val::M(m)) => {
            let i = r.below(f.len());
            tweak(r, &f[i].1, &mut m[i]);
        }
        (Kind::Setup(a, b), Val::Setup(i, x)) => tweak(r, if *i == 0 { a } else { b }, x),
        (_, Val::U(x)) => {
            *x = match r.below(4) {
                0 => x.wrapping_add(1),
                1 => x.wrapping_sub(1),
                2 => *x ^ (1 << r.below(32)),
                _ => x.swap_bytes() >> (8 * r.below(8)),
            }
        }
        (_, Val::F(x)) => {
            *x = match r.below(6) {
                0 => x.wrapping_add(1),
                1 => *x ^ 0x8000_0000,
                2 => *x ^ (1 << r.below(32)),
                3 => 0,
                4 => 0x8000_0000,
                _ => gen_f32(r),
            }
        }
        (_, Val::A(a)) => {
            let n = a.len();
            a[r.below(n)] ^= 1 << r.below(8);
        }
        (_, Val::S(s)) => {
            let mut c: Vec<char> = s.chars().collect();
            match r.below(6) {
                0 => c.push(*r.pick(&['a', ' ', '\0', 'é'])),
                1 => {
                    c.pop();
                }
                2 if !c.is_empty() => {
                    let i = r.below(c.len());
                    c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
                }
                3 if c.len() > 1 => {
                    let i = r.below(c.len() - 1);
                    c.swap(i, i + 1);
                }
                4 => c.insert(0, 'x'),
                _ if !c.is_empty() => {
                    let i = r.below(c.len());
                    c[i] = char::from_u32(c[i] as u32 ^ 1).unwrap_or('?');
                }
                _ => c.push('z'),
            }
            *s = c.into_iter().collect();
        }
        (_, Val::B(b)) | (_, Val::Frame(_, b)) if r.chance(3, 4) => match r.below(4) {
            0 => b.push(0),
            1 => {
                b.pop();
            }
            _ if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            _ => b.push(1),
        },
        (k, v) => *v = gen(r, k),
    }
}

fn judge_pair(c: &mut Case, s: &Subject, a: &Val, b: &Val) {
    let (ra, rb) = (c.rng.below(3) as u8, c.rng.below(3) as u8);
    let want = ieq(a, b);
    let got = match c.run("comparing returns", || format!("{}: {} and {}", s.name, a.show(), b.show()), || (s.relate)(a, ra, b, rb)) {
        Some(Ok(Some(g))) => g,
        Some(Ok(None)) => return,
        // whether it can be built and decoded is another property's question
        Some(Err(_)) => {
            c.obs("pairs that could not be obtained", 1);
            return;
        }
        None => return,
    };
    c.eval(hash(&[s.name.as_bytes(), a.show().as_bytes(), b.show().as_bytes(), &[ra, rb]]));
    c.obs(if want { "equal pairs" } else { "unequal pairs" }, 1);
    c.check("equal exactly if the content is", got == [want, want, !want, !want], || {
        format!(
            "{}: {} ({}) and {} ({}): a == b {}, b == a {}, a != b {}, b != a {}; the contents are {}",
            s.name, a.show(), ROUTES[ra as usize], b.show(), ROUTES[rb as usize], got[0], got[1], got[2], got[3], if want { "equal" } else { "different" }
        )
    });
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("an input is a pair of values of one type (alike, differing in one field by little, or unrelated), each obtained by construction, decoding or cloning, or a pair of keys; distinct by type, contents and origin. The oracle compares the contents field by field.");
    let subs = subjects();
    ctx.section("pairs", ctx.n(40_000, 2_000_000), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let a = gen(&mut c.rng, &s.kind);
        judge_pair(c, s, &a, &a);
        for _ in 0..4 {
            let mut b = a.clone();
            tweak(&mut c.rng, &s.kind, &mut b);
            if c.rng.chance(1, 5) {
                tweak(&mut c.rng, &s.kind, &mut b);
            }
            if valid(&s.kind, &b) {
                judge_pair(c, s, &a, &b);
            }
        }
        let b = gen(&mut c.rng, &s.kind);
        judge_pair(c, s, &a, &b);
        c.sample(|| format!("{}: {} and {}", s.name, a.show(), b.show()));
    });
    // every bit of every fixed-size field
    ctx.section("one-leaf", if ctx.tiny() { 4 } else { subs.len() as u64 * ctx.n(2, 60) }, |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let a = gen(&mut c.rng, &s.kind);
        fn leaves(v: &Val, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, usize)>) {
            match v {
                Val::M(m) => {
                    for (i, x) in m.iter().enumerate() {
                        path.push(i);
                        leaves(x, path, out);
                        path.pop();
                    }
                }
                Val::Setup(_, x) => leaves(x, path, out),
                Val::U(_) | Val::F(_) => out.push((path.clone(), 32)),
                Val::A(a) => out.push((path.clone(), a.len() * 8)),
                Val::B(b) | Val::Frame(_, b) => out.push((path.clone(), (b.len() * 8).min(4096))),
                _ => {}
            }
        }
        fn at<'a>(v: &'a mut Val, p: &[usize]) -> &'a mut Val {
            if let Val::Setup(_, x) = v {
                return at(x, p);
            }
            if p.is_empty() {
                return v;
            }
            match v {
                Val::M(m) => at(&mut m[p[0]], &p[1..]),
                _ => unreachable!(),
            }
        }
        let mut ls = Vec::new();
        leaves(&a, &mut Vec::new(), &mut ls);
        for (p, bits) in ls {
            for bit in 0..bits {
                let mut b = a.clone();
                match at(&mut b, &p) {
                    Val::U(x) => *x ^= 1 << bit,
                    Val::F(x) => *x ^= 1 << bit,
                    Val::A(x) | Val::B(x) | Val::Frame(_, x) => x[bit / 8] ^= 1 << (bit % 8),
                    _ => unreachable!(),
                }
                if valid(&s.kind, &b) {
                    judge_pair(c, s, &a, &b);
                }
            }
        }
    });
    ctx.section("large", if ctx.tiny() { 0 } else { ctx.n(8, 80).min(400) }, |c| {
        let n = *c.rng.pick(&[65_535usize, 65_534, 1 << 20, (1 << 24) - 1]);
        let p: Vec<u8> = c.rng.bytes(n);
        for (s, a) in [
            (by_name("Message"), Val::Frame(1, p.clone())),
            (by_name("B0_16M"), Val::B(p.clone())),
            (by_name("B0_64K"), Val::B(p[..n.min(65535)].to_vec())),
        ] {
            for k in 0..3 {
                let mut b = a.clone();
                if let Val::B(x) | Val::Frame(_, x) = &mut b {
                    let m = x.len();
                    match k {
                        0 => x[m - 1] ^= 1,
                        1 => x[c.rng.below(m)] ^= 0x80,
                        _ => {
                            x.truncate(m - 1);
                        }
                    }
                }
                let got = (s.relate)(&a, 0, &b, k as u8);
                c.eval(hash(&[s.name.as_bytes(), &n.to_le_bytes(), &[k as u8], &p[..16]]));
                if let Ok(Some(g)) = got {
                    c.check("equal exactly if the content is", g == [false, false, true, true], || format!("{}: two values of {n} bytes that differ compare {g:?}", s.name));
                }
            }
            if let Ok(Some(g)) = (s.relate)(&a, 0, &a, 2) {
                c.check("equal exactly if the content is", g == [true, true, false, false], || format!("{}: a value of {n} bytes and its clone compare {g:?}", s.name));
            }
        }
    });
    // values beside plain data of the same and of other content
    ctx.section("plain-data", ctx.n(300, 20_000), |c| {
        macro_rules! beside {
            ($what:expr, $x:expr, $d:expr, $near:expr) => {{
                let (x, d) = ($x, $d);
                c.check("equal exactly if the content is", x == d && d == x && !(x != d) && !(d != x), || format!("{} differs from its own content {d:?}", $what));
                for e in $near {
                    c.check("equal exactly if the content is", !(x == e) && !(e == x) && x != e && e != x, || {
                        let (a, b) = (format!("{d:?}"), format!("{e:?}"));
                        format!("{} of {} equals {}", $what, a.chars().take(300).collect::<String>(), b.chars().take(300).collect::<String>())
                    });
                }
            }};
        }
        let big = c.idx % 64 == 5 && !c.ctx.tiny();
        let n = if big { c.rng.range(1 << 19, 5 << 20) } else { c.rng.below(300) };
        let d = c.rng.bytes(n);
        let mut near = vec![[&d[..], &[0]].concat()];
        if n > 0 {
            near.push(d[..n - 1].to_vec());
            near.push(d[1..].to_vec());
            for k in [0, n - 1, n / 2, c.rng.below(n), c.rng.below(n)] {
                let mut e = d.clone();
                e[k] ^= 1 << c.rng.below(8);
                near.push(e);
            }
        }
        c.eval(hash(&[b"plain", &d[..n.min(64)], &(n as u64).to_le_bytes()]));
        use stratumv2::types::{STR0_255, STR0_32, B0_16M, B0_255, B0_31, B0_32, B0_64K, U24, U256};
        for t in 0..5 {
            match t {
                0 => if let Ok(x) = B0_31::new(d.clone()) { beside!("B0_31", x, d.clone(), near.clone()) },
                1 => if let Ok(x) = B0_32::new(d.clone()) { beside!("B0_32", x, d.clone(), near.clone()) },
                2 => if let Ok(x) = B0_255::new(d.clone()) { beside!("B0_255", x, d.clone(), near.clone()) },
                3 => if let Ok(x) = B0_64K::new(d.clone()) { beside!("B0_64K", x, d.clone(), near.clone()) },
                _ => if let Ok(x) = B0_16M::new(d.clone()) { beside!("B0_16M", x, d.clone(), near.clone()) },
            }
        }
        let n = c.rng.below(40);
        let d = crate::model::gen_str_len(&mut c.rng, n);
        let near: Vec<String> = (0..12).map(|_| crate::model::near_text(&mut c.rng, &d)).filter(|e| *e != d).collect();
        if let Ok(x) = STR0_32::new(d.clone()) {
            beside!("STR0_32", x, d.clone(), near.clone());
        }
        if let Ok(x) = STR0_255::new(d.clone()) {
            beside!("STR0_255", x, d.clone(), near.clone());
        }
        let d = c.rng.u32() >> (8 + c.rng.below(24));
        let bit = c.rng.below(32);
        if let Ok(x) = U24::new(d) {
            beside!("U24", x, d, [d ^ 1 << bit, d.wrapping_add(1 << 24), d.wrapping_add(1)]);
        }
        let d = c.rng.arr32();
        let mut e = d;
        e[bit] ^= 1 << c.rng.below(8);
        let mut rev = d;
        rev.reverse();
        beside!("U256", U256(d), d, [e, rev]);
    });
    ctx.section("clones", ctx.n(20_000, 500_000), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let v = gen(&mut c.rng, &s.kind);
        if let Some(Ok(Some((r, e, o)))) = c.run("cloning returns", || format!("{}: {}", s.name, v.show()), || (s.cloned)(&v)) {
            let want = enc(&s.kind, &v);
            c.eval(hash(&[b"clone", s.name.as_bytes(), &want]));
            c.check("a clone has the content of its original", r == v && e == want, || {
                format!("{}: a clone of {} is {} and encodes to {}", s.name, v.show(), r.show(), hexs(&e))
            });
            c.check("dropping a clone leaves the original", o == v, || format!("{}: {} is {} after a clone of it was dropped", s.name, v.show(), o.show()));
        }
    });
    ctx.section("keys", ctx.n(3000, 80_000), |c| {
        let k = gen_priv(&mut c.rng);
        let bit = c.rng.below(256);
        let mut l = k;
        l[bit / 8] ^= 1 << (bit % 8);
        let (a, b) = (PrivateKey::from_bytes(k), PrivateKey::from_bytes(l));
        c.eval(hash(&[b"key", &k, &l]));
        c.check("keys are equal exactly if their bytes are", a == PrivateKey::from_bytes(k) && a == a.clone() && a != b && b != a, || {
            format!("private keys {} and {} (bit {bit}) compare wrongly", hex(&k), hex(&l))
        });
        let (pk, mut pl) = (x25519_base(&k), x25519_base(&k));
        let bit = if c.rng.chance(1, 8) { 255 } else { c.rng.below(256) };
        pl[bit / 8] ^= 1 << (bit % 8);
        if let (Ok(a), Ok(a2), Ok(b)) = (PublicKey::from_bytes(pk), PublicKey::from_bytes(pk), PublicKey::from_bytes(pl)) {
            let x = a;
            c.check("keys are equal exactly if their bytes are", a == a2 && a == x && x.as_bytes() == pk && a != b && b != a, || {
                format!("public keys {} and {} (bit {bit}) compare wrongly", hex(&pk), hex(&pl))
            });
        }
        // the clamped bits make no other key pair, but another private key
        if let (Ok(p), Ok(p2), Ok(q)) = (Keypair::from_private_key(a.clone()), Keypair::from_private_key(a.clone()), Keypair::from_private_key(b)) {
            let mut cl = p.clone();
            c.check("keys are equal exactly if their bytes are", p == p2 && p == cl && p != q && q != p, || {
                format!("key pairs of {} and {} compare wrongly", hex(&k), hex(&l))
            });
            cl.clear();
            c.check("dropping a clone leaves the original", p == p2 && !p.is_empty() && p.get_public_key().as_bytes() == pk && cl.is_empty(), || {
                format!("clearing a clone of the key pair of {} changed the original", hex(&k))
            });
        }
    });
    // configurations are plain records
    ctx.section("configurations", ctx.n(2000, 20_000), |c| {
        let x = issue(&mut c.rng);
        let kp = keypair(&gen_priv(&mut c.rng));
        let n = c.rng.below(60);
        let addr = crate::model::gen_str_len(&mut c.rng, n);
        let local = c.rng.bool();
        let bits = c.rng.u32() & mining::SetupConnectionFlags::all().bits();
        let fl = mining::SetupConnectionFlags::from_bits(bits).expect("defined flags");
        c.eval(hash(&[b"config", addr.as_bytes(), &bits.to_le_bytes(), &x.msg.signature.to_bytes()]));
        let a = NoiseConfig::new(x.msg.clone(), kp.clone());
        let b = a.clone();
        drop(a);
        c.check("a configuration holds what it was given", b.sig_noise_msg == x.msg && b.static_key == kp, || "a noise configuration differs from its parts".into());
        let a = NetworkConfig::new(addr.clone(), local);
        let b = a.clone();
        drop(a);
        c.check("a configuration holds what it was given", b.listening_addr == addr && b.local_network_encryption == local, || {
            format!("a network configuration of {addr:?}, {local} holds {:?}, {}", b.listening_addr, b.local_network_encryption)
        });
        c.check("a configuration holds what it was given", ServerConfig::new(fl).mining_flags == fl, || format!("a server configuration of {fl:?} holds other flags"));
    });
    ctx.require(&[
        "equal exactly if the content is",
        "equal pairs",
        "unequal pairs",
        "a clone has the content of its original",
        "keys are equal exactly if their bytes are",
        "a configuration holds what it was given",
    ]);
}

// ---------------------------------------------------------------- C32

/// One end of a connection: noise session, queue, and the stream it reads.
struct End {
    init: bool,
    s: NoiseSession,
    peer: Peer<Plain>,
    /// encrypted bytes on their way to this end
    wire: VecDeque<u8>,
    /// received, not yet a whole record
    inbox: Vec<u8>,
    /// decrypted, not yet a whole frame
    plain: Vec<u8>,
    /// what this end queued, in order
    queued: Vec<(usize, Val)>,
    /// what this end obtained
    got: Vec<(usize, Val)>,
    records_out: u64,
    records_in: u64,
    failed: Option<String>,
}

struct Server {
    answered: std::sync::atomic::AtomicU64,
}
impl NewConnReceiver<Plain> for Server {
    fn handle_new_conn(&self, flags: &mining::SetupConnectionFlags, conn: common::SetupConnection, peer: &mut Peer<Plain>) -> stratumv2::error::Result<()> {
        self.answered.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let reply = match &conn {
            common::SetupConnection::Mining(m) => {
                let missing = m.flags.bits() & !flags.bits();
                if missing != 0 {
                    stratumv2::codec::frame(&mining::SetupConnectionError::new(
                        mining::SetupConnectionFlags::from_bits(missing).expect("subset of flags"),
                        common::SetupConnectionErrorCode::UnsupportedFeatureFlags,
                    )?)?
                } else {
                    stratumv2::codec::frame(&mining::SetupConnectionSuccess::new(m.max_version, mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION)?)?
                }
            }
            common::SetupConnection::JobNegotiation(m) => stratumv2::codec::frame(&jn::SetupConnectionSuccess::new(m.max_version, jn::SetupConnectionSuccessFlags::empty())?)?,
        };
        peer.setup_conn_msg = Some(conn);
        peer.pending_msg_buffer.lock().unwrap().push(reply);
        Ok(())
    }
}

/// A connection setup through a message handler, with defined and undefined flags.
pub fn setup_exchange(r: &mut Rng) {
    let s = by_name("common::SetupConnection");
    let v = gen(r, &s.kind);
    let flags = mining::SetupConnectionFlags::from_bits_truncate(r.u32());
    let server = Server { answered: Default::default() };
    let mut peer = Peer::new(Plain(1));
    let run = || -> stratumv2::error::Result<()> {
        let m: Message = deserialize(&serialize(&s.frame.unwrap()(&v).map_err(|_| stratumv2::error::Error::Unimplemented())?)?)?;
        server.handle_new_conn(&flags, stratumv2::codec::unframe(&m)?, &mut peer)?;
        for x in peer.get_pending_msgs() {
            let _ = (stratumv2::codec::unframe::<mining::SetupConnectionError>(&x).is_ok(), stratumv2::codec::unframe::<mining::SetupConnectionSuccess>(&x).is_ok());
            let _ = stratumv2::codec::unframe::<common::SetupConnection>(&x).is_ok();
        }
        Ok(())
    };
    let mut run = run;
    let _ = run().map_err(|e| format!("{e} {e:?}"));
}

/// The messages that connections exchange: a setup message names its protocol.
fn exchanged() -> Vec<&'static Subject> {
    messages().into_iter().filter(|s| s.name != "mining::SetupConnection" && s.name != "job_negotiation::SetupConnection").collect()
}
impl End {
    fn new(init: bool, s: NoiseSession) -> End {
        End {
            init,
            s,
            peer: Peer::new(Plain(0)),
            wire: VecDeque::new(),
            inbox: vec![],
            plain: vec![],
            queued: vec![],
            got: vec![],
            records_out: 0,
            records_in: 0,
            failed: None,
        }
    }
    fn queue(&mut self, i: usize, v: &Val) -> bool {
        let s = exchanged()[i];
        match s.frame.unwrap()(v) {
            Ok(m) => {
                self.peer.pending_msg_buffer.lock().unwrap().push(m);
                self.queued.push((i, v.clone()));
                true
            }
            Err(_) => false,
        }
    }
    /// Drains the queue into encrypted records.
    fn flush(&mut self, r: &mut Rng, rekey: u64) -> Result<Vec<Vec<u8>>, String> {
        let mut bytes = Vec::new();
        for m in self.peer.get_pending_msgs() {
            m.serialize(&mut bytes).map_err(|e| format!("a queued frame does not encode: {e}"))?;
        }
        let mut out = Vec::new();
        let mut at = 0;
        while at < bytes.len() {
            let n = match r.below(4) {
                0 => 1 + r.below(8),
                1 => 65_519,
                _ => 1 + r.below(1200),
            }
            .min(bytes.len() - at);
            let mut rec = bytes[at..at + n].to_vec();
            rec.extend_from_slice(&[0; 16]);
            self.s.send_message(&mut rec).map_err(|e| format!("a record of {n} bytes is not encrypted: {e}"))?;
            self.records_out += 1;
            if rekey > 0 && self.records_out % rekey == 0 {
                // the "local" cipher state is the one from initiator to responder, on both sides
                if self.init {
                    self.s.rekey_local_cipherstate();
                } else {
                    self.s.rekey_remote_cipherstate();
                }
            }
            out.push(rec);
            at += n;
        }
        Ok(out)
    }
    /// Takes some bytes off the wire; decrypts whole records and takes whole frames.
    fn read(&mut self, n: usize, rekey: u64) {
        if self.failed.is_some() {
            return;
        }
        let n = n.min(self.wire.len());
        self.inbox.extend(self.wire.drain(..n));
        while self.inbox.len() >= 2 {
            let l = u16::from_le_bytes([self.inbox[0], self.inbox[1]]) as usize;
            if self.inbox.len() < 2 + l {
                break;
            }
            let mut rec: Vec<u8> = self.inbox[2..2 + l].to_vec();
            self.inbox.drain(..2 + l);
            if let Err(e) = self.s.recv_message(&mut rec) {
                self.failed = Some(format!("record {}: {e}", self.records_in));
                return;
            }
            self.records_in += 1;
            if rekey > 0 && self.records_in % rekey == 0 {
                if self.init {
                    self.s.rekey_remote_cipherstate();
                } else {
                    self.s.rekey_local_cipherstate();
                }
            }
            self.plain.extend_from_slice(&rec[..l - 16]);
            while self.plain.len() >= 6 {
                let need = 6 + u32::from_le_bytes([self.plain[3], self.plain[4], self.plain[5], 0]) as usize;
                if self.plain.len() < need {
                    break;
                }
                match self.take() {
                    Ok(()) => {}
                    Err(e) => {
                        self.failed = Some(e);
                        return;
                    }
                }
                self.plain.drain(..need);
            }
        }
    }
    fn take(&mut self) -> Result<(), String> {
        let m: Message = deserialize(&self.plain).map_err(|e| format!("frame: {e}"))?;
        let ms = exchanged();
        // the message type decides who gets it, as in the examples
        for (i, s) in ms.iter().enumerate() {
            if MT_V[s.ftype.unwrap()] == m.message_type {
                if let Ok(v) = s.unframe.unwrap()(&m) {
                    // the same type carries mining and job negotiation messages: offer all
                    self.got.push((i, v));
                    return Ok(());
                }
            }
        }
        Err(format!("no message type takes the frame {m:?}"))
    }
}

fn whole_connection(c: &mut Case, mode: usize) {
    let r0 = &mut c.rng.clone();
    let sp = gen_priv(r0);
    let stat = keypair(&sp);
    let auth = auth_key(&r0.arr32());
    let text = base58(&auth.public.to_bytes());
    let from = r0.u32() / 2;
    let to = from + 1 + r0.u32() / 4;
    let version = r0.u32() as u16;
    let now = from as i64 + r0.below((to - from) as usize) as i64;
    let cert = match SignedCertificate::new(version, from, to, &stat.get_public_key()).and_then(|x| SignatureNoiseMessage::from_auth_key(&auth, &x)) {
        Ok(x) => x,
        Err(e) => return c.fail("connection established", format!("no certificate: {e}")),
    };
    c.eval(hash(&[b"connection", &sp, &auth.public.to_bytes(), &[mode as u8], &c.idx.to_le_bytes()]));
    let mut cl = End::new(true, new_noise_initiator());
    let mut sv = End::new(false, new_noise_responder(Some(stat)));
    // the handshake, as the example does it
    let n = 96 + c.rng.below(900);
    let mut b = vec![0u8; n];
    let ok = cl.s.send_message(&mut b).is_ok() && sv.s.recv_message(&mut b).is_ok() && sv.s.send_message(&mut b).is_ok() && {
        if mode == 1 {
            // somebody in the middle
            let at = if c.rng.bool() { c.rng.below(96) } else { c.rng.below(n) };
            b[at] ^= 1 << c.rng.below(8);
        }
        cl.s.recv_message(&mut b).is_ok()
    };
    if mode == 1 {
        c.obs("disturbed handshakes", 1);
        c.check("a disturbed connection is not established", !ok && !cl.s.is_transport() && cl.s.get_remote_static_public_key().is_none(), || {
            "the client completes the handshake though its reply was changed".into()
        });
        return;
    }
    if !c.check("connection established", ok && cl.s.is_transport() && sv.s.is_transport() && cl.s.get_handshake_hash() == sv.s.get_handshake_hash(), || {
        format!("an undisturbed handshake of {n} bytes per message does not complete")
    }) {
        return;
    }
    let rekey = *c.rng.pick(&[0u64, 0, 1, 2, 7]);
    // the server presents its certificate
    let mut rec = serialize(&cert).unwrap_or_default();
    rec.extend_from_slice(&[0; 16]);
    let sent = sv.s.send_message(&mut rec).is_ok();
    let mut rec2 = rec.clone();
    let got = cl.s.recv_message(&mut rec2).is_ok();
    let remote = cl.s.get_remote_static_public_key();
    vclock::set(Some((now, 0)));
    let v = remote.as_ref().map(|k| deserialize::<SignatureNoiseMessage>(&rec2).and_then(|m| CertificateFormat::new(&text, k, &m)?.verify()));
    // the same server would not be taken for one of another authority, nor outside the period
    let other = base58(&auth_key(&c.rng.arr32()).public.to_bytes());
    let foreign = remote.as_ref().map(|k| CertificateFormat::new(&other, k, &cert).and_then(|f| f.verify()).is_ok());
    vclock::set(Some((to as i64, 0)));
    let late = remote.as_ref().map(|k| CertificateFormat::new(&text, k, &cert).and_then(|f| f.verify()).is_ok());
    vclock::set(None);
    c.check("the client verifies the server", sent && got && matches!(v, Some(Ok(()))), || {
        format!("certificate version {version} {from}..{to} at {now}: {:?}", v.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string()).err()))
    });
    c.check("the client refuses an impostor", foreign != Some(true) && late != Some(true), || {
        format!("the certificate verifies for another authority: {foreign:?}, after its end: {late:?}")
    });
    // messages both ways, the stream cut anywhere
    let ms = exchanged();
    let rounds = 1 + c.rng.below(4);
    let hostile_at = c.rng.below(rounds);
    let setup = ms.iter().position(|s| s.name == "common::SetupConnection");
    let mut broken: Option<(bool, usize)> = None; // direction, messages that must still arrive
    for round in 0..rounds {
        for dir in [true, false] {
            let (from_, to_) = if dir { (&mut cl, &mut sv) } else { (&mut sv, &mut cl) };
            // now and then a burst
            let k = if c.rng.chance(1, 6) { 8 + c.rng.below(60) } else { c.rng.below(6) };
            for q in 0..k {
                let i = match setup {
                    Some(i) if dir && round == 0 && q == 0 => i,
                    _ => c.rng.below(ms.len()),
                };
                let v = gen(&mut c.rng, &ms[i].kind);
                from_.queue(i, &v);
            }
            let before = to_.got.len();
            let recs = match from_.flush(&mut c.rng, rekey) {
                Ok(x) => x,
                Err(e) => return c.fail("every queued message is sent", e),
            };
            let mut recs: Vec<Vec<u8>> = recs;
            if mode == 2 && round >= hostile_at && broken.is_none() && !recs.is_empty() {
                // exactly one record is disturbed; all before it must arrive, nothing after it
                let x = c.rng.below(recs.len());
                match c.rng.below(5) {
                    0 => {
                        recs.remove(x);
                        if x >= recs.len() {
                            // nothing follows: a loss at the end shows at the next record only
                            recs.push(vec![0; 16]);
                        }
                    }
                    1 => {
                        let d = recs[x].clone();
                        recs.insert(x + 1, d);
                    }
                    2 if x + 1 < recs.len() => recs.swap(x, x + 1),
                    3 => {
                        let n = recs[x].len();
                        recs[x].truncate(16.max(n - 1 - c.rng.below(n)).min(n - 1));
                    }
                    _ => {
                        let n = recs[x].len();
                        recs[x][c.rng.below(n)] ^= 1 << c.rng.below(8);
                    }
                }
                broken = Some((dir, before));
                c.obs("disturbed streams", 1);
            }
            for rec in recs {
                to_.wire.extend((rec.len() as u16).to_le_bytes());
                to_.wire.extend(rec);
            }
            while !to_.wire.is_empty() && to_.failed.is_none() {
                let n = match c.rng.below(4) {
                    0 => 1,
                    1 => 1 + c.rng.below(20),
                    2 => 1 + c.rng.below(3000),
                    _ => usize::MAX,
                };
                to_.read(n, rekey);
                c.obs("reads", 1);
            }
            if broken.is_some() {
                break;
            }
        }
        if broken.is_some() {
            break;
        }
    }
    c.obs("messages delivered", (cl.got.len() + sv.got.len()) as u64);
    c.obs("records delivered", (cl.records_in + sv.records_in) as u64);
    for (name, a, b, dir) in [("server", &cl, &sv, true), ("client", &sv, &cl, false)] {
        let disturbed = matches!(broken, Some((d, _)) if d == dir);
        // several types share a frame type: compare the frames' content as encoded
        let bytes = |x: &(usize, Val)| (ms[x.0].ftype, enc(&ms[x.0].kind, &x.1));
        let prefix = b.got.len() <= a.queued.len() && b.got.iter().zip(&a.queued).all(|(x, y)| bytes(x) == bytes(y));
        c.check("only what was queued arrives, in order", prefix, || {
            format!("the {name} obtains {} messages that are not the first ones of the {} queued for it", b.got.len(), a.queued.len())
        });
        if disturbed {
            c.check("a disturbed stream ends in an error", b.failed.is_some(), || format!("the {name} accepts a stream with a changed, lost, repeated or swapped record"));
        } else {
            c.check("everything queued arrives", b.failed.is_none() && b.got.len() == a.queued.len(), || {
                format!("the {name} obtains {} of {} messages: {:?}", b.got.len(), a.queued.len(), b.failed)
            });
        }
    }
    c.sample(|| format!("{rounds} rounds, {} and {} messages, {} records, rekey every {rekey}", cl.queued.len(), sv.queued.len(), cl.records_out + sv.records_out));
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("an input is a whole connection between a client and a server: handshake, certificate, and rounds of queued messages of all types both ways, framed, encrypted in records of varying size, cut into varying reads, with or without one disturbance in between, rekeying at agreed points. Distinct by keys and case.");
    ctx.section("undisturbed", ctx.n(1200, 40_000), |c| whole_connection(c, 0));
    ctx.section("disturbed-handshake", ctx.n(600, 20_000), |c| whole_connection(c, 1));
    ctx.section("disturbed-stream", ctx.n(1200, 40_000), |c| whole_connection(c, 2));
    // much at once: everything queued leaves with the next drain and arrives
    ctx.section("bulk", if ctx.tiny() { 1 } else { ctx.n(4, 60).min(200) }, |c| {
        let mut i = NoiseSession::init_session(true, b"", keypair(&gen_priv(&mut c.rng)));
        let mut s = NoiseSession::init_session(false, b"", keypair(&gen_priv(&mut c.rng)));
        let mut b = [0u8; 96];
        if !(i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok() && i.recv_message(&mut b).is_ok()) {
            return c.fail("connection established", "a handshake fails".into());
        }
        let peer = Peer::new(Plain(0));
        let most = if c.ctx.tiny() { 1usize << 12 } else { 1 << c.rng.range(16, 23) };
        let each = *c.rng.pick(&[0usize, 40, 300, 5000, 65_535, 70_000, 1 << 20]);
        let (mut sent, mut bytes) = (Vec::new(), 0);
        while bytes < most && sent.len() < 20_000 {
            let n = c.rng.below(2 * each + 2).min(most);
            let m = Message::new(MT_V[c.rng.below(MT_V.len())], c.rng.bytes(n));
            bytes += n + 6;
            sent.push(serialize(&m).unwrap_or_default());
            peer.pending_msg_buffer.lock().unwrap().push(m);
        }
        c.eval(hash(&[b"bulk", &(bytes as u64).to_le_bytes(), &sent.concat()]));
        let mut stream = Vec::new();
        for m in peer.get_pending_msgs() {
            let _ = m.serialize(&mut stream);
        }
        c.check("everything queued arrives", stream.len() == bytes, || format!("{} messages of {bytes} bytes were queued, a drain gave {} bytes", sent.len(), stream.len()));
        let mut plain = Vec::new();
        for part in stream.chunks(65_519) {
            let mut rec = part.to_vec();
            rec.extend_from_slice(&[0; 16]);
            if i.send_message(&mut rec).is_err() || s.recv_message(&mut rec).is_err() {
                return c.fail("everything queued arrives", format!("a record of {} bytes is lost", part.len()));
            }
            plain.extend_from_slice(&rec[..part.len()]);
        }
        let mut at = 0;
        for (k, m) in sent.iter().enumerate() {
            let got = plain.get(at..at + m.len()).and_then(|b| deserialize::<Message>(b).ok()).and_then(|x| serialize(&x).ok());
            if !c.check("only what was queued arrives, in order", got.as_ref() == Some(m), || format!("message {k} of {}, {} bytes, arrives changed", sent.len(), m.len())) {
                return;
            }
            at += m.len();
        }
        let rest = peer.get_pending_msgs();
        c.check("only what was queued arrives, in order", rest.is_empty(), || format!("{} messages come a second time", rest.len()));
        c.obs("bytes sent in bulk", bytes as u64);
    });
    // connection setup through a message handler of a server
    ctx.section("setup", ctx.n(3000, 80_000), |c| {
        let s = by_name("common::SetupConnection");
        let v = gen(&mut c.rng, &s.kind);
        let bits = c.rng.u32() & mining::SetupConnectionFlags::all().bits();
        let flags = mining::SetupConnectionFlags::from_bits(bits).expect("defined flags");
        let server = Server { answered: Default::default() };
        let mut peer = Peer::new(Plain(1));
        let want = enc(&s.kind, &v);
        c.eval(hash(&[b"setup", &want, &bits.to_le_bytes()]));
        let r = (|| -> Result<Message, String> {
            let m = s.frame.unwrap()(&v).map_err(|e| format!("framing: {e}"))?;
            let wire = serialize(&m).map_err(|e| format!("encoding: {e}"))?;
            let m: Message = deserialize(&wire).map_err(|e| format!("decoding: {e}"))?;
            let conn: common::SetupConnection = stratumv2::codec::unframe(&m).map_err(|e| format!("unframing: {e}"))?;
            server.handle_new_conn(&flags, conn, &mut peer).map_err(|e| format!("handling: {e}"))?;
            let mut q = peer.get_pending_msgs();
            match (q.len(), q.pop()) {
                (1, Some(x)) => deserialize(&serialize(&x).map_err(|e| format!("encoding the reply: {e}"))?).map_err(|e| format!("decoding the reply: {e}")),
                (n, _) => Err(format!("{n} replies")),
            }
        })();
        let reply = match r {
            Ok(x) => x,
            Err(e) => return c.fail("connection setup is answered", format!("{} with server flags {bits:#x}: {e}", v.show())),
        };
        let kept = peer.setup_conn_msg.as_ref().map(|m| serialize(m).unwrap_or_default());
        c.check("the setup message is kept as sent", kept.as_deref() == Some(&want[..]), || format!("{}: the connection keeps {:?}", v.show(), kept.as_deref().map(hexs)));
        let (proto, body) = match &v {
            Val::Setup(p, b) => (*p, b.m()),
            _ => return c.ctx.error("setup values".into()),
        };
        let (asked, ver) = (body[2].u() as u32, body[1].u() as u16);
        if proto == 0 && asked & !bits != 0 {
            let e = stratumv2::codec::unframe::<mining::SetupConnectionError>(&reply);
            c.obs("refused setups", 1);
            c.check("the client learns the server's answer", matches!(&e, Ok(x) if x.flags.bits() == asked & !bits && x.error_code == common::SetupConnectionErrorCode::UnsupportedFeatureFlags), || {
                format!("asked for {asked:#x} with {bits:#x} supported, the client reads {e:?}")
            });
            c.check("the client learns the server's answer", stratumv2::codec::unframe::<mining::SetupConnectionSuccess>(&reply).is_err(), || "a refusal reads as success".into());
        } else if proto == 0 {
            let e = stratumv2::codec::unframe::<mining::SetupConnectionSuccess>(&reply);
            c.obs("accepted setups", 1);
            c.check("the client learns the server's answer", matches!(&e, Ok(x) if x.used_version == ver && x.flags == mining::SetupConnectionSuccessFlags::REQUIRES_FIXED_VERSION), || {
                format!("version {ver} accepted, the client reads {e:?}")
            });
            c.check("the client learns the server's answer", stratumv2::codec::unframe::<mining::SetupConnectionError>(&reply).is_err(), || "a success reads as refusal".into());
        } else {
            let e = stratumv2::codec::unframe::<jn::SetupConnectionSuccess>(&reply);
            c.obs("accepted setups", 1);
            c.check("the client learns the server's answer", matches!(&e, Ok(x) if x.used_version == ver && x.flags.bits() == 0), || format!("version {ver} accepted, the client reads {e:?}"));
        }
    });
    ctx.require(&[
        "connection established",
        "the client verifies the server",
        "the client refuses an impostor",
        "only what was queued arrives, in order",
        "everything queued arrives",
        "a disturbed stream ends in an error",
        "a disturbed connection is not established",
        "the client learns the server's answer",
        "messages delivered",
        "refused setups",
        "accepted setups",
    ]);
}

// ---------------------------------------------------------------- C33

const STEPS: u32 = 10;

/// The traces of deterministic computations, for one seed.
fn traces(seed: u64, jobs: u64) -> Vec<Vec<u64>> {
    (0..jobs)
        .map(|id| {
            let mut j = Job::new(seed, id, STEPS);
            while j.step() {}
            j.trace
        })
        .collect()
}

/// What the child process does: nothing but the given computations.
pub fn probe_child(seed: u64, jobs: u64, rev: bool) {
    let mut all: Vec<(u64, Vec<u64>)> = Vec::new();
    let ids: Vec<u64> = if rev { (0..jobs).rev().collect() } else { (0..jobs).collect() };
    for id in ids {
        let mut j = Job::new(seed, id, STEPS);
        while j.step() {}
        all.push((id, j.trace));
    }
    all.sort();
    for (_, t) in all {
        println!("{}", t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    println!("END");
}

#[derive(Clone, Copy, PartialEq)]
enum Mood {
    Fail,
    Panic,
    Nest,
    Short,
}
/// A destination that fails, panics, or uses the library itself while being written to.
struct Odd<'a> {
    mood: Mood,
    left: usize,
    seed: u64,
    out: &'a mut Vec<u8>,
}
impl Write for Odd<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            match self.mood {
                Mood::Fail => return Err(io::Error::new(io::ErrorKind::Other, "full")),
                Mood::Panic => std::panic::panic_any("a writer of the caller panics".to_string()),
                Mood::Nest => {
                    let mut j = Job::new(self.seed, self.seed % 6, 2);
                    while j.step() {}
                    self.left = 3;
                }
                Mood::Short => {}
            }
        } else {
            self.left -= 1;
        }
        let n = if self.mood == Mood::Short { b.len().min(1) } else { b.len() };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Unrelated use of the library: whatever callers may do, failures included.
fn disturb(c: &mut Case, rounds: usize) {
    let subs = subjects();
    for _ in 0..rounds {
        let kind = c.rng.below(9);
        let s = &subs[c.rng.below(subs.len())];
        let mut rng = c.rng.clone();
        c.rng.u64();
        let r = guard(|| match kind {
            0 => {
                for _ in 0..200 {
                    let b = hostile_input(&mut rng, &s.kind);
                    let _ = (s.decode_at)(&b, 0);
                    let _ = (s.reencode)(&b);
                }
            }
            1 | 2 => {
                let mood = *rng.pick(&[Mood::Fail, Mood::Panic, Mood::Nest, Mood::Short]);
                let v = gen(&mut rng, &s.kind);
                let mut out = Vec::new();
                let left = rng.below(6);
                let _ = (s.encode_to)(&v, &mut Odd { mood, left, seed: rng.u64(), out: &mut out });
            }
            3 => {
                let seed = rng.u64();
                let mut live: Vec<Job> = (0..12).map(|id| Job::new(seed, id, 4)).collect();
                while !live.is_empty() {
                    let k = rng.below(live.len());
                    if !live[k].step() || rng.chance(1, 12) {
                        live.swap_remove(k); // some are abandoned half-way
                    }
                }
            }
            4 => {
                // the clock is anywhere
                vclock::set(Some((rng.u64() as i64 >> rng.below(40), 999_999_999)));
                for _ in 0..4 {
                    let x = issue(&mut rng);
                    let _ = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
                    let _ = stratumv2::types::unix_timestamp::unix_u32_now().is_ok();
                }
            }
            5 => {
                for _ in 0..20 {
                    let k = hex(&gen_priv(&mut rng));
                    let t = crate::model::near_text(&mut rng, &k);
                    let _ = (Key::from_str(&t).is_ok(), Psk::from_str(&t).is_ok(), PrivateKey::from_str(&t).is_ok(), PublicKey::from_str(&t).is_ok());
                    let x = issue(&mut rng);
                    let _ = CertificateFormat::new(&t, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
                }
            }
            6 => {
                let n = 1usize << rng.below(22);
                let p = vec![0x5a; n];
                let m = by_name("Message");
                if let Ok(Ok((b, _))) = m.encode(&Val::Frame(2, p)) {
                    let _ = (m.decode_drop)(&b);
                    let _ = (m.decode_drop)(&b[..b.len() - 1]);
                }
            }
            7 => {
                let mut o = ConnectionEncryptor::new_outbound();
                let mut n = ConnectionEncryptor::new_inbound(None);
                let mut a = o.init_handshake().unwrap_or_default();
                if rng.bool() {
                    mutate(&mut rng, &mut a);
                }
                if let Ok(mut b) = n.recv_handshake(&mut a) {
                    if rng.bool() {
                        mutate(&mut rng, &mut b);
                    }
                    let _ = o.recv_handshake(&mut b);
                }
            }
            _ => {
                for _ in 0..50 {
                    let v = gen(&mut rng, &s.kind);
                    let mut out = Vec::new();
                    let _ = (s.encode_to)(&v, &mut out);
                    if let Some(f) = s.frame {
                        let _ = f(&v).map(|m| s.unframe.unwrap()(&m));
                    }
                }
            }
        });
        vclock::set(None);
        match r {
            Ok(()) => c.obs("unrelated operations", 1),
            // a writer that panics is the caller's doing; the rest is C01's business
            Err(Caught::Harness(_)) | Err(Caught::Subject(_)) => c.obs("unrelated operations that panicked", 1),
        }
    }
}

/// How many families of related computations there are.
pub const FAMILIES: usize = 8;
const FAMILY: [&str; FAMILIES] = ["private keys", "key texts", "certificates", "certificate texts", "decoding", "encoding", "framing", "sessions"];

type Member = Box<dyn Fn() -> u64>;

/// Computations on arguments that are alike: they share a beginning, an end, most of
/// their bytes, or a part such as the signature. Whoever keeps results by a part of the
/// arguments confuses them.
fn kin(seed: u64, fam: usize) -> Vec<Member> {
    let mut r = Rng::of(seed, "kin", fam as u64);
    let n = 5 + r.below(8);
    // arrays that are alike
    fn alike(r: &mut Rng, a: &[u8; 32]) -> [u8; 32] {
        let mut b = *a;
        match r.below(10) {
            0 => b[r.below(32)] ^= 1 << r.below(8),
            1 => (1 + r.below(31)..32).for_each(|i| b[i] ^= 0x5a),
            2 => (0..1 + r.below(31)).for_each(|i| b[i] ^= 0xa5),
            3 => {
                let (i, j) = (r.below(32), r.below(32));
                b.swap(i, j);
            }
            4 => b[8..24].iter_mut().for_each(|x| *x = x.wrapping_add(1)),
            5 => {
                let (i, j) = (r.below(32), r.below(32));
                b[i] ^= 16;
                b[j] ^= 16;
            }
            // what simple hashes do not tell apart: multipliers, sums
            6 | 7 => {
                let m = [31u8, 33, 37, 65, 131, 1, 17, 13][r.below(8)];
                let i = r.below(31);
                let up = r.bool();
                for (i, j) in [(i, i + 1), (i + 1, i)] {
                    let (x, y) = if up { (b[i].checked_add(1), b[j].checked_sub(m)) } else { (b[i].checked_sub(1), b[j].checked_add(m)) };
                    if let (Some(x), Some(y)) = (x, y) {
                        b[i] = x;
                        b[j] = y;
                        break;
                    }
                }
            }
            _ => {}
        }
        b
    }
    let h = |parts: &[&[u8]]| hash(parts);
    match fam {
        0 => {
            let base = gen_priv(&mut r);
            (0..n)
                .map(|_| {
                    let k = alike(&mut r, &base);
                    Box::new(move || {
                        let p = PrivateKey::from_bytes(k).generate_public_key().map(|p| p.as_bytes()).unwrap_or([0; 32]);
                        let q = Keypair::from_private_key(PrivateKey::from_bytes(k)).map(|p| p.get_public_key().as_bytes()).unwrap_or([0; 32]);
                        let t = Key::generate_public_key(&k).as_bytes();
                        let v = PublicKey::from_bytes(k).is_ok() as u8;
                        h(&[&p, &q, &t, &[v, PrivateKey::from_bytes(k).is_empty() as u8, Key::from_bytes(k).is_empty() as u8]])
                    }) as Member
                })
                .collect()
        }
        1 => {
            let base = hex(&gen_priv(&mut r));
            (0..n)
                .map(|_| {
                    let t = match r.below(3) {
                        0 => base.clone(),
                        1 => hex(&alike(&mut r, &crate::util::unhex(&base).try_into().unwrap())),
                        _ => crate::model::near_text(&mut r, &base),
                    };
                    Box::new(move || {
                        let a = PrivateKey::from_str(&t).and_then(|k| k.generate_public_key()).map(|k| k.as_bytes()).unwrap_or([9; 32]);
                        let b = PublicKey::from_str(&t).map(|k| k.as_bytes()).unwrap_or([9; 32]);
                        h(&[&a, &b, &[Key::from_str(&t).is_ok() as u8, Psk::from_str(&t).is_ok() as u8]])
                    }) as Member
                })
                .collect()
        }
        2 | 3 => {
            let x = issue(&mut r);
            let y = issue(&mut r);
            (0..n)
                .map(|_| {
                    let (mut t, mut pk, mut m) = (x.text.clone(), x.pk, x.msg.clone());
                    let mut at = m.valid_from as i64;
                    if fam == 3 {
                        t = if r.chance(1, 3) { t } else { crate::model::near_text(&mut r, &t) };
                    } else {
                        match r.below(9) {
                            0 => pk = y.pk,
                            1 => t = y.text.clone(),
                            2 => m.version ^= 1 << r.below(16),
                            3 => m.not_valid_after ^= 1 << r.below(8),
                            4 => m.valid_from ^= 1 << r.below(8),
                            5 => m.signature = y.msg.signature,
                            6 => at = m.not_valid_after as i64,
                            7 => {
                                // the same signature spoilt in its second half
                                let mut s = m.signature.to_bytes();
                                s[32 + r.below(31)] ^= 1 << r.below(8);
                                if let Ok(s) = ed25519_dalek::Signature::from_bytes(&s) {
                                    m.signature = s;
                                }
                            }
                            _ => {}
                        }
                    }
                    Box::new(move || {
                        vclock::set(Some((at, 0)));
                        let v = CertificateFormat::new(&t, &pk, &m).and_then(|f| f.verify());
                        vclock::set(None);
                        let s = serialize(&m).unwrap_or_default();
                        h(&[&[v.is_ok() as u8], &s])
                    }) as Member
                })
                .collect()
        }
        4 => {
            let s = &subjects()[r.below(subjects().len())];
            let v = gen(&mut r, &s.kind);
            let base = enc(&s.kind, &v);
            (0..n)
                .map(|_| {
                    let mut b = base.clone();
                    match r.below(6) {
                        0 => {}
                        1 => mutate(&mut r, &mut b),
                        2 => {
                            let mut w = v.clone();
                            tweak(&mut r, &s.kind, &mut w);
                            if valid(&s.kind, &w) {
                                b = enc(&s.kind, &w);
                            }
                        }
                        _ if !b.is_empty() => {
                            let i = r.below(b.len());
                            b[i] ^= 1 << r.below(8);
                        }
                        _ => b.push(1),
                    }
                    Box::new(move || {
                        let d = match (s.decode_at)(&b, 0) {
                            Ok((v, n)) => format!("{v:?} {n}"),
                            Err(_) => "refused".to_string(),
                        };
                        h(&[d.as_bytes(), &(s.reencode)(&b).unwrap_or_default()])
                    }) as Member
                })
                .collect()
        }
        5 | 6 => {
            let mut s = &subjects()[r.below(subjects().len())];
            while fam == 6 && s.frame.is_none() {
                s = &subjects()[r.below(subjects().len())];
            }
            let v = gen(&mut r, &s.kind);
            (0..n)
                .map(|_| {
                    let mut w = v.clone();
                    if r.chance(3, 4) {
                        tweak(&mut r, &s.kind, &mut w);
                        if !valid(&s.kind, &w) {
                            w = v.clone();
                        }
                    }
                    Box::new(move || {
                        if let (6, Some(f), Some(u)) = (fam, s.frame, s.unframe) {
                            return match f(&w) {
                                Ok(m) => h(&[&m.payload, format!("{:?} {:?}", m.message_type, u(&m).is_ok()).as_bytes(), &serialize(&m).unwrap_or_default()]),
                                Err(_) => 1,
                            };
                        }
                        match s.encode(&w) {
                            Ok(Ok((b, n))) => h(&[&b, &n.to_le_bytes()]),
                            _ => 0,
                        }
                    }) as Member
                })
                .collect()
        }
        _ => {
            let (si, sr, ei, er) = (gen_priv(&mut r), gen_priv(&mut r), gen_priv(&mut r), gen_priv(&mut r));
            let pro = gen_prologue(&mut r);
            let pay = r.bytes(120);
            (0..n.min(6))
                .map(|_| {
                    let (mut si, mut sr, mut ei, mut er, mut pro, mut pay) = (si, sr, ei, er, pro.clone(), pay.clone());
                    match r.below(8) {
                        0 => si = alike(&mut r, &si),
                        1 => sr = alike(&mut r, &sr),
                        2 => ei = alike(&mut r, &ei),
                        3 => er = alike(&mut r, &er),
                        4 => mutate(&mut r, &mut pro),
                        5 => pay[r.below(120)] ^= 1,
                        _ => {}
                    }
                    let again = r.bool();
                    Box::new(move || {
                        let mk = |init: bool, s: &[u8; 32], e: &[u8; 32]| {
                            let mut x = NoiseSession::init_session(init, &pro, keypair(s));
                            x.set_ephemeral_keypair(keypair(e));
                            x
                        };
                        let (mut i, mut s) = (mk(true, &si, &ei), mk(false, &sr, &er));
                        let mut out: Vec<Vec<u8>> = Vec::new();
                        let mut b = pay.clone();
                        let _ = i.send_message(&mut b).is_ok();
                        out.push(b.clone());
                        let _ = s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok();
                        out.push(b.clone());
                        out.push(vec![i.recv_message(&mut b).is_ok() as u8]);
                        for k in 0..3 {
                            let mut b = pay.clone();
                            if i.send_message(&mut b).is_ok() {
                                out.push(b.clone());
                                let copy = b.clone();
                                out.push(vec![s.recv_message(&mut b).is_ok() as u8]);
                                if again {
                                    out.push(vec![s.recv_message(&mut copy.clone()).is_ok() as u8]);
                                }
                            }
                            if k == 1 {
                                i.rekey_local_cipherstate();
                                s.rekey_local_cipherstate();
                            }
                        }
                        let parts: Vec<&[u8]> = out.iter().map(|x| &x[..]).collect();
                        h(&parts)
                    }) as Member
                })
                .collect()
        }
    }
}

/// The results of all families, each family in its order or the reverse.
fn kin_results(seed: u64, rev: bool) -> Vec<Vec<u64>> {
    (0..FAMILIES)
        .map(|fam| {
            let m = kin(seed, fam);
            let mut out = vec![0; m.len()];
            let order: Vec<usize> = if rev { (0..m.len()).rev().collect() } else { (0..m.len()).collect() };
            for i in order {
                out[i] = match guard(|| m[i]()) {
                    Ok(x) => x,
                    Err(_) => 7,
                };
                vclock::set(None);
            }
            out
        })
        .collect()
}

/// What a child process does for the related computations of several seeds.
pub fn kin_child(seed: u64, seeds: u64, rev: bool) {
    for k in 0..seeds {
        for f in kin_results(seed.wrapping_add(k), rev) {
            println!("{}", f.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
    println!("END");
}

/// A type of the caller, whose own serialisation uses the library.
struct Wrapped {
    seed: u64,
    inner: Val,
    subject: &'static Subject,
    depth: usize,
}
impl Serializable for Wrapped {
    fn serialize<W: Write>(&self, w: &mut W) -> stratumv2::error::Result<usize> {
        let mut n = (self.depth as u32).serialize(w)?;
        if self.depth > 0 {
            let next = Wrapped { seed: self.seed, inner: self.inner.clone(), subject: self.subject, depth: self.depth - 1 };
            let b = serialize(&next)?;
            w.write_all(&b)?;
            n += b.len();
        } else {
            let mut j = Job::new(self.seed, self.seed % 6, 2);
            while j.step() {}
        }
        let b = match self.subject.encode(&self.inner)? {
            Ok((b, _)) => b,
            Err(e) => return Err(e),
        };
        w.write_all(&b)?;
        Ok(n + b.len())
    }
}
/// A type of the caller, whose own deserialisation uses the library.
struct Unwrapped(Vec<u32>);
impl Deserializable for Unwrapped {
    fn deserialize(p: &mut ByteParser) -> stratumv2::error::Result<Unwrapped> {
        let depth = u32::deserialize(p)?;
        let mut v = vec![depth];
        if depth > 0 {
            // through a parser of its own over a copy
            let m = deserialize::<u32>(&(depth - 1).to_le_bytes())?;
            let _ = deserialize::<Message>(&[1, 2, 3]).is_err();
            let rest = Unwrapped::deserialize(p)?;
            v.push(m);
            v.extend(rest.0);
        }
        Ok(Unwrapped(v))
    }
}

/// One computation of a sample of everything, large values included.
fn sample_of(seed: u64, i: usize) -> Vec<u64> {
    let subs = subjects();
    match i.checked_sub(2 * subs.len()) {
        None => {
            let s = &subs[i / 2];
            let mut r = Rng::of(seed, "sample", i as u64);
            let v = if i % 2 == 1 { crate::model::largest(&mut r, &s.kind, 70_000) } else { gen(&mut r, &s.kind) };
            let b = enc(&s.kind, &v);
            // (decoding first: the one that meets the other end's doing)
            let q = (s.reencode)(&b).map_or(0, |x| hash(&[&x]));
            let d = match (s.decode_at)(&b, 0) {
                Ok((w, n)) => (w == v) as u64 + 2 * n as u64,
                Err(_) => 0,
            };
            let e = match s.encode(&v) {
                Ok(Ok((b, n))) => hash(&[&b, &n.to_le_bytes()]),
                _ => 0,
            };
            let f = s.frame.map_or(0, |f| f(&v).map_or(1, |m| hash(&[&m.payload, &[s.unframe.unwrap()(&m).is_ok() as u8]])));
            vec![q, d, e, f]
        }
        Some(k) if k < FAMILIES => {
            let m = kin(seed, k);
            m.iter().map(|f| f()).collect()
        }
        Some(k) => {
            let mut j = Job::new(seed, (k - FAMILIES) as u64, STEPS);
            while j.step() {}
            j.trace
        }
    }
}
fn samples() -> usize {
    2 * subjects().len() + FAMILIES + 6
}

const STREAKS: [&str; 12] = [
    "refused decodings", "decodings", "encodings", "refused key texts", "public keys", "refused certificates", "refused authorities", "refused handshakes",
    "out-of-turn messages", "refused messages", "refused frames", "failing writers",
];
/// One operation of a streak.
fn streak(kind: usize, r: &mut Rng, s: &Subject, sess: &mut (NoiseSession, NoiseSession), x: &crate::p_cert::Issued, good: &(Val, Vec<u8>)) {
    match kind {
        0 => {
            let n = r.below(3).min(good.1.len().saturating_sub(1));
            let _ = (s.decode_drop)(&good.1[..n]);
        }
        1 => {
            let _ = (s.decode_drop)(&good.1);
        }
        2 => {
            let _ = (s.encode_to)(&good.0, &mut io::sink()).is_ok();
        }
        3 => {
            let t = ["zz", "", "00", "0g"][r.below(4)];
            let _ = (Key::from_str(t).is_ok(), PublicKey::from_str(t).is_ok(), PrivateKey::from_str(t).is_ok(), Psk::from_str(t).is_ok());
        }
        4 => {
            let _ = PublicKey::from_bytes([r.below(2) as u8; 32]).is_ok();
        }
        5 => {
            vclock::set(Some((x.msg.not_valid_after as i64, 0)));
            let _ = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
            vclock::set(None);
        }
        6 => {
            let _ = CertificateFormat::new("0OIl", &x.pk, &x.msg).is_ok();
        }
        7 => {
            let mut c = ConnectionEncryptor::new_inbound(Some(keypair(&x.pk.as_bytes())));
            let _ = c.recv_handshake(&mut [1; 20]).is_ok();
        }
        8 => {
            let _ = sess.1.send_message(&mut [0; 100]).is_ok();
        }
        9 => {
            let _ = sess.0.recv_message(&mut [0; 15]).is_ok();
        }
        10 => {
            if let Some(u) = s.unframe {
                let _ = u(&Message::new(MT_V[r.below(MT_V.len())], vec![1u8])).is_ok();
            }
        }
        _ => {
            let _ = (s.encode_to)(&good.0, &mut Full(r.below(3)));
        }
    }
}

/// Runs this program as a child; the lines of numbers that it prints.
fn child(c: &mut Case, args: &[&str]) -> Option<Vec<Vec<u64>>> {
    let exe = std::env::current_exe().expect("own path");
    let out = std::process::Command::new(exe).args(args).output().expect("child process");
    let text = String::from_utf8_lossy(&out.stdout).to_string();
    if !out.status.success() || !text.ends_with("END\n") {
        c.ctx.error(format!("child process failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
        return None;
    }
    Some(text.lines().filter(|l| *l != "END").map(|l| l.split(' ').map(|x| x.parse().unwrap()).collect()).collect())
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("an input is a deterministic computation (encode and decode, a noise session with given keys, issuing and verifying certificates, keys, connections, queues) placed after or inside an unrelated history: rejected and hostile input, failing, panicking and nested writers, abandoned sessions, clock jumps, large values, many repetitions. Its results are compared step by step with those in a fresh process that does nothing else. Distinct by computation and history.");
    let jobs = if ctx.tiny() { 6 } else { 36 };
    // a fresh process computes the same, in either order
    ctx.section_t("fresh-process", if cfg!(miri) || ctx.tiny() { 0 } else { ctx.n(12, 150) }, 4, |c| {
        let seed = c.rng.u64();
        let n = 3 + c.rng.below(12);
        disturb(c, n);
        let here = traces(seed, jobs);
        disturb(c, n);
        let again = traces(seed, jobs);
        c.check("history changes no result", here == again, || "two runs of the same computations in one process differ".to_string());
        for rev in ["0", "1"] {
            let Some(lines) = child(c, &["probe", "--seed", &seed.to_string(), "--n", &jobs.to_string(), "--rev", rev]) else { return };
            for (id, t) in lines.into_iter().enumerate() {
                c.eval(hash(&[b"fresh", &seed.to_le_bytes(), &id.to_le_bytes(), rev.as_bytes()]));
                c.obs("steps compared with a fresh process", t.len() as u64);
                if !c.check("history changes no result", t == here[id], || {
                    let at = t.iter().zip(&here[id]).position(|(a, b)| a != b);
                    format!("job {id} ({}): step {at:?} gives another result in a fresh process than after an unrelated history", JOB_KINDS[id % 6])
                }) {
                    return;
                }
            }
        }
    });
    ctx.section("histories", ctx.n(120, 4000), |c| {
        let seed = c.rng.u64();
        let n = 6;
        let before = traces(seed, n);
        for round in 0..3 {
            let k = 1 + c.rng.below(5);
            disturb(c, k);
            let after = traces(seed, n);
            for id in 0..n as usize {
                c.eval(hash(&[&seed.to_le_bytes(), &id.to_le_bytes(), &[round]]));
                c.obs("steps compared", after[id].len() as u64);
                if !c.check("history changes no result", before[id] == after[id], || {
                    let at = before[id].iter().zip(&after[id]).position(|(a, b)| a != b);
                    format!("job {id} ({}): step {at:?} gives another result after an unrelated history than before it", JOB_KINDS[id % 6])
                }) {
                    return;
                }
            }
        }
    });
    // operations inside a caller's writer
    ctx.section("nested", ctx.n(3000, 80_000), |c| {
        let subs = subjects();
        let s = &subs[c.idx as usize % subs.len()];
        let v = gen(&mut c.rng, &s.kind);
        let want = enc(&s.kind, &v);
        let seed = c.rng.u64();
        let mut out = Vec::new();
        let left = c.rng.below(3);
        c.eval(hash(&[b"nested", s.name.as_bytes(), &want, &seed.to_le_bytes()]));
        let r = c.run("nested use returns", || format!("{}: encoding {} into a writer that uses the library", s.name, v.show()), || {
            (s.encode_to)(&v, &mut Odd { mood: Mood::Nest, left, seed, out: &mut out })
        });
        if let Some(Ok(Ok(n))) = r {
            c.check("nested operations do not interfere", n == want.len() && out == want, || {
                format!("{}: {} encodes to {} in a writer that uses the library meanwhile", s.name, v.show(), hexs(&out))
            });
            // the inner computation is the same as outside
            let k = seed % 6;
            let run = || {
                let mut j = Job::new(seed, k, 2);
                while j.step() {}
                j.trace
            };
            let (a, b) = (run(), run());
            c.check("history changes no result", a == b, || format!("job {k} ({}) differs when repeated", JOB_KINDS[k as usize]));
        } else {
            c.fail("nested operations do not interfere", format!("{}: encoding {} into a writer that uses the library fails", s.name, v.show()));
        }
        // nor after the caller's writer panicked in the middle
        let mut out = Vec::new();
        let left = c.rng.below(3);
        let _ = guard(|| (s.encode_to)(&v, &mut Odd { mood: Mood::Panic, left, seed, out: &mut out }));
        let mut out = Vec::new();
        let r = c.run("nested use returns", || format!("{}: encoding {} after a writer panicked", s.name, v.show()), || (s.encode_to)(&v, &mut out));
        c.check("a panicking writer leaves no trace", matches!(r, Some(Ok(Ok(_)))) && out == want, || {
            format!("{}: {} encodes to {} after another writer panicked", s.name, v.show(), hexs(&out))
        });
    });
    // many times the same: counters that wrap, caches that fill
    ctx.section("repetitions", if ctx.tiny() { 2 } else { 6 * ctx.n(1, 6).min(16) }, |c| {
        let seed = c.rng.u64();
        let id = c.idx % 6;
        let first = {
            let mut j = Job::new(seed, id, 3);
            while j.step() {}
            j.trace
        };
        let n = if c.ctx.tiny() { 3 } else if id == 2 { 300 } else { 1500 };
        for k in 0..n {
            let mut j = Job::new(seed, id, 3);
            while j.step() {}
            if !c.check("history changes no result", j.trace == first, || format!("job {id} ({}) differs when run for the {}th time", JOB_KINDS[id as usize], k + 2)) {
                return;
            }
        }
        c.eval(hash(&[b"repeat", &seed.to_le_bytes()]));
    });
    // arguments that are alike, in one order here and in the other in a fresh process
    ctx.section("alike", ctx.n(150, 6000), |c| {
        let seed = c.rng.u64();
        let a = kin_results(seed, false);
        let b = kin_results(seed, true);
        for f in 0..FAMILIES {
            c.eval(hash(&[b"alike", &seed.to_le_bytes(), &[f as u8]]));
            c.obs("related computations compared", a[f].len() as u64);
            if !c.check("order changes no result", a[f] == b[f], || {
                let at = a[f].iter().zip(&b[f]).position(|(x, y)| x != y);
                format!("{}: computation {at:?} of {} on arguments that are alike gives another result in the reverse order", FAMILY[f], a[f].len())
            }) {
                return;
            }
        }
    });
    ctx.section_t("alike-fresh", if cfg!(miri) || ctx.tiny() { 0 } else { ctx.n(6, 100) }, 4, |c| {
        let seed = c.rng.u64();
        let seeds = 12;
        let mut here = Vec::new();
        for k in 0..seeds {
            here.extend(kin_results(seed.wrapping_add(k), false));
        }
        for rev in ["0", "1"] {
            let Some(t) = child(c, &["probe-kin", "--seed", &seed.to_string(), "--n", &seeds.to_string(), "--rev", rev]) else { return };
            for (i, t) in t.iter().enumerate() {
                c.eval(hash(&[b"alike-fresh", &seed.to_le_bytes(), &i.to_le_bytes(), rev.as_bytes()]));
                if !c.check("order changes no result", *t == here[i], || {
                    let at = t.iter().zip(&here[i]).position(|(x, y)| x != y);
                    format!("{}: computation {at:?} of {} on arguments that are alike gives another result in a fresh process", FAMILY[i % FAMILIES], t.len())
                }) {
                    return;
                }
            }
        }
    });
    // the caller's own types, whose code uses the library
    ctx.section("own-types", ctx.n(1500, 40_000), |c| {
        let s = &subjects()[c.rng.below(subjects().len())];
        let v = gen(&mut c.rng, &s.kind);
        let depth = c.rng.below(4);
        let seed = c.rng.u64();
        let inner = enc(&s.kind, &v);
        let mut want = Vec::new();
        for d in (0..=depth).rev() {
            want.extend((d as u32).to_le_bytes());
        }
        (0..=depth).for_each(|_| want.extend(&inner));
        c.eval(hash(&[b"own", &want, &seed.to_le_bytes()]));
        let got = c.run("nested use returns", || format!("serialising a type of the caller that holds {}, {depth} deep", s.name), || {
            serialize(&Wrapped { seed, inner: v.clone(), subject: s, depth })
        });
        c.check("nested operations do not interfere", matches!(&got, Some(Ok(b)) if *b == want), || {
            format!("a type of the caller that serialises itself through the library, {depth} deep, with {} {}: {}", s.name, v.show(), match &got {
                Some(Ok(b)) => format!("{} instead of {}", hexs(b), hexs(&want)),
                Some(Err(e)) => format!("{e}"),
                None => "panic".to_string(),
            })
        });
        let got = c.run("nested use returns", || format!("deserialising a type of the caller, {depth} deep"), || deserialize::<Unwrapped>(&want).map(|u| u.0));
        let mut expect = Vec::new();
        for d in (0..=depth as u32).rev() {
            expect.push(d);
            if d > 0 {
                expect.push(d - 1);
            }
        }
        c.check("nested operations do not interfere", matches!(&got, Some(Ok(b)) if *b == expect), || format!("a type of the caller that deserialises through the library, {depth} deep: {got:?}"));
    });
    // long streaks of one operation, mostly failing ones, and nothing else in the process
    ctx.section_t("streaks", if ctx.tiny() { 0 } else { STREAKS.len() as u64 * if ctx.tier == crate::ctx::Tier::Thorough { 8 } else { 1 } }, 1, |c| {
        let kind = c.idx as usize % STREAKS.len();
        let seed = c.rng.u64();
        let before: Vec<Vec<u64>> = (0..samples()).map(|i| sample_of(seed, i)).collect();
        let mut r = Rng::new(c.rng.u64());
        let x = issue(&mut r);
        let mut sess = (
            NoiseSession::init_session(true, b"", keypair(&gen_priv(&mut r))),
            NoiseSession::init_session(false, b"", keypair(&gen_priv(&mut r))),
        );
        let n = match kind {
            7 => 3_000,
            6 => 20_000,
            _ => 70_000,
        };
        let subs = subjects();
        let one = r.below(subs.len());
        let mix = r.bool();
        let good: Vec<(Val, Vec<u8>)> = subs.iter().map(|s| crate::model::plain(&s.kind)).zip(subs).map(|(v, s)| { let b = enc(&s.kind, &v); (v, b) }).collect();
        // after each streak one computation, as the first thing that follows
        let times = 24;
        for t in 0..times {
            let n = if t == 0 { n } else { n / 4 };
            for k in 0..n {
                let i = if mix { r.below(subs.len()) } else { one };
                if guard(|| streak(kind, &mut r, &subs[i], &mut sess, &x, &good[i])).is_err() {
                    c.fail("history changes no result", format!("the {k}th of {n} {} in a row panics", STREAKS[kind]));
                    return;
                }
            }
            c.obs("operations in streaks", n);
            let i = match r.below(3) {
                0 => r.below(samples()),
                1 => 2 * subs.len() + r.below(samples() - 2 * subs.len()),
                _ => 2 * r.below(subs.len()) + 1,
            };
            let got = guard(|| sample_of(seed, i)).unwrap_or_default();
            c.eval(hash(&[b"streak", &seed.to_le_bytes(), &[kind as u8], &i.to_le_bytes(), &[t as u8]]));
            if !c.check("history changes no result", before[i] == got, || {
                let what = match i.checked_sub(2 * subs.len()) {
                    None => subs[i / 2].name,
                    Some(k) if k < FAMILIES => FAMILY[k],
                    Some(k) => JOB_KINDS[k - FAMILIES],
                };
                format!("after {n} {} in a row, the results for {what} (sample {i}) are {got:?} instead of {:?}", STREAKS[kind], before[i])
            }) {
                return;
            }
        }
    });
    // cheap operations whose answer is known, very often, on changing objects
    ctx.section("steady", if ctx.tiny() { 0 } else { 8 * ctx.n(1, 6).min(8) }, |c| {
        let mut r = Rng::new(c.rng.u64());
        let n = if c.thorough() { 700_000u64 } else { 75_000 };
        let mut peer = Peer::new(Plain(1));
        let mut conn = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(None));
        let text = hex(&r.arr32());
        let sp = gen_priv(&mut r);
        let pk = keypair(&sp).get_public_key();
        let bytes = r.bytes(40);
        for k in 0..n {
            if k % 5000 == 0 {
                peer = Peer::new(Plain(k));
                conn = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(None));
            }
            let res = guard(|| match c.idx % 8 {
                0 | 1 => {
                    let m = if c.idx % 8 == 0 { 1 + r.below(5) } else { r.below(3) };
                    for j in 0..m {
                        peer.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[j], vec![k as u8, j as u8]));
                    }
                    let got = peer.get_pending_msgs();
                    got.len() == m && got.iter().enumerate().all(|(j, g)| *g == Message::new(MT_V[j], vec![k as u8, j as u8]))
                }
                2 => !conn.0.is_handshake_complete() && !conn.1.is_handshake_complete() && conn.0.get_remote_pubkey().is_none(),
                3 => PrivateKey::from_str(&text).is_ok() && PrivateKey::from_str(&text[1..]).is_err() && Psk::from_str(&text).is_ok(),
                4 => {
                    let mut p = ByteParser::new(&bytes, 0);
                    p.next_by(30).map_or(false, |x| x == &bytes[..30]) && p.next_by(11).is_err() && p.next_by(10).map_or(false, |x| x == &bytes[30..])
                }
                5 => {
                    let (v, e) = (k as u16, (k >> 4) as u32);
                    match SignedCertificate::new(v, e, e + 1, &pk) {
                        Ok(x) => (x.version, x.valid_from, x.not_valid_after) == (v, e, e + 1) && SignedCertificate::new(v, e + 1, e, &pk).is_err(),
                        Err(_) => false,
                    }
                }
                6 => {
                    let m = Message::new(MT_V[k as usize % MT_V.len()], vec![k as u8; k as usize % 50]);
                    let s = serialize(&m).unwrap_or_default();
                    s.len() == m.payload.len() + 6 && deserialize::<Message>(&s).map_or(false, |x| x == m)
                }
                _ => {
                    let t = UNIX_EPOCH + std::time::Duration::from_secs(k * 57_000 % (1 << 32));
                    system_unix_time_to_u32(&t).map_or(false, |x| x as u64 == k * 57_000 % (1 << 32))
                }
            });
            c.obs("steady operations", 1);
            if !matches!(res, Ok(true)) {
                c.fail("history changes no result", format!("steady operation kind {}: the {k}th of {n} {}", c.idx % 8, if res.is_ok() { "gives another result" } else { "panics" }));
                return;
            }
        }
        c.eval_enum(n);
    });
    // each cheap operation 70,000 times in a row
    ctx.section("counts", if ctx.tiny() { 0 } else { subjects().len() as u64 }, |c| {
        let s = &subjects()[c.idx as usize];
        let v = crate::model::plain(&s.kind);
        let want = enc(&s.kind, &v);
        let bad = hostile(&mut c.rng, &s.kind);
        let expect_bad = (s.decode_at)(&bad, 0).map(|x| x.1).ok();
        for k in 0..70_000u32 {
            let e = s.encode(&v);
            let ok = matches!(&e, Ok(Ok((b, n))) if *b == want && *n == want.len());
            let d = (s.decode_at)(&want, 0);
            let okd = matches!(&d, Ok((w, n)) if *w == v && *n == want.len());
            let okb = (s.decode_at)(&bad, 0).map(|x| x.1).ok() == expect_bad;
            if !c.check("history changes no result", ok && okd && okb, || format!("{}: the {k}th encoding or decoding of {} differs", s.name, v.show())) {
                return;
            }
            c.obs("repeated operations", 3);
        }
        c.eval(hash(&[b"count", s.name.as_bytes()]));
    });
    if !ctx.tiny() {
        ctx.require(&["steps compared with a fresh process", "repeated operations", "operations in streaks", "steady operations", "related computations compared"]);
    }
    ctx.require(&["history changes no result", "nested operations do not interfere", "a panicking writer leaves no trace", "unrelated operations", "unrelated operations that panicked"]);
}

// ---------------------------------------------------------------- C34

struct Full(usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() > self.0 {
            return Err(io::Error::new(io::ErrorKind::Other, "full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub const LIVES: [&str; 18] = [
    "completed sessions", "sessions abandoned before the handshake", "sessions abandoned in the handshake", "sessions with a refused handshake", "ended sessions",
    "sessions with refused messages", "cleared and rekeyed sessions", "completed connections", "refused connections", "connections with queued messages",
    "drained queues", "certificates issued", "certificates verified", "certificates refused", "keys", "refused encodings", "values", "errors",
];

/// One life of an object of the kind, from creation to its end.
pub fn life(r: &mut Rng, kind: usize) {
    let pair = |r: &mut Rng| {
        let pro = gen_prologue(r);
        let mut i = NoiseSession::init_session(true, &pro, keypair(&gen_priv(r)));
        let mut s = NoiseSession::init_session(false, &pro, keypair(&gen_priv(r)));
        // often with ephemeral keys from outside
        for x in [&mut i, &mut s] {
            if r.bool() {
                x.set_ephemeral_keypair(keypair(&gen_priv(r)));
            }
        }
        (i, s)
    };
    let joined = |r: &mut Rng| {
        let (mut i, mut s) = pair(r);
        let mut b = r.bytes(200);
        let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok() && i.recv_message(&mut b).is_ok();
        (i, s)
    };
    match kind {
        0 => {
            let (mut i, mut s) = joined(r);
            for _ in 0..3 {
                let mut b = r.bytes(300);
                let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok();
                let _ = s.send_message(&mut b).is_ok() && i.recv_message(&mut b).is_ok();
            }
            let _ = (i.get_handshake_hash(), i.get_remote_static_public_key().is_some());
        }
        1 => drop(pair(r)),
        2 => {
            let (mut i, mut s) = pair(r);
            let mut b = r.bytes(200);
            let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && r.bool() && s.send_message(&mut b).is_ok();
        }
        3 => {
            let (mut i, mut s) = pair(r);
            let mut b = r.bytes(200);
            let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok();
            b[r.below(200)] ^= 1;
            let _ = i.recv_message(&mut b);
            let n = r.below(300);
            let _ = s.recv_message(&mut r.bytes(n));
            let _ = i.send_message(&mut r.bytes(n));
        }
        4 => {
            let (i, s) = if r.bool() { joined(r) } else { pair(r) };
            i.end_session();
            s.end_session();
        }
        5 => {
            let (mut i, mut s) = joined(r);
            for _ in 0..6 {
                let n = r.below(400);
                let mut b = r.bytes(n);
                let _ = if r.bool() { i.recv_message(&mut b).is_ok() } else { s.recv_message(&mut b).is_ok() };
            }
        }
        6 => {
            let (mut i, mut s) = joined(r);
            i.rekey_local_cipherstate();
            s.rekey_local_cipherstate();
            s.rekey_remote_cipherstate();
            i.clear_local_cipherstate();
            s.clear_remote_cipherstate();
            let _ = i.send_message(&mut [0; 64]);
        }
        7 | 8 => {
            let mut o = ConnectionEncryptor::new_outbound();
            let mut n = ConnectionEncryptor::new_inbound(if r.bool() { Some(keypair(&gen_priv(r))) } else { None });
            let mut a = o.init_handshake().unwrap_or_default();
            if kind == 8 && r.bool() {
                a.truncate(r.below(a.len().max(1)));
            }
            let mut b = n.recv_handshake(&mut a).unwrap_or_default();
            if kind == 8 && !b.is_empty() {
                let k = r.below(b.len());
                b[k] ^= 4;
            }
            let _ = o.recv_handshake(&mut b).is_ok();
            let _ = (o.get_remote_pubkey().is_some(), n.is_handshake_complete());
        }
        9 | 10 => {
            let p = Peer::new(Plain(r.u64()));
            for _ in 0..r.below(20) {
                let n = r.below(200);
                p.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[r.below(MT_V.len())], r.bytes(n)));
                if kind == 10 && r.bool() {
                    drop(p.get_pending_msgs());
                }
            }
            if kind == 10 {
                drop(p.get_pending_msgs());
            }
        }
        11 => {
            let kp = auth_key(&r.arr32());
            let pk = keypair(&gen_priv(r)).get_public_key();
            let (a, b) = (r.u32(), r.u32());
            if let Ok(x) = SignedCertificate::new(r.u32() as u16, a, b, &pk) {
                let _ = SignatureNoiseMessage::from_auth_key(&kp, &x).map(|m| serialize(&m).is_ok());
            }
        }
        12 | 13 => {
            let x = issue(r);
            let mut m = x.msg.clone();
            let mut t = x.text.clone();
            if kind == 13 {
                match r.below(3) {
                    0 => m.version ^= 1,
                    1 => t = crate::model::near_text(r, &t),
                    _ => t = "!".repeat(1 + r.below(80)),
                }
            }
            vclock::set(Some((m.valid_from as i64, 0)));
            let _ = CertificateFormat::new(&t, &x.pk, &m).and_then(|f| f.verify()).is_ok();
            vclock::set(None);
        }
        14 => {
            let t = hex(&r.arr32());
            let t = if r.bool() { crate::model::near_text(r, &t) } else { t };
            if let Ok(k) = PrivateKey::from_str(&t) {
                let _ = Keypair::from_private_key(k).map(|mut p| {
                    let q = p.clone();
                    p.clear();
                    q.get_public_key().as_bytes()
                });
            }
            let _ = (PublicKey::from_str(&t).is_ok(), Key::from_str(&t).is_ok(), Psk::from_str(&t).is_ok());
            drop(Keypair::default());
        }
        15 => {
            let s = &subjects()[r.below(subjects().len())];
            let v = gen(r, &s.kind);
            let n = r.below(30);
            let _ = (s.encode_to)(&v, &mut Full(n));
        }
        16 => {
            let s = &subjects()[r.below(subjects().len())];
            let v = gen(r, &s.kind);
            let _ = (s.cloned)(&v).is_ok();
            let _ = (s.relate)(&v, 0, &v, 1).is_ok();
            if let Some(f) = s.frame {
                let _ = f(&v).map(|m| s.unframe.unwrap()(&m).is_ok());
            }
        }
        _ => {
            let s = &subjects()[r.below(subjects().len())];
            let b = hostile_input(r, &s.kind);
            if let Err(e) = (s.decode_at)(&b, 0) {
                let _ = format!("{e} {e:?}");
            }
        }
    }
}

fn open_files() -> usize {
    std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

pub fn c34(ctx: &Ctx) {
    ctx.rule("an input is one whole life of an object (session, connection, queue, certificate, key, value, error) from creation through use, failure or abandonment to its end, with contents of its own. In rounds, each as many lives as all before it, a counting allocator watches what a round leaves behind; a round may fill a cache, but not every round may leave bytes. Distinct by kind and contents.");
    let rounds = if ctx.tiny() { 3 } else { 7 };
    let per = if ctx.tiny() { 4 } else { 40 };
    ctx.section_t("lives", LIVES.len() as u64 * ctx.n(1, 12), 1, |c| {
        let kind = c.idx as usize % LIVES.len();
        let mut left = Vec::new();
        for round in 0..rounds {
            let mut rng = Rng::new(c.rng.u64());
            let mut made = 0u64;
            // what the harness keeps is measured as well: it keeps nothing
            let (r, u) = measure(|| {
                guard(|| {
                    for _ in 0..per << usize::max(round, 1) - 1 {
                        life(&mut rng, kind);
                        made += 1;
                    }
                })
            });
            match r {
                Ok(()) => {}
                Err(Caught::Harness(s)) => return c.ctx.error(s),
                // the panic message is allocated
                Err(Caught::Subject(_)) => return c.obs("rounds ended by a panic", 1),
            }
            c.obs(LIVES[kind], made);
            c.obs("allocations observed", u.calls);
            left.push(u.left);
            c.eval_enum(made);
        }
        c.check("nothing accumulates", !left.iter().all(|l| *l > 0), || {
            format!("{}: rounds of {per}, {per}, {}, ... lives left more bytes allocated after every round: {left:?}", LIVES[kind], 2 * per)
        });
        c.sample(|| format!("{}: {} lives, bytes left per round {left:?}", LIVES[kind], per << rounds - 1));
    });
    if !cfg!(miri) {
        ctx.section_t("files", LIVES.len() as u64, 1, |c| {
            let kind = c.idx as usize;
            let mut rng = Rng::new(c.rng.u64());
            let _ = guard(|| (0..3).for_each(|_| life(&mut rng, kind)));
            let a = open_files();
            let _ = guard(|| (0..20).for_each(|_| life(&mut rng, kind)));
            let b = open_files();
            c.check("no file stays open", b < a + 20, || format!("{}: {a} open files before, {b} after 20 lives", LIVES[kind]));
        });
    }
    // threads that come and go leave nothing behind
    if !cfg!(miri) {
        ctx.section_t("threads", LIVES.len() as u64 * ctx.n(1, 6).min(20), 1, |c| {
            let kind = c.idx as usize % LIVES.len();
            let seed = c.rng.u64();
            let mut left = Vec::new();
            let mut serial = 0u64;
            let mut panicked = false;
            // what a thread that does nothing leaves
            let idle = || {
                let before = crate::alloc::shared();
                for _ in 0..4 {
                    let _ = std::thread::spawn(|| {
                        crate::alloc::share(true);
                        guard(|| std::hint::black_box(vec![1u8]))
                    })
                    .join();
                }
                (crate::alloc::shared() - before).max(0) / 4
            };
            crate::alloc::share(true);
            idle();
            let idle = idle() + 48;
            for round in 0..rounds {
                let before = crate::alloc::shared();
                let first = serial;
                for _ in 0..(if c.ctx.tiny() { 2 } else { 5 }) << usize::max(round, 1) - 1 {
                    serial += 1;
                    let n = serial;
                    let r = std::thread::spawn(move || {
                        crate::alloc::share(true);
                        let mut r = Rng::of(seed, "threads", n);
                        let mut bad = false;
                        for _ in 0..3 {
                            bad |= guard(|| life(&mut r, kind)).is_err();
                        }
                        bad
                    })
                    .join();
                    panicked |= r.unwrap_or(true);
                }
                left.push(crate::alloc::shared() - before - idle * (serial - first) as i64);
            }
            crate::alloc::share(false);
            c.obs("threads that came and went", serial);
            c.eval(hash(&[b"threads", &[kind as u8], &seed.to_le_bytes()]));
            // (a panic's message stays with its thread)
            c.check("threads leave nothing", panicked || !left.iter().all(|l| *l > 0), || format!("{}: rounds of 5, 5, 10, 20, ... threads left more bytes allocated after every round, above {idle} per thread: {left:?}", LIVES[kind]));
            c.sample(|| format!("threads with {}: bytes left per round {left:?}", LIVES[kind]));
        });
        ctx.require(&["threads leave nothing"]);
    }
    // one long-lived object: its own memory does not grow with use
    ctx.section_t("long-lived", if ctx.tiny() { 2 } else { 3 * ctx.n(1, 6).min(60) }, 1, |c| {
        let mut rng = Rng::new(c.rng.u64());
        let mut left = Vec::new();
        let n = if c.ctx.tiny() { 5 } else { 50 };
        let what = ["a session", "a connection under hostile input", "a queue"][c.idx as usize % 3];
        let pro = gen_prologue(&mut rng);
        let mut i = NoiseSession::init_session(true, &pro, keypair(&gen_priv(&mut rng)));
        let mut s = NoiseSession::init_session(false, &pro, keypair(&gen_priv(&mut rng)));
        let mut b = rng.bytes(200);
        let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok() && i.recv_message(&mut b).is_ok();
        let mut conn = ConnectionEncryptor::new_inbound(None);
        let peer = Peer::new(Plain(1));
        for round in 0..rounds {
            let n = n << usize::max(round, 1) - 1;
            let (r, u) = measure(|| {
                guard(|| {
                    for _ in 0..n {
                        let len = 16 + rng.below(300);
                        let mut b = rng.bytes(len);
                        match c.idx % 3 {
                            0 => {
                                let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok();
                                let _ = s.recv_message(&mut b).is_ok();
                                if rng.chance(1, 9) {
                                    i.rekey_local_cipherstate();
                                    s.rekey_local_cipherstate();
                                }
                            }
                            1 => {
                                let _ = conn.recv_handshake(&mut b).is_ok();
                            }
                            _ => {
                                for _ in 0..rng.below(5) {
                                    peer.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[rng.below(MT_V.len())], b.clone()));
                                }
                                drop(peer.get_pending_msgs());
                            }
                        }
                    }
                })
            });
            if r.is_err() {
                return;
            }
            c.obs("uses of long-lived objects", n as u64);
            left.push(u.left);
        }
        c.eval(hash(&[b"long", &c.idx.to_le_bytes(), &rng.u64().to_le_bytes()]));
        c.check("use does not grow an object", !left.iter().all(|l| *l > 0), || format!("{what}: rounds of {n}, {n}, {}, ... uses left more bytes allocated after every round: {left:?}", 2 * n));
    });
    ctx.require(&["nothing accumulates", "allocations observed", "use does not grow an object"]);
    ctx.require(&LIVES);
}

