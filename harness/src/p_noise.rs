//! Monitors for the Noise sessions: C11 to C17 and C28's noise errors.

use crate::ctx::{Case, Ctx};
use crate::p_codec2::inspect;
use crate::refcrypto::{selftest, x25519_base};
use crate::refnoise::*;
use crate::util::{hash, hex, hexs, Rng};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Keypair, PrivateKey};

pub fn keypair(k: &[u8; 32]) -> Keypair {
    Keypair::from_private_key(PrivateKey::from_bytes(*k)).expect("key pair of a non-zero private key")
}

pub fn gen_priv(r: &mut Rng) -> [u8; 32] {
    let mut k = r.arr32();
    match r.below(12) {
        0 => k = [0xff; 32],
        1 => {
            k = [0; 32];
            k[r.below(32)] = 1 << r.below(8);
        }
        2 => k[31] = 0,
        3 => k[0] = 0xff,
        4 => {
            let n = r.below(31);
            k[..n].fill(0);
            k[31] |= 1;
        }
        _ => {}
    }
    if k == [0; 32] {
        k[5] = 1;
    }
    k
}
pub fn gen_prologue(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 | 1 => 0,
        2 => *r.pick(&[1usize, 31, 32, 33, 63, 64, 65, 127, 128, 129]),
        3 => r.below(2000),
        _ => r.below(40),
    };
    r.bytes(n)
}
/// Transport message lengths, the 16 bytes for the tag included.
pub fn gen_tlen(r: &mut Rng) -> usize {
    match r.below(40) {
        0..=9 => 16 + r.below(80),
        10..=19 => 16 + r.below(400),
        20..=23 => 16,
        24..=27 => 17,
        28..=33 => 16 + 64 * r.below(20) + r.below(3) - if r.bool() { 1 } else { 0 },
        34 => 65535,
        35 => 65534 - r.below(40),
        _ => 16 + r.below(4000),
    }
    .max(16)
}
pub fn gen_alen(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => 48,
        6 => 49,
        7..=9 => 48 + r.below(80),
        10 => 65535,
        11 => 1024,
        _ => 48 + r.below(600),
    }
}
pub fn gen_blen(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=5 => 96,
        6 => 97,
        7..=9 => 96 + r.below(80),
        10 => 65535,
        11 => 1024,
        _ => 96 + r.below(600),
    }
}
fn tiny_len(ctx: &Ctx, n: usize, min: usize) -> usize {
    if ctx.tiny() {
        min + (n - min) % 70
    } else {
        n
    }
}

// ---------------------------------------------------------------- lockstep

/// A real session beside a reference session with the same keys.
pub struct Twin {
    pub s: NoiseSession,
    pub r: RefSession,
    /// a failed handshake step leaves the real session in an unspecified state
    pub dead: bool,
    pub name: &'static str,
}

impl Twin {
    pub fn new(initiator: bool, prologue: &[u8], s: [u8; 32], e: [u8; 32]) -> Twin {
        let mut n = NoiseSession::init_session(initiator, prologue, keypair(&s));
        n.set_ephemeral_keypair(keypair(&e));
        Twin {
            s: n,
            r: RefSession::new(initiator, prologue, s, e),
            dead: false,
            name: if initiator { "initiator" } else { "responder" },
        }
    }
    fn where_(&self) -> String {
        format!("{} after {} messages (counters {}/{})", self.name, self.r.mc, self.r.cs1.n, self.r.cs2.n)
    }
    pub fn send(&mut self, c: &mut Case, buf: &[u8]) -> Option<Vec<u8>> {
        let (mut a, mut b) = (buf.to_vec(), buf.to_vec());
        let w = self.where_();
        let got = self.s.send_message(&mut a);
        if self.dead {
            return None;
        }
        let exp = self.r.send(&mut b);
        match (got, exp) {
            (Ok(()), Ok(())) => {
                if !c.check("sent bytes equal the reference", a == b, || {
                    format!("{w}: sending {} bytes gave {} instead of {}", buf.len(), hexs(&a), hexs(&b))
                }) {
                    return None;
                }
                Some(a)
            }
            (Err(_), Err(_)) => {
                c.obs("refused like the reference", 1);
                None
            }
            (g, e) => {
                c.fail("sending agrees with the reference", format!("{w}: sending {} bytes: {g:?}, reference {e:?}", buf.len()));
                self.dead = true;
                None
            }
        }
    }
    pub fn recv(&mut self, c: &mut Case, buf: &[u8]) -> Option<Vec<u8>> {
        let (mut a, mut b) = (buf.to_vec(), buf.to_vec());
        let w = self.where_();
        let hs = self.r.mc < 2;
        let got = self.s.recv_message(&mut a);
        if self.dead {
            return None;
        }
        let exp = self.r.recv(&mut b);
        match (got, exp) {
            (Ok(()), Ok(())) => {
                let same = if hs && self.r.initiator {
                    // reply: ephemeral, static key and payload; the tags' bytes are unspecified
                    let n = a.len();
                    a[..64] == b[..64] && a[80..n - 16] == b[80..n - 16]
                } else {
                    a == b
                };
                if !c.check("received payload equals the reference", same, || {
                    format!("{w}: {} decrypts to {} instead of {}", hexs(buf), hexs(&a), hexs(&b))
                }) {
                    return None;
                }
                Some(b)
            }
            (Err(_), Err(e)) => {
                c.obs("refused like the reference", 1);
                if hs && matches!(e, Rej::Auth | Rej::LowOrder) {
                    self.dead = true;
                }
                None
            }
            (g, e) => {
                c.fail("receiving agrees with the reference", format!("{w}: receiving {}: {g:?}, reference {e:?}", hexs(buf)));
                self.dead = true;
                None
            }
        }
    }
    pub fn status(&mut self, c: &mut Case) {
        if self.dead {
            return;
        }
        let h = self.s.get_handshake_hash();
        c.check("handshake hash", h == self.r.hash(), || {
            format!("{}: handshake hash {:?}, reference {:?}", self.name, h.map(|x| hex(&x)), self.r.hash().map(|x| hex(&x)))
        });
        if self.r.initiator {
            let k = self.s.get_remote_static_public_key().map(|k| k.as_bytes());
            c.check("remote static key", k == self.r.rs, || {
                format!("remote static key {:?}, reference {:?}", k.map(|x| hex(&x)), self.r.rs.map(|x| hex(&x)))
            });
        }
    }
    pub fn rekey(&mut self, cs: usize) {
        if cs == 1 {
            self.s.rekey_local_cipherstate()
        } else {
            self.s.rekey_remote_cipherstate()
        }
        self.r.rekey(cs);
    }
    pub fn clear(&mut self, cs: usize) {
        if cs == 1 {
            self.s.clear_local_cipherstate()
        } else {
            self.s.clear_remote_cipherstate()
        }
        self.r.clear(cs);
    }
}

/// A handshake of a twin with a reference peer in the other role. None if it failed.
fn interop_handshake(c: &mut Case, initiator: bool, pa: &[u8], pb: &[u8], prologue: &[u8], s: [u8; 32], e: [u8; 32]) -> Option<(Twin, RefSession)> {
    let mut t = Twin::new(initiator, prologue, s, e);
    let (ps, pe) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let mut p = RefSession::new(!initiator, prologue, ps, pe);
    // a peer may encode its public keys with the bit that X25519 ignores
    p.top = c.rng.chance(1, 5);
    if p.top {
        c.obs("peers with other encodings of their keys", 1);
    }
    if initiator {
        let a = t.send(c, pa)?;
        let mut x = a.clone();
        p.recv(&mut x).ok()?;
        let mut b = pb.to_vec();
        p.send(&mut b).ok()?;
        let got = match t.recv(c, &b) {
            Some(g) => g,
            None => {
                c.fail("handshake completes", format!("the initiator rejects a conforming reply of {} bytes", b.len()));
                return None;
            }
        };
        let n = pb.len();
        c.check("handshake payload delivered", got[80..n - 16] == pb[80..n - 16], || "reply payload differs".into());
    } else {
        let mut a = pa.to_vec();
        p.send(&mut a).ok()?;
        let got = match t.recv(c, &a) {
            Some(g) => g,
            None => {
                c.fail("handshake completes", format!("the responder rejects a conforming first message {}", hexs(&a)));
                return None;
            }
        };
        c.check("handshake payload delivered", got[32..] == pa[32..], || "first payload differs".into());
        let b = t.send(c, pb)?;
        let mut x = b.clone();
        if let Err(e) = p.recv(&mut x) {
            c.fail("handshake completes", format!("the reference initiator rejects the reply ({e:?}) of {} bytes", b.len()));
            return None;
        }
        c.check("handshake payload delivered", x[80..x.len() - 16] == pb[80..pb.len() - 16], || "reply payload differs".into());
    }
    t.status(c);
    let h = p.hash();
    c.check("handshake hash", t.s.get_handshake_hash() == h, || "the peers' handshake hashes differ".into());
    c.check("handshake completes", t.s.is_transport(), || format!("{} is not in transport mode after the handshake", t.name));
    Some((t, p))
}

/// One transport message in the given direction between a twin and its peer.
fn interop_message(c: &mut Case, t: &mut Twin, p: &mut RefSession, from_twin: bool, plain: &[u8]) {
    let mut buf = plain.to_vec();
    buf.extend_from_slice(&[0u8; 16]);
    c.rng.fill(&mut buf[plain.len()..]);
    if from_twin {
        if let Some(mut x) = t.send(c, &buf) {
            let r = p.recv(&mut x);
            c.check("transport delivered", r.is_ok() && &x[..plain.len()] == plain, || {
                format!("{}: a message of {} bytes does not reach the reference peer: {r:?}", t.name, buf.len())
            });
        } else if !c.failed() {
            c.fail("transport delivered", format!("{}: sending {} bytes is refused", t.name, buf.len()));
        }
    } else {
        if p.send(&mut buf).is_err() {
            return;
        }
        match t.recv(c, &buf) {
            Some(x) => {
                c.check("transport delivered", &x[..plain.len()] == plain, || {
                    format!("{}: payload of {} bytes arrives changed", t.name, plain.len())
                });
            }
            None => c.fail("transport delivered", format!("{}: a genuine message of {} bytes is rejected", t.name, buf.len())),
        }
    }
}

pub fn reference_ok(ctx: &Ctx) -> bool {
    match selftest() {
        Ok(()) => true,
        Err(e) => {
            ctx.error(e);
            false
        }
    }
}

// ---------------------------------------------------------------- C11

pub fn c11(ctx: &Ctx) {
    ctx.rule("an input is a session: role, static and ephemeral key, prologue, payloads of both handshake messages, and the transport messages exchanged with an independent reference peer. Distinct by those.");
    ctx.assume("the reference implementation (RFC 7748, 8439, 7693 and the Noise specification), checked against published test vectors at the start of every run");
    if !reference_ok(ctx) {
        return;
    }
    ctx.section("sessions", ctx.n(6000, 150_000), |c| {
        let initiator = c.idx % 2 == 0;
        let (s, e, pro) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng), gen_prologue(&mut c.rng));
        let (la, lb) = (gen_alen(&mut c.rng), gen_blen(&mut c.rng));
        let (la, lb) = (tiny_len(c.ctx, la, 48), tiny_len(c.ctx, lb, 96));
        let (pa, pb) = (c.rng.bytes(la), c.rng.bytes(lb));
        c.eval(hash(&[&s, &e, &pro, &pa, &pb]));
        c.sample(|| format!("{} with prologue of {} bytes, messages of {la} and {lb} bytes", if initiator { "initiator" } else { "responder" }, pro.len()));
        if let Some((mut t, mut p)) = interop_handshake(c, initiator, &pa, &pb, &pro, s, e) {
            let k = if c.ctx.tiny() { 3 } else { 2 + c.rng.below(10) };
            for _ in 0..k {
                let n = gen_tlen(&mut c.rng);
                let n = tiny_len(c.ctx, n, 16);
                let m = c.rng.bytes(n - 16);
                let dir = c.rng.bool();
                if c.rng.chance(1, 6) {
                    // of no use any more
                    t.s.set_ephemeral_keypair(keypair(&e));
                    c.obs("ephemeral keys set after the handshake", 1);
                }
                interop_message(c, &mut t, &mut p, dir, &m);
                if c.failed() {
                    break;
                }
            }
        }
    });
    // every length of the two handshake messages and of transport messages
    let all = ctx.tier == crate::ctx::Tier::Thorough;
    let lens: Vec<usize> = if ctx.tiny() {
        vec![16, 17, 47, 48, 63, 64, 65, 95, 96, 97, 128]
    } else if all {
        (16..=65535).collect()
    } else {
        (16..1200).chain((1200..65500).step_by(487)).chain(65500..=65535).collect()
    };
    ctx.section("handshake-lengths", lens.len() as u64, |c| {
        let n = lens[c.idx as usize];
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        for initiator in [true, false] {
            let pa = c.rng.bytes(n.max(48));
            let pb = c.rng.bytes(n.max(96));
            c.eval_enum(1);
            interop_handshake(c, initiator, &pa, &pb, &[], s, e);
        }
    });
    ctx.section("transport-lengths", lens.len().div_ceil(64) as u64, |c| {
        for initiator in [true, false] {
            let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
            let (pa, pb) = (c.rng.bytes(48), c.rng.bytes(96));
            if let Some((mut t, mut p)) = interop_handshake(c, initiator, &pa, &pb, b"x", s, e) {
                let from = c.idx as usize * 64;
                for n in &lens[from..(from + 64).min(lens.len())] {
                    for dir in [true, false] {
                        let m = c.rng.bytes(n - 16);
                        c.eval_enum(1);
                        interop_message(c, &mut t, &mut p, dir, &m);
                    }
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    });
    // long sessions: every message for as long as a 16-bit count lasts
    ctx.section("long-sessions", if ctx.tiny() { 0 } else { ctx.n(2, 2).min(4) }, |c| {
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let (pa, pb) = (c.rng.bytes(48), c.rng.bytes(96));
        let total = if c.thorough() { 300_000u32 } else { 66_000 };
        if let Some((mut t, mut p)) = interop_handshake(c, c.idx % 2 == 0, &pa, &pb, b"long", s, e) {
            for k in 0..total {
                let m = k.to_le_bytes();
                interop_message(c, &mut t, &mut p, true, &m);
                interop_message(c, &mut t, &mut p, false, &m);
                c.eval_enum(2);
                if c.failed() {
                    return;
                }
            }
        }
    });
    // sessions that have reached any count: powers of two and their neighbours
    #[cfg(vp_hooks)]
    ctx.section("far-sessions", if ctx.tiny() { 2 } else { ctx.n(130, 1000).min(1000) }, |c| {
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let (pa, pb) = (c.rng.bytes(48), c.rng.bytes(96));
        if let Some((mut t, mut p)) = interop_handshake(c, c.idx % 2 == 0, &pa, &pb, b"far", s, e) {
            let at = match c.idx / 2 % 65 {
                k @ 0..=61 => (1u64 << (k + 2)) - 3,
                62 => 0,
                63 => u64::MAX - 5,
                _ => c.rng.u64() >> 1,
            };
            let other = if c.rng.bool() { at } else { c.rng.below(1000) as u64 };
            let (c1, c2) = if c.rng.bool() { (at, other) } else { (other, at) };
            t.s.vp_set_counters(c1, c2);
            for r in [&mut t.r, &mut p] {
                r.cs1.n = c1;
                r.cs2.n = c2;
            }
            c.eval(hash(&[b"far", &c1.to_le_bytes(), &c2.to_le_bytes(), &[(c.idx % 2) as u8]]));
            for k in 0..5u32 {
                interop_message(c, &mut t, &mut p, true, &k.to_le_bytes());
                interop_message(c, &mut t, &mut p, false, &k.to_le_bytes());
                if c.failed() {
                    return;
                }
            }
        }
    });
    // the sessions of the stratumv2 crate, with keys of their own
    ctx.section("stratum-sessions", ctx.n(1500, 40_000), |c| {
        let ps = gen_priv(&mut c.rng);
        let pe = gen_priv(&mut c.rng);
        let (la, lb) = (gen_alen(&mut c.rng), gen_blen(&mut c.rng));
        let (la, lb) = (tiny_len(c.ctx, la, 48), tiny_len(c.ctx, lb, 96));
        let (pa, pb) = (c.rng.bytes(la), c.rng.bytes(lb));
        let initiator = c.idx % 2 == 0;
        c.eval(hash(&[&ps, &pe, &pa, &pb]));
        let mut p = RefSession::new(!initiator, &[], ps, pe);
        let (mut a, mut b) = (pa.clone(), pb.clone());
        let mut s;
        let done = if initiator {
            s = stratumv2::noise::new_noise_initiator();
            let mut y;
            s.send_message(&mut a).is_ok()
                && a[32..] == pa[32..]
                && p.recv(&mut a.clone()).is_ok()
                && p.send(&mut b).is_ok()
                && {
                    y = b.clone();
                    s.recv_message(&mut y).is_ok() && y[80..lb - 16] == pb[80..lb - 16]
                }
                && s.get_remote_static_public_key().map(|k| k.as_bytes()) == Some(x25519_base(&ps))
        } else {
            let k = c.rng.bool().then(|| gen_priv(&mut c.rng));
            s = stratumv2::noise::new_noise_responder(k.as_ref().map(keypair));
            p.send(&mut a).is_ok()
                && s.recv_message(&mut a).is_ok()
                && s.send_message(&mut b).is_ok()
                && {
                    let mut y = b.clone();
                    p.recv(&mut y).is_ok() && y[80..lb - 16] == pb[80..lb - 16]
                }
                && k.map(|k| p.rs == Some(x25519_base(&k))).unwrap_or(true)
        };
        if !c.check("handshake completes", done && s.is_transport() && s.get_handshake_hash() == p.hash(), || {
            format!("a stratumv2 {} does not complete with a conforming peer (messages of {la} and {lb} bytes)", if initiator { "initiator" } else { "responder" })
        }) {
            return;
        }
        for _ in 0..4 {
            let n = gen_tlen(&mut c.rng);
            let n = tiny_len(c.ctx, n, 16);
            let m = c.rng.bytes(n);
            let mut x = m.clone();
            let ok = if c.rng.bool() {
                s.send_message(&mut x).is_ok() && p.recv(&mut x).is_ok()
            } else {
                p.send(&mut x).is_ok() && s.recv_message(&mut x).is_ok()
            };
            c.check("transport delivered", ok && x[..n - 16] == m[..n - 16], || format!("a message of {n} bytes is lost"));
        }
    });
    ctx.require(&[
        "sent bytes equal the reference",
        "received payload equals the reference",
        "handshake hash",
        "remote static key",
        "handshake payload delivered",
        "transport delivered",
        "handshake completes",
    ]);
}

// ---------------------------------------------------------------- pairs

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Must {
    Ok,
    Err,
    Free,
}

/// One end of a connection between two real sessions, with what was observed of it.
pub struct Side {
    pub s: NoiseSession,
    pub init: bool,
    pub mc: u128,
    pub transport: bool,
    pub dead: bool,
    /// handshake messages sent and received
    pub sent_hs: Option<Vec<u8>>,
    pub got_hs: Option<Vec<u8>>,
    /// transport messages sent: ciphertext, plaintext
    pub out: Vec<(Vec<u8>, Vec<u8>)>,
    /// how many of the other side's were accepted
    pub next: usize,
    pub stat: [u8; 32],
}
impl Side {
    pub fn new(init: bool, prologue: &[u8], stat: [u8; 32], eph: Option<[u8; 32]>) -> Side {
        let mut s = NoiseSession::init_session(init, prologue, keypair(&stat));
        if let Some(e) = eph {
            s.set_ephemeral_keypair(keypair(&e));
        }
        Side { s, init, mc: 0, transport: false, dead: false, sent_hs: None, got_hs: None, out: Vec::new(), next: 0, stat }
    }
    pub fn name(&self) -> &'static str {
        if self.init {
            "initiator"
        } else {
            "responder"
        }
    }
    pub fn must_send(&self, len: usize) -> Must {
        if len < 16 || len > 65535 {
            return Must::Err;
        }
        if self.transport {
            return Must::Ok;
        }
        if self.mc >= 2 {
            return Must::Free;
        }
        if self.init != (self.mc == 0) {
            return Must::Err;
        }
        if self.mc == 0 {
            return match len {
                0..=31 => Must::Err,
                32..=47 => Must::Free,
                _ => Must::Ok,
            };
        }
        if len < 96 {
            Must::Err
        } else if self.dead {
            Must::Free
        } else {
            Must::Ok
        }
    }
    pub fn must_recv(&self, peer: &Side, b: &[u8]) -> Must {
        if b.len() < 16 || b.len() > 65535 {
            return Must::Err;
        }
        if self.transport {
            let genuine = paired(self, peer) && peer.out.get(self.next).map(|m| m.0 == b).unwrap_or(false);
            return if genuine { Must::Ok } else { Must::Err };
        }
        if self.mc >= 2 || self.init == (self.mc == 0) {
            return Must::Err;
        }
        if !self.init {
            if b.len() < 48 {
                return Must::Err;
            }
            let e: [u8; 32] = b[..32].try_into().unwrap();
            if low_order_encodings().contains(&e) {
                return Must::Err;
            }
            if self.dead || e[31] & 0x80 != 0 {
                return Must::Free;
            }
            return Must::Ok;
        }
        if b.len() < 96 {
            return Must::Err;
        }
        let genuine = peer.transport && peer.sent_hs.as_deref() == Some(b) && peer.got_hs == self.sent_hs;
        match (genuine, self.dead) {
            (true, false) => Must::Ok,
            (true, true) => Must::Free,
            _ => Must::Err,
        }
    }
    /// Sends; what the real session returned, with the buffer after it.
    pub fn send(&mut self, buf: &[u8]) -> Option<Vec<u8>> {
        let mut b = buf.to_vec();
        match self.s.send_message(&mut b) {
            Ok(()) => {
                self.mc += 1;
                if self.transport {
                    self.out.push((b.clone(), buf[..buf.len() - 16].to_vec()));
                } else {
                    self.sent_hs = Some(b.clone());
                    if !self.init {
                        self.transport = true;
                    }
                }
                Some(b)
            }
            Err(_) => None,
        }
    }
    pub fn recv(&mut self, buf: &[u8]) -> Option<Vec<u8>> {
        let mut b = buf.to_vec();
        match self.s.recv_message(&mut b) {
            Ok(()) => {
                self.mc += 1;
                if self.transport {
                    self.next += 1;
                } else {
                    self.got_hs = Some(buf.to_vec());
                    if self.init {
                        self.transport = true;
                    }
                }
                Some(b)
            }
            Err(_) => {
                let turn = self.init != (self.mc == 0);
                let min = if self.init { 96 } else { 48 };
                if !self.transport && turn && buf.len() >= min && buf.len() <= 65535 {
                    self.dead = true;
                }
                None
            }
        }
    }
}
/// Both ends completed one and the same handshake.
pub fn paired(a: &Side, b: &Side) -> bool {
    a.transport && b.transport && a.sent_hs == b.got_hs && a.got_hs == b.sent_hs
}

fn new_pair(r: &mut Rng, prologue: &[u8]) -> (Side, Side) {
    let e = |r: &mut Rng| if r.bool() { Some(gen_priv(r)) } else { None };
    let (k1, k2) = (gen_priv(r), gen_priv(r));
    let (e1, e2) = (e(r), e(r));
    (Side::new(true, prologue, k1, e1), Side::new(false, prologue, k2, e2))
}
/// A pair after a genuine handshake; a failure is reported under `monitor`.
fn connected(c: &mut Case, monitor: &'static str) -> Option<(Side, Side)> {
    let pro = gen_prologue(&mut c.rng);
    let (mut i, mut r) = new_pair(&mut c.rng, &pro);
    let (la, lb) = (gen_alen(&mut c.rng).min(700), gen_blen(&mut c.rng).min(700));
    let (la, lb) = (tiny_len(c.ctx, la, 48), tiny_len(c.ctx, lb, 96));
    let ok = handshake(&mut c.rng, &mut i, &mut r, la, lb);
    c.check(monitor, ok && paired(&i, &r), || "an undisturbed handshake does not complete".into());
    ok.then_some((i, r))
}
fn handshake(rng: &mut Rng, i: &mut Side, r: &mut Side, la: usize, lb: usize) -> bool {
    let a = match i.send(&rng.bytes(la)) {
        Some(a) => a,
        None => return false,
    };
    if r.recv(&a).is_none() {
        return false;
    }
    match r.send(&rng.bytes(lb)) {
        Some(b) => i.recv(&b).is_some(),
        None => false,
    }
}

// ---------------------------------------------------------------- C12

fn rejected(c: &mut Case, i: &mut Side, r: &Side, b: &[u8], what: &dyn Fn() -> String) {
    let must = i.must_recv(r, b);
    let got = i.recv(b);
    c.eval(hash(&[b, i.sent_hs.as_deref().unwrap_or(&[])]));
    if must == Must::Ok {
        c.check("genuine reply accepted", got.is_some(), || format!("a genuine reply is rejected ({})", what()));
        return;
    }
    if must == Must::Free {
        return;
    }
    c.check("forged handshake rejected", got.is_none(), || format!("the initiator accepts a reply that is not genuine: {}; reply {}", what(), hexs(b)));
    let st = (i.s.is_transport(), i.s.get_handshake_hash().is_some(), i.s.get_remote_static_public_key().is_some());
    c.check("rejecting side stays out of transport mode", st == (false, false, false), || {
        format!("after rejecting a reply ({}), transport/hash/key are {st:?}", what())
    });
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("an input is a handshake run with a disturbed message: every bit of both messages flipped, every truncation, extensions, replays, reflections, foreign replies, mismatched prologues, and replies forged by an attacker who computes everything except what needs the claimed static key. Distinct by first message and reply bytes.");
    if !reference_ok(ctx) {
        return;
    }
    // flip every bit of the reply / of the first message
    ctx.section("bit-flips", ctx.n(64, 3000), |c| {
        let pro = gen_prologue(&mut c.rng);
        let lb = 96 + if c.rng.bool() { 0 } else { c.rng.below(60) };
        let la = 48 + if c.rng.bool() { 0 } else { c.rng.below(60) };
        let (is, ie, rs, re) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng), gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let (pa, pb) = (c.rng.bytes(la), c.rng.bytes(lb));
        let mut r = Side::new(false, &pro, rs, Some(re));
        let mut i0 = Side::new(true, &pro, is, Some(ie));
        let a = match i0.send(&pa) {
            Some(a) => a,
            None => return,
        };
        if r.recv(&a).is_none() {
            return;
        }
        let b = match r.send(&pb) {
            Some(b) => b,
            None => return,
        };
        let step = if c.ctx.tiny() { 97 } else { 1 };
        let mut bit = c.rng.below(step);
        while bit < lb * 8 {
            let mut x = b.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            let mut i = Side::new(true, &pro, is, Some(ie));
            i.send(&pa);
            rejected(c, &mut i, &r, &x, &|| format!("bit {bit} flipped in a reply of {lb} bytes"));
            if i.transport {
                return;
            }
            bit += step;
        }
        // first message modified: the responder answers something else
        let mut bit = c.rng.below(step);
        while bit < la * 8 {
            let mut x = a.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            let mut r2 = Side::new(false, &pro, rs, Some(re));
            if r2.recv(&x).is_some() {
                if let Some(b2) = r2.send(&pb) {
                    let mut i = Side::new(true, &pro, is, Some(ie));
                    i.send(&pa);
                    rejected(c, &mut i, &r2, &b2, &|| format!("bit {bit} flipped in a first message of {la} bytes"));
                    c.obs("first message disturbed", 1);
                    if i.transport {
                        return;
                    }
                }
            }
            bit += step;
        }
        let mut i = Side::new(true, &pro, is, Some(ie));
        i.send(&pa);
        rejected(c, &mut i, &r, &b, &|| "unmodified".into());
        judge_complete(c, &i, &r);
    });
    // every part of the reply overwritten, and pairs of parts
    ctx.section("filled", if ctx.tiny() { 1 } else { ctx.n(40, 1500) }, |c| {
        let pro = gen_prologue(&mut c.rng);
        let lb = [96, 112, 128, 160, 97, 256, 200, 131][(c.idx % 8) as usize];
        let (is, ie, rs, re) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng), gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let (pa, pb) = (c.rng.bytes(64), c.rng.bytes(lb));
        let mut r = Side::new(false, &pro, rs, Some(re));
        let mut i0 = Side::new(true, &pro, is, Some(ie));
        let b = match i0.send(&pa).and_then(|a| r.recv(&a)).and_then(|_| r.send(&pb)) {
            Some(b) => b,
            None => return,
        };
        let cuts = crate::model::cuts(lb);
        for (k, &x) in cuts.iter().enumerate() {
            for &y in &cuts[k + 1..] {
                for how in 1..6 {
                    if c.ctx.tiny() && (x + y + how) % 23 != 0 {
                        continue;
                    }
                    let mut f = crate::model::filled(&b, x, y, how, c.rng.u8());
                    if c.rng.chance(1, 4) {
                        let (p, q) = (*c.rng.pick(&cuts), *c.rng.pick(&cuts));
                        f = crate::model::filled(&f, p.min(q), p.max(q), c.rng.below(6), c.rng.u8());
                    }
                    let mut i = Side::new(true, &pro, is, Some(ie));
                    i.send(&pa);
                    rejected(c, &mut i, &r, &f, &|| format!("bytes {x}..{y} of a reply of {lb} bytes overwritten ({how})"));
                    if c.failed() {
                        return;
                    }
                }
            }
        }
    });
    ctx.section("disturbed", ctx.n(6000, 150_000), |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, mut r) = new_pair(&mut c.rng, &pro);
        let (la, lb) = (gen_alen(&mut c.rng).min(1200), gen_blen(&mut c.rng).min(1200));
        let (la, lb) = (tiny_len(c.ctx, la, 48), tiny_len(c.ctx, lb, 96));
        let a = match i.send(&c.rng.bytes(la)) {
            Some(a) => a,
            None => return,
        };
        let kind = c.rng.below(17);
        // what the responder receives
        let mut a2 = a.clone();
        match kind {
            0 => {
                let n = 1 + c.rng.below(20);
                let t = c.rng.bytes(n);
                a2.extend(t)
            }
            1 => a2.truncate(48 + c.rng.below(la - 47)),
            2 => {
                let k = x25519_base(&gen_priv(&mut c.rng));
                a2[..32].copy_from_slice(&k)
            }
            3 => {
                for x in a2[32..].iter_mut() {
                    *x = c.rng.u8();
                }
            }
            14 => a2 = crate::model::altered(&mut c.rng, &a),
            _ => {}
        }
        if r.recv(&a2).is_none() {
            return;
        }
        let b = match r.send(&c.rng.bytes(lb)) {
            Some(b) => b,
            None => return,
        };
        let mut b2 = b.clone();
        let mut peer_static: Option<[u8; 32]> = None;
        match kind {
            4 => {
                let n = 1 + c.rng.below(40);
                let t = c.rng.bytes(n);
                b2.extend(t)
            }
            5 => {
                let n = 1 + c.rng.below(40);
                b2.extend(std::iter::repeat(0).take(n))
            }
            6 => b2.truncate(c.rng.below(lb)),
            // a reply to somebody else, from the same responder key
            7 => {
                let (mut i3, _) = new_pair(&mut c.rng, &pro);
                let mut r3 = Side::new(false, &pro, r.stat, None);
                if let Some(a3) = i3.send(&c.rng.bytes(la)) {
                    r3.recv(&a3);
                    if let Some(b3) = r3.send(&c.rng.bytes(lb)) {
                        b2 = b3;
                    }
                }
            }
            // reflection of the first message
            8 => {
                b2 = a.clone();
                if b2.len() < 96 {
                    b2.resize(96, 0);
                }
            }
            // a responder with another prologue
            9 => {
                let mut p2 = pro.clone();
                match c.rng.below(3) {
                    0 => p2.push(0),
                    1 if !p2.is_empty() => {
                        p2.pop();
                    }
                    _ => p2.insert(0, 1),
                }
                let mut r3 = Side::new(false, &p2, r.stat, None);
                r3.recv(&a);
                if let Some(b3) = r3.send(&c.rng.bytes(lb)) {
                    b2 = b3;
                }
            }
            // part of another genuine reply spliced in
            10 | 11 => {
                let mut r3 = Side::new(false, &pro, gen_priv(&mut c.rng), None);
                r3.recv(&a);
                if let Some(b3) = r3.send(&c.rng.bytes(lb)) {
                    let (x, y) = *c.rng.pick(&[(0usize, 32usize), (32, 80), (80, usize::MAX), (0, 80), (32, usize::MAX)]);
                    let y = y.min(b2.len());
                    b2[x..y].copy_from_slice(&b3[x..y]);
                }
            }
            // an active attacker in the middle, who completes as himself: genuine for his key
            12 => {
                let k = gen_priv(&mut c.rng);
                let mut r3 = Side::new(false, &pro, k, None);
                r3.recv(&a);
                if let Some(b3) = r3.send(&c.rng.bytes(lb)) {
                    b2 = b3;
                    r = r3;
                    peer_static = Some(k);
                }
            }
            15 | 16 => b2 = crate::model::altered(&mut c.rng, &b),
            _ => {}
        }
        rejected(c, &mut i, &r, &b2, &|| format!("disturbance {kind}"));
        if let Some(k) = peer_static {
            let got = i.s.get_remote_static_public_key().map(|k| k.as_bytes());
            c.check("reported key is the responder's", got == Some(x25519_base(&k)), || "another key than the responder's is reported".into());
        }
        judge_complete(c, &i, &r);
        // whatever follows, only the genuine reply may complete it
        if !i.transport {
            for _ in 0..3 {
                let x = match c.rng.below(3) {
                    0 => b2.clone(),
                    1 => b.clone(),
                    _ => {
                        let n = 16 + c.rng.below(200);
                        c.rng.bytes(n)
                    }
                };
                if i.must_recv(&r, &x) == Must::Err {
                    rejected(c, &mut i, &r, &x, &|| "after a rejected reply".into());
                } else {
                    i.recv(&x);
                    judge_complete(c, &i, &r);
                }
                if i.transport {
                    break;
                }
            }
        }
    });
    // long messages: a change anywhere in them
    ctx.section("long", if ctx.tiny() { 2 } else { ctx.n(300, 8000) }, |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, mut r) = new_pair(&mut c.rng, &pro);
        let long = |r: &mut Rng| match r.below(3) {
            0 => 65535 - r.below(40),
            1 => 96 + r.below(65535 - 95),
            _ => 96 + (1 << r.range(7, 15)) + r.below(100),
        };
        let (la, lb) = (long(&mut c.rng), long(&mut c.rng));
        let at = |r: &mut Rng, n: usize| match r.below(4) {
            0 => n - 1 - r.below(n.min(40)),
            1 => ((1 << r.range(6, 15)) + r.below(40)).min(n - 1),
            _ => r.below(n),
        };
        let a = match i.send(&c.rng.bytes(la)) {
            Some(a) => a,
            None => return,
        };
        let first = c.rng.bool();
        let mut a2 = a.clone();
        let mut p = at(&mut c.rng, la);
        if first {
            a2[p] ^= 1 << c.rng.below(8);
        }
        if r.recv(&a2).is_none() {
            return;
        }
        let b = match r.send(&c.rng.bytes(lb)) {
            Some(b) => b,
            None => return,
        };
        let mut b2 = b.clone();
        if !first && c.rng.chance(7, 8) {
            p = at(&mut c.rng, lb);
            b2[p] ^= 1 << c.rng.below(8);
        }
        rejected(c, &mut i, &r, &b2, &|| format!("byte {p} of the {} changed, of messages of {la} and {lb} bytes", if first { "first message" } else { "reply" }));
        c.obs("long messages disturbed", 1);
        judge_complete(c, &i, &r);
    });
    // an attacker who knows everything except the private half of the key he claims
    ctx.section("forged", ctx.n(3000, 80_000), |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, _) = new_pair(&mut c.rng, &pro);
        let la = gen_alen(&mut c.rng).min(300);
        let a = match i.send(&c.rng.bytes(la)) {
            Some(a) => a,
            None => return,
        };
        // random keys: the corner values of gen_priv could coincide
        let victim = x25519_base(&c.rng.arr32());
        let own = c.rng.arr32();
        let e = c.rng.arr32();
        let n = c.rng.below(50);
        let payload = c.rng.bytes(n);
        let ie: [u8; 32] = a[..32].try_into().unwrap();
        let all = [
            Forge::Es([0; 32]),
            Forge::Es(crate::refcrypto::x25519(&own, &ie)),
            Forge::Es(crate::refcrypto::x25519(&e, &ie)),
            Forge::Es(crate::refcrypto::x25519(&e, &victim)),
            Forge::Es(victim),
            Forge::NoEs,
            Forge::Swapped,
            Forge::PlainStatic,
            Forge::PlainPayload,
            Forge::NoHashStatic,
            Forge::NoHashPayload,
            Forge::NoMixE,
            Forge::NoMixS,
            Forge::Ee([0; 32]),
            Forge::Ee(crate::refcrypto::x25519(&own, &ie)),
            Forge::NonceStatic,
            Forge::NoncePayload,
        ];
        let how = all[c.idx as usize % all.len()];
        // deviations other than the missing es are tried with the attacker's own key too
        let claimed = if matches!(how, Forge::Es(_)) || c.rng.bool() { victim } else { x25519_base(&own) };
        let b = forge_reply(&pro, &a, &own, &claimed, &e, None, &payload, Some(how));
        let nobody = Side::new(false, &pro, own, None);
        rejected(c, &mut i, &nobody, &b, &|| format!("forged with {how:?}"));
        c.obs("forgeries tried", 1);
    });
    // the forger without deviation is accepted: the forgeries above fail for the right reason
    ctx.section("forger-control", ctx.n(60, 500), |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, _) = new_pair(&mut c.rng, &pro);
        let a = match i.send(&c.rng.bytes(60)) {
            Some(a) => a,
            None => return,
        };
        let own = gen_priv(&mut c.rng);
        let e = gen_priv(&mut c.rng);
        let b = forge_reply(&pro, &a, &own, &x25519_base(&own), &e, None, b"hello", None);
        let ok = i.recv(&b).is_some();
        if ok {
            c.obs("forger without deviation accepted", 1);
        }
    });
    ctx.require(&[
        "forged handshake rejected",
        "genuine reply accepted",
        "rejecting side stays out of transport mode",
        "first message disturbed",
        "long messages disturbed",
        "forgeries tried",
        "completed handshakes agree",
    ]);
}

/// If the initiator completed: with the genuine reply, the same hash and the right key.
fn judge_complete(c: &mut Case, i: &Side, r: &Side) {
    if !i.s.is_transport() {
        return;
    }
    c.check("completed handshakes agree", paired(i, r) && i.s.get_handshake_hash() == r.s.get_handshake_hash(), || {
        format!("the initiator completed, but its hash {:?} is not the responder's {:?}", i.s.get_handshake_hash().map(|h| hex(&h)), r.s.get_handshake_hash().map(|h| hex(&h)))
    });
    let k = i.s.get_remote_static_public_key().map(|k| k.as_bytes());
    c.check("reported key is the responder's", k == Some(x25519_base(&r.stat)), || {
        format!("remote key {:?}, responder's {}", k.map(|k| hex(&k)), hex(&x25519_base(&r.stat)))
    });
}

// ---------------------------------------------------------------- C13

fn deliver(c: &mut Case, to: &mut Side, from: &Side, b: &[u8], what: &dyn Fn() -> String) {
    let must = to.must_recv(from, b);
    let idx = to.next;
    let got = to.recv(b);
    match (must, &got) {
        (Must::Ok, Some(x)) => {
            let (_, plain) = &from.out[idx];
            let n = plain.len();
            c.check("exact plaintext delivered", &x[..n] == &plain[..] && x[n..] == [0u8; 16], || {
                format!("message {idx} of {n} bytes arrives as {} instead of {} and 16 zero bytes", hexs(x), hexs(plain))
            });
        }
        (Must::Ok, None) => c.fail(
            "genuine message accepted",
            format!("{} rejects message {idx} of {} bytes, the next genuine one ({})", to.name(), b.len(), what()),
        ),
        (_, None) => c.obs("disturbed message rejected", 1),
        (_, Some(_)) => c.fail(
            "disturbed message rejected",
            format!("{} accepts a message that is not the next genuine one ({}): {}", to.name(), what(), hexs(b)),
        ),
    }
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("an input is a connection under an active adversary: a sequence of sends and deliveries, where deliveries are genuine, replayed, early, bit-flipped, truncated, extended, reflected, foreign or random. Distinct by session keys and delivered bytes.");
    ctx.section("adversary", ctx.n(2500, 60_000), |c| {
        let (mut i, mut r) = match connected(c, "handshake for the workload") {
            Some(p) => p,
            None => return,
        };
        let foreign = match connected(c, "handshake for the workload") {
            Some((mut fi, mut fr)) => {
                let n = gen_tlen(&mut c.rng).min(300);
                let (x, y) = (fi.send(&c.rng.bytes(n)), fr.send(&c.rng.bytes(n)));
                vec![x.unwrap_or_default(), y.unwrap_or_default()]
            }
            None => return,
        };
        let steps = if c.ctx.tiny() { 30 } else { 60 + c.rng.below(100) };
        let mut trace = Vec::new();
        for _ in 0..steps {
            let to_r = c.rng.bool();
            let (from, to) = if to_r { (&mut i, &mut r) } else { (&mut r, &mut i) };
            if from.out.len() <= to.next || c.rng.chance(1, 3) {
                let n = gen_tlen(&mut c.rng);
                let n = tiny_len(c.ctx, n, 16);
                let n = if n > 5000 && !c.rng.chance(1, 6) { 16 + n % 500 } else { n };
                let m = if c.rng.chance(1, 4) { vec![0; n] } else { c.rng.bytes(n) };
                if from.send(&m).is_none() {
                    c.fail("genuine message accepted", format!("{} refuses to send {n} bytes in transport mode", from.name()));
                    return;
                }
                trace.push(1u8);
                continue;
            }
            let next = from.out.get(to.next).map(|m| m.0.clone()).unwrap_or_default();
            let kind = c.rng.below(20);
            trace.push(kind as u8 + 2);
            let b = match kind {
                0 | 1 | 2 | 3 => next,
                4 if to.next > 0 => from.out[c.rng.below(to.next)].0.clone(),
                5 if to.next > 0 => from.out[to.next - 1].0.clone(),
                6 => from.out[from.out.len() - 1].0.clone(),
                7 | 8 => {
                    let mut x = next;
                    let k = c.rng.below(x.len() * 8);
                    x[k / 8] ^= 1 << (k % 8);
                    x
                }
                9 => {
                    let mut x = next;
                    x.truncate(c.rng.below(x.len()));
                    x
                }
                10 => {
                    let mut x = next;
                    let n = 1 + c.rng.below(20);
                    let t = c.rng.bytes(n);
                    x.extend(t);
                    x
                }
                11 if !to.out.is_empty() => {
                    // reflection: what the receiver itself sent, preferably at the same position
                    let k = if c.rng.bool() && to.next < to.out.len() { to.next } else { c.rng.below(to.out.len()) };
                    to.out[k].0.clone()
                }
                12 => foreign[c.rng.below(2)].clone(),
                13 => {
                    let n = 16 + c.rng.below(100);
                    if c.rng.bool() {
                        vec![0; n]
                    } else {
                        c.rng.bytes(n)
                    }
                }
                16..=19 => {
                    let x = if kind == 19 && to.next > 0 { from.out[to.next - 1].0.clone() } else { next };
                    crate::model::altered(&mut c.rng, &x)
                }
                14 => {
                    // cut at the front, or two messages joined
                    let mut x = next;
                    if c.rng.bool() && x.len() > 16 {
                        x.remove(0);
                    } else {
                        let y = x.clone();
                        x.extend(y);
                    }
                    x
                }
                _ => {
                    // tag of another message, or plaintext instead of ciphertext
                    let mut x = next;
                    let n = x.len();
                    if c.rng.bool() {
                        let o = &from.out[c.rng.below(from.out.len())].0;
                        x[n - 16..].copy_from_slice(&o[o.len() - 16..]);
                    } else {
                        let p = &from.out[to.next].1;
                        x[..n - 16].copy_from_slice(p);
                    }
                    x
                }
            };
            deliver(c, to, from, &b, &|| format!("delivery kind {kind}"));
            if c.failed() {
                return;
            }
        }
        // nothing was lost: all remaining messages still arrive
        for to_r in [true, false] {
            let (from, to) = if to_r { (&mut i, &mut r) } else { (&mut r, &mut i) };
            while to.next < from.out.len() && !c.failed() {
                let b = from.out[to.next].0.clone();
                deliver(c, to, from, &b, &|| "draining".into());
                c.obs("genuine message accepted", 1);
            }
        }
        let k = i.s.get_handshake_hash().unwrap_or([0; 32]);
        c.eval(hash(&[&k, &trace]));
        c.sample(|| format!("adversary trace {:?}", &trace[..trace.len().min(40)]));
    });
    // every single-bit change of short messages, every truncation
    ctx.section("all-bits", ctx.n(300, 6000), |c| {
        let (mut i, mut r) = match connected(c, "handshake for the workload") {
            Some(p) => p,
            None => return,
        };
        let to_r = c.idx % 2 == 0;
        let (from, to) = if to_r { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let pre = c.rng.below(4);
        for _ in 0..pre {
            let m = c.rng.bytes(20);
            if let Some(b) = from.send(&m) {
                deliver(c, to, from, &b, &|| "before".into());
            }
        }
        let n = 16 + if c.ctx.tiny() { 4 } else { c.rng.below(70) };
        let b = match from.send(&c.rng.bytes(n)) {
            Some(b) => b,
            None => return,
        };
        for bit in 0..n * 8 {
            let mut x = b.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            c.eval(hash(&[&x]));
            deliver(c, to, from, &x, &|| format!("bit {bit} of {n} bytes flipped"));
            if c.failed() {
                return;
            }
        }
        let cuts = crate::model::cuts(n);
        for (k, &x) in cuts.iter().enumerate() {
            for &y in &cuts[k + 1..] {
                let how = c.rng.below(6);
                if c.ctx.tiny() && how != 0 {
                    continue;
                }
                let f = crate::model::filled(&b, x, y, how, c.rng.u8());
                if f == b {
                    continue;
                }
                c.eval(hash(&[&f]));
                deliver(c, to, from, &f, &|| format!("bytes {x}..{y} of {n} overwritten ({how})"));
                if c.failed() {
                    return;
                }
            }
        }
        for k in 0..n {
            deliver(c, to, from, &b[..k], &|| format!("truncated to {k}"));
            deliver(c, to, from, &b[n - k..], &|| format!("last {k} bytes"));
        }
        deliver(c, to, from, &b, &|| "after all changes".into());
        c.obs("genuine message accepted", 1);
        deliver(c, to, from, &b, &|| "replay".into());
    });
    // long one-way streams, replays from far back
    ctx.section("streams", if ctx.tiny() { 1 } else { ctx.n(24, 400) }, |c| {
        let (mut i, mut r) = match connected(c, "handshake for the workload") {
            Some(p) => p,
            None => return,
        };
        let to_r = c.idx % 2 == 0;
        let (from, to) = if to_r { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let total = if c.ctx.tiny() { 40 } else { 1500 };
        for k in 0..total {
            let m = (k as u64).to_le_bytes().repeat(4);
            let b = match from.send(&m) {
                Some(b) => b,
                None => {
                    c.fail("genuine message accepted", format!("sending message {k} refused"));
                    return;
                }
            };
            deliver(c, to, from, &b, &|| format!("message {k} of a stream"));
            c.obs("genuine message accepted", 1);
            if c.rng.chance(1, 3) {
                let j = c.rng.below(k + 1);
                let old = from.out[j].0.clone();
                deliver(c, to, from, &old, &|| format!("replay of {j} after {k}"));
            }
            // the distance of a power of two catches windows and wrapped indices
            for d in [1usize, 2, 16, 32, 64, 128, 256, 512, 1024] {
                if k >= d && c.rng.chance(1, 20) {
                    let old = from.out[k - d].0.clone();
                    deliver(c, to, from, &old, &|| format!("replay {d} back"));
                }
            }
            c.eval_enum(1);
            if c.failed() {
                return;
            }
        }
    });
    // long enough to pass the limits of 16-bit counters and windows
    ctx.section("long-streams", if ctx.tiny() { 0 } else { ctx.n(1, 2).min(24) }, |c| {
        let (mut i, mut r) = match connected(c, "handshake for the workload") {
            Some(p) => p,
            None => return,
        };
        let (from, to) = if c.idx % 2 == 0 { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let total = if c.thorough() { 1_100_000usize } else { 66_500 };
        for k in 0..total {
            let b = match from.send(&(k as u64).to_le_bytes().repeat(3)) {
                Some(b) => b,
                None => {
                    c.fail("genuine message accepted", format!("sending message {k} refused"));
                    return;
                }
            };
            // old messages before the next one: at every power of two, and anywhere
            let bits = usize::BITS - k.leading_zeros();
            let special = k & (k.wrapping_sub(1)) == 0 || k + 1 & k == 0 || k >= 65500 && k < 65600 || k >= 1 << 20 && k < (1 << 20) + 64;
            if special || c.rng.chance(1, 16) {
                let d = if special { 1usize << c.rng.below(bits.max(1) as usize) } else { 1 + c.rng.below(k.max(1)) };
                for d in [d, k.max(1), (1 << 16), (1 << 15), (1 << 8), (1 << 20)] {
                    if d <= k {
                        let old = from.out[k - d].0.clone();
                        deliver(c, to, from, &old, &|| format!("replay of {} before message {k}", k - d));
                    }
                    if !special {
                        break;
                    }
                }
            }
            deliver(c, to, from, &b, &|| format!("message {k} of a stream"));
            c.obs("genuine message accepted", 1);
            c.eval_enum(1);
            if c.failed() {
                return;
            }
        }
    });
    ctx.require(&["exact plaintext delivered", "genuine message accepted", "disturbed message rejected"]);
}

// ---------------------------------------------------------------- C14

/// Calls that must be rejected for their length, in the session's present state.
fn hostile_lengths(c: &mut Case, me: &mut Side) {
    for _ in 0..1 + c.rng.below(3) {
        let sending = c.rng.bool();
        let max_hs = if me.transport {
            16
        } else if sending {
            if me.mc == 0 {
                32
            } else {
                96
            }
        } else if me.mc == 0 {
            48
        } else {
            96
        };
        let n = match c.rng.below(5) {
            0 => 65536 + c.rng.below(10),
            1 => c.rng.below(16),
            2 => 65536 * (1 + c.rng.below(3)) + c.rng.below(200),
            _ => c.rng.below(max_hs),
        };
        let turn = if sending { me.transport || me.init == (me.mc == 0) } else { me.transport || me.init != (me.mc == 0) };
        let mut b = match c.rng.below(3) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => c.rng.bytes(n),
        };
        let st = me.mc;
        let name = me.name();
        c.eval(hash(&[&n.to_le_bytes(), &[sending as u8, me.init as u8, st.min(3) as u8]]));
        let res = {
            let s = &mut me.s;
            c.run("no panic", || format!("{name} after {st} messages, {} {n} bytes", if sending { "sending" } else { "receiving" }), || {
                if sending {
                    s.send_message(&mut b)
                } else {
                    s.recv_message(&mut b)
                }
            })
        };
        let _ = turn;
        match res {
            Some(r) => {
                c.check("bad length rejected", r.is_err(), || {
                    format!("{name} after {st} messages accepts {} {n} bytes", if sending { "sending" } else { "receiving" })
                });
            }
            None => return,
        }
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("an input is a call of send or receive with a buffer of some length and content on a session in some state (fresh, half-way, transport, failed, cleared, rekeyed, either role), or a whole session with calls of rejected length in between. Distinct by state, call, length and content.");
    // every state x every length
    let lens: Vec<usize> = (0..260).chain([1023, 1024, 4096, 65519, 65520, 65534, 65535, 65536, 65537, 70_000, 131_072]).collect();
    let contents = 4u64;
    let states = 12u64;
    ctx.section("states-and-lengths", states * contents * 2, |c| {
        let state = c.idx % states;
        let content = c.idx / states % contents;
        let sending = c.idx / states / contents == 0;
        for &n in &lens {
            if c.ctx.tiny() && n > 130 && n != 65535 && n != 65536 {
                continue;
            }
            let (mut i, mut r) = new_pair(&mut c.rng, b"p");
            let init = state % 2 == 0;
            let a = i.send(&c.rng.bytes(60));
            match state / 2 {
                0 => {}
                1 => {
                    if let Some(a) = &a {
                        r.recv(a);
                    }
                }
                2 | 3 | 4 => {
                    if let Some(a) = &a {
                        r.recv(a);
                    }
                    if let Some(b) = r.send(&c.rng.bytes(120)) {
                        if state / 2 == 3 {
                            // the initiator fails
                            let mut x = b.clone();
                            x[40] ^= 1;
                            i.recv(&x);
                        } else {
                            i.recv(&b);
                        }
                        if state / 2 == 4 {
                            i.s.clear_local_cipherstate();
                            i.s.clear_remote_cipherstate();
                            r.s.clear_local_cipherstate();
                            r.s.clear_remote_cipherstate();
                        }
                    }
                }
                _ => {
                    i.s.rekey_local_cipherstate();
                    i.s.rekey_remote_cipherstate();
                    r.s.rekey_local_cipherstate();
                    r.s.rekey_remote_cipherstate();
                }
            }
            let fresh = init && state / 2 == 0;
            let me = if init { &mut i } else { &mut r };
            if fresh {
                *me = Side::new(true, b"p", [7; 32], None);
            }
            let mut b = match content {
                0 => vec![0u8; n],
                1 => vec![0xff; n],
                2 => c.rng.bytes(n),
                _ => {
                    // a valid public key in front
                    let mut v = c.rng.bytes(n);
                    let k = x25519_base(&[9; 32]);
                    let m = n.min(32);
                    v[..m].copy_from_slice(&k[..m]);
                    v
                }
            };
            c.eval(hash(&[&[state as u8, content as u8, sending as u8], &n.to_le_bytes()]));
            for round in 0..2 {
                let s = &mut me.s;
                let r = c.run(
                    "no panic",
                    || format!("state {state} {} {n} bytes of content {content}, call {round}", if sending { "sending" } else { "receiving" }),
                    || {
                        let r = if sending { s.send_message(&mut b) } else { s.recv_message(&mut b) };
                        let _ = (s.is_transport(), s.get_handshake_hash(), s.get_message_count(), s.get_remote_static_public_key());
                        r
                    },
                );
                c.obs("no panic", 1);
                match r {
                    Some(r) => {
                        if n < 16 || n > 65535 {
                            c.check("bad length rejected", r.is_err(), || format!("state {state}: {n} bytes accepted"));
                        }
                    }
                    None => return,
                }
            }
            let s = std::mem::replace(&mut me.s, stratumv2::noise::new_noise_initiator());
            c.run("no panic", || format!("ending a session in state {state}"), move || s.end_session());
        }
    });
    // whole sessions with rejected calls in between: they complete and communicate
    ctx.section("harmless", ctx.n(4000, 100_000), |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, mut r) = new_pair(&mut c.rng, &pro);
        let (la, lb) = (gen_alen(&mut c.rng).min(1200), gen_blen(&mut c.rng).min(1200));
        let (la, lb) = (tiny_len(c.ctx, la, 48), tiny_len(c.ctx, lb, 96));
        macro_rules! noise {
            () => {
                hostile_lengths(c, &mut i);
                hostile_lengths(c, &mut r);
                if c.failed() {
                    return;
                }
            };
        }
        noise!();
        let ok = (|| {
            let a = i.send(&c.rng.bytes(la))?;
            hostile_lengths(c, &mut i);
            hostile_lengths(c, &mut r);
            r.recv(&a)?;
            hostile_lengths(c, &mut i);
            hostile_lengths(c, &mut r);
            let b = r.send(&c.rng.bytes(lb))?;
            hostile_lengths(c, &mut i);
            hostile_lengths(c, &mut r);
            i.recv(&b)
        })();
        if c.failed() {
            return;
        }
        if !c.check("session completes despite rejected calls", ok.is_some() && paired(&i, &r) && i.s.get_handshake_hash() == r.s.get_handshake_hash(), || {
            "a handshake with calls of rejected length in between does not complete".into()
        }) {
            return;
        }
        for k in 0..6 {
            noise!();
            let (from, to) = if c.rng.bool() { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let n = gen_tlen(&mut c.rng).min(600);
            let m = c.rng.bytes(n);
            let got = from.send(&m).and_then(|b| to.recv(&b));
            c.check(
                "session communicates despite rejected calls",
                got.as_ref().map(|x| x[..n - 16] == m[..n - 16]).unwrap_or(false),
                || format!("transport message {k} of {n} bytes is lost after calls of rejected length"),
            );
            if c.failed() {
                return;
            }
        }
    });
    // ... also after very many of them
    ctx.section("many-refusals", if ctx.tiny() { 0 } else { ctx.n(2, 3).min(24) }, |c| {
        let (mut i, mut r) = match connected(c, "session completes despite rejected calls") {
            Some(p) => p,
            None => return,
        };
        let n = 1 << c.rng.range(12, 17);
        let mut b = vec![0; 100];
        for k in 0..n {
            let x = c.rng.u64();
            let len = (x >> 32) as usize % 60;
            b[..8].copy_from_slice(&x.to_le_bytes());
            let s = if x & 1 == 0 { &mut i.s } else { &mut r.s };
            let ok = match x >> 1 & 7 {
                0 => s.send_message(&mut b[..len % 16]).is_ok(),
                _ => s.recv_message(&mut b[..len]).is_ok(),
            };
            if ok {
                return c.fail("bad length rejected", format!("garbage of {len} bytes is accepted, call {k}"));
            }
            if k % 1009 == 0 || k + 1 == n {
                for back in [false, true] {
                    let (f, t) = if back { (&mut r, &mut i) } else { (&mut i, &mut r) };
                    let m = c.rng.bytes(40);
                    let got = f.send(&m).and_then(|b| t.recv(&b));
                    if !c.check("session communicates despite rejected calls", got.as_ref().map(|x| x[..24] == m[..24]).unwrap_or(false), || {
                        format!("a message is lost after {k} rejected calls")
                    }) {
                        return;
                    }
                }
            }
        }
        c.obs("refusals in a row", n);
        let x = c.rng.u64();
        c.eval(hash(&[b"many", &n.to_le_bytes(), &x.to_le_bytes()]));
    });
    // arbitrary call sequences on one session: nothing panics
    ctx.section("random-calls", ctx.n(6000, 200_000), |c| {
        let init = c.rng.bool();
        let mut s = NoiseSession::init_session(init, &gen_prologue(&mut c.rng), if c.rng.chance(1, 10) { Keypair::new_empty() } else { keypair(&gen_priv(&mut c.rng)) });
        let (mut pi, _) = new_pair(&mut c.rng, b"");
        let mut last: Vec<u8> = pi.send(&c.rng.bytes(80)).unwrap_or_default();
        let mut log = Vec::new();
        for _ in 0..12 {
            let op = c.rng.below(12);
            let n = match c.rng.below(4) {
                0 => *c.rng.pick(&[0usize, 1, 15, 16, 17, 31, 32, 33, 47, 48, 49, 79, 80, 81, 95, 96, 97, 111, 112, 113]),
                1 => last.len(),
                _ => c.rng.below(300),
            };
            let mut b = if c.rng.bool() {
                let mut x = last.clone();
                x.resize(n, 3);
                x
            } else {
                c.rng.bytes(n)
            };
            log.push((op, n));
            let sref = &mut s;
            let key = gen_priv(&mut c.rng);
            let out = c.run("no panic", || format!("call sequence {log:?}, initiator {init}"), || {
                match op {
                    0..=4 => {
                        let _ = sref.recv_message(&mut b);
                    }
                    5..=7 => {
                        let _ = sref.send_message(&mut b);
                    }
                    8 => sref.rekey_local_cipherstate(),
                    9 => sref.rekey_remote_cipherstate(),
                    10 => {
                        if key[0] < 128 {
                            sref.clear_local_cipherstate()
                        } else {
                            sref.clear_remote_cipherstate()
                        }
                    }
                    _ => sref.set_ephemeral_keypair(if key[0] < 40 { Keypair::new_empty() } else { keypair(&key) }),
                }
                b
            });
            c.obs("no panic", 1);
            match out {
                Some(b) => last = b,
                None => return,
            }
        }
        c.eval(hash(&[format!("{log:?}{init}").as_bytes()]));
    });
    ctx.require(&["no panic", "bad length rejected", "session completes despite rejected calls", "session communicates despite rejected calls"]);
}

// ---------------------------------------------------------------- C15

fn status(c: &mut Case, me: &Side) {
    let (t, h, k, n) = (
        me.s.is_transport(),
        me.s.get_handshake_hash().is_some(),
        me.s.get_remote_static_public_key().is_some(),
        me.s.get_message_count(),
    );
    c.check("transport mode exactly after the handshake", t == me.transport, || {
        format!("{}: is_transport is {t} after {} successful messages", me.name(), me.mc)
    });
    c.check("hash and key reported exactly in transport mode", h == me.transport && k == me.transport, || {
        format!("{}: hash reported {h}, key reported {k}, handshake complete {}", me.name(), me.transport)
    });
    c.check("message count", n == me.mc, || format!("{}: message count {n}, successful calls {}", me.name(), me.mc));
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("an input is a sequence of calls on two sessions: steps in and out of turn, of good and bad lengths, genuine, replayed and garbage messages; after every call the reported status is compared with the calls that succeeded. Distinct by call sequence.");
    ctx.section("sequences", ctx.n(8000, 250_000), |c| {
        let pro = gen_prologue(&mut c.rng);
        let (mut i, mut r) = new_pair(&mut c.rng, &pro);
        status(c, &i);
        status(c, &r);
        let mut log: Vec<u8> = Vec::new();
        let steps = if c.ctx.tiny() { 10 } else { 8 + c.rng.below(30) };
        for _ in 0..steps {
            let on_i = c.rng.bool();
            let (me, peer) = if on_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let op = c.rng.below(12);
            log.push(op as u8 * 2 + on_i as u8);
            let hs = !me.transport;
            let before = me.mc;
            let (must, got) = if op < 4 {
                let n = match c.rng.below(8) {
                    0 => c.rng.below(130),
                    1 => *c.rng.pick(&[15usize, 16, 31, 48, 95, 96, 65535, 65536]),
                    _ => 96 + c.rng.below(60),
                };
                let must = me.must_send(n);
                let b = c.rng.bytes(n);
                (must, me.send(&b).is_some())
            } else {
                let b = match op {
                    // the natural next message of the peer
                    4..=7 => {
                        if me.transport || (!me.init && me.mc > 0) {
                            peer.out.get(me.next).map(|m| m.0.clone()).or(peer.sent_hs.clone())
                        } else {
                            peer.sent_hs.clone()
                        }
                    }
                    // that, changed on its way
                    10 | 11 => {
                        let b = if me.transport { peer.out.get(me.next).map(|m| m.0.clone()).or(peer.sent_hs.clone()) } else { peer.sent_hs.clone() };
                        b.map(|b| crate::model::altered(&mut c.rng, &b))
                    }
                    // what it sent itself, something old
                    8 => me.sent_hs.clone().or(peer.sent_hs.clone()),
                    _ => None,
                };
                let b = b.unwrap_or_else(|| {
                    let n = c.rng.below(200);
                    c.rng.bytes(n)
                });
                let must = me.must_recv(peer, &b);
                (must, me.recv(&b).is_some())
            };
            if hs {
                match must {
                    Must::Ok => {
                        c.check("step in turn accepted", got, || format!("{} refuses handshake step {before} in turn; calls {log:?}", me.name()));
                    }
                    Must::Err => {
                        c.check("step out of turn or invalid rejected", !got, || {
                            format!("{} accepts call {op} after {before} messages, which is out of turn or invalid; calls {log:?}", me.name())
                        });
                    }
                    Must::Free => {}
                }
            }
            status(c, &i);
            status(c, &r);
            if c.failed() {
                return;
            }
        }
        if paired(&i, &r) {
            c.check("both ends report the same hash", i.s.get_handshake_hash() == r.s.get_handshake_hash(), || "hashes differ".into());
            c.obs("sequences that completed", 1);
        }
        c.eval(hash(&[&log]));
        c.sample(|| format!("calls {log:?}: counts {}/{}", i.mc, r.mc));
    });
    // out-of-turn steps have no effect: the undisturbed handshake still works
    ctx.section("no-effect", ctx.n(3000, 80_000), |c| {
        let (mut i, mut r) = new_pair(&mut c.rng, b"");
        let (mut oi, _) = new_pair(&mut c.rng, b"");
        let oa = oi.send(&c.rng.bytes(120)).unwrap_or_default();
        let mut stage = 0;
        let mut a = Vec::new();
        let mut b = Vec::new();
        while stage < 4 {
            for _ in 0..c.rng.below(3) {
                // one out-of-turn call
                let n = 96 + c.rng.below(100);
                let junk = if c.rng.bool() { oa.clone() } else { c.rng.bytes(n) };
                let on_i = c.rng.bool();
                let me = if on_i { &mut i } else { &mut r };
                let out_of_turn_send = !me.transport && me.init != (me.mc == 0);
                let out_of_turn_recv = !me.transport && me.init == (me.mc == 0);
                let (what, got) = if out_of_turn_send && c.rng.bool() {
                    ("send", me.send(&junk).is_some())
                } else if out_of_turn_recv {
                    ("receive", me.recv(&junk).is_some())
                } else {
                    continue;
                };
                let name = me.name();
                c.check("step out of turn or invalid rejected", !got, || format!("{name} accepts to {what} out of turn at stage {stage}"));
                status(c, &i);
                status(c, &r);
                if c.failed() {
                    return;
                }
            }
            let ok = match stage {
                0 => {
                    a = i.send(&c.rng.bytes(64)).unwrap_or_default();
                    !a.is_empty()
                }
                1 => r.recv(&a).is_some(),
                2 => {
                    b = r.send(&c.rng.bytes(100)).unwrap_or_default();
                    !b.is_empty()
                }
                _ => i.recv(&b).is_some(),
            };
            if !c.check("step in turn accepted", ok, || format!("handshake stage {stage} fails after calls out of turn")) {
                return;
            }
            stage += 1;
        }
        status(c, &i);
        status(c, &r);
        for k in 0..3 {
            let m = c.rng.bytes(40);
            let (f, t) = if c.rng.bool() { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let ok = f.send(&m).and_then(|b| t.recv(&b)).is_some();
            c.check("transport works afterwards", ok, || format!("message {k} lost"));
        }
        status(c, &i);
        status(c, &r);
        c.eval_enum(1);
    });
    // the count over many messages with failures in between
    ctx.section("long-count", if ctx.tiny() { 1 } else { ctx.n(8, 60) }, |c| {
        let (mut i, mut r) = match connected(c, "step in turn accepted") {
            Some(p) => p,
            None => return,
        };
        for k in 0..if c.ctx.tiny() { 20 } else { 3000 } {
            let (f, t) = if c.rng.chance(2, 3) { (&mut i, &mut r) } else { (&mut r, &mut i) };
            f.send(&[1; 15]);
            if let Some(b) = f.send(&[k as u8; 20]) {
                if c.rng.bool() {
                    t.recv(&[0; 33]);
                }
                t.recv(&b);
            }
            status(c, &i);
            status(c, &r);
            c.eval_enum(1);
            if c.failed() {
                return;
            }
        }
    });
    // calls that fail in transport mode: bad lengths, garbage, cleared keys, exhausted counters
    ctx.section("failing-transport", ctx.n(2500, 60_000), |c| {
        let (mut i, mut r) = match connected(c, "step in turn accepted") {
            Some(p) => p,
            None => return,
        };
        let mut log: Vec<u8> = Vec::new();
        for _ in 0..24 {
            let on_i = c.rng.bool();
            let (me, peer) = if on_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let op = c.rng.below(12);
            log.push(op as u8 * 2 + on_i as u8);
            let n = 16 + c.rng.below(60);
            match op {
                0..=3 => drop(me.send(&vec![op as u8; n])),
                4..=6 => {
                    if let Some(b) = peer.send(&vec![7; n]) {
                        me.recv(&b);
                    }
                }
                7 if c.rng.bool() => drop(me.recv(&c.rng.bytes(n))),
                8 => drop(me.send(&vec![0; *c.rng.pick(&[0usize, 15, 65536, 70_000])])),
                9 => drop(me.recv(&vec![0; *c.rng.pick(&[0usize, 15, 65536, 70_000])])),
                7 if c.rng.bool() => me.s.set_ephemeral_keypair(keypair(&gen_priv(&mut c.rng))),
                10 if c.rng.chance(1, 3) => match c.rng.bool() {
                    true => me.s.clear_local_cipherstate(),
                    false => me.s.clear_remote_cipherstate(),
                },
                11 if c.rng.chance(1, 3) => {
                    #[cfg(vp_hooks)]
                    {
                        let v = [u64::MAX, u64::MAX - 1, u64::MAX - 2];
                        me.s.vp_set_counters(*c.rng.pick(&v), *c.rng.pick(&v));
                    }
                }
                _ => {}
            }
            c.obs("calls that may fail in transport mode", 1);
            status(c, &i);
            status(c, &r);
            if c.failed() {
                return;
            }
        }
        c.eval(hash(&[b"ft", &log]));
    });
    ctx.section("very-long-count", if ctx.tiny() { 0 } else { ctx.n(2, 3).min(24) }, |c| {
        let (mut i, mut r) = match connected(c, "step in turn accepted") {
            Some(p) => p,
            None => return,
        };
        // all in one direction, or all sent and none delivered, or both ways
        let mode = c.idx % 3;
        for k in 0..if c.thorough() { 1_200_000u32 } else { 66_000 } {
            let (f, t) = if mode == 2 && k % 2 == 1 { (&mut i, &mut r) } else { (&mut r, &mut i) };
            let sent = f.send(&k.to_le_bytes().repeat(5));
            c.check("step in turn accepted", sent.is_some(), || format!("sending message {k} in transport mode is refused"));
            if let (Some(b), true) = (sent, mode != 1) {
                let got = t.recv(&b).is_some();
                c.check("step in turn accepted", got, || format!("receiving message {k} in transport mode is refused"));
            }
            status(c, &i);
            status(c, &r);
            c.eval_enum(1);
            if c.failed() {
                return;
            }
        }
    });
    ctx.require(&[
        "transport mode exactly after the handshake",
        "hash and key reported exactly in transport mode",
        "message count",
        "step in turn accepted",
        "step out of turn or invalid rejected",
        "transport works afterwards",
        "sequences that completed",
    ]);
}

// ---------------------------------------------------------------- C16

/// Two twins after a handshake with each other.
fn twin_pair(c: &mut Case) -> Option<(Twin, Twin)> {
    let pro = gen_prologue(&mut c.rng);
    let mut i = Twin::new(true, &pro, gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let mut r = Twin::new(false, &pro, gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let a = i.send(c, &c.rng.clone().bytes(50))?;
    r.recv(c, &a)?;
    let b = r.send(c, &c.rng.clone().bytes(100))?;
    i.recv(c, &b)?;
    Some((i, r))
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("an input is a sequence of sends, deliveries, rekeyings and clearings of either direction on either side of a connection, in lockstep with the reference. Distinct by call sequence and keys.");
    if !reference_ok(ctx) {
        return;
    }
    ctx.section("sequences", ctx.n(2500, 80_000), |c| {
        let (mut i, mut r) = match twin_pair(c) {
            Some(p) => p,
            None => {
                if !c.failed() {
                    c.fail("handshake for the workload", "no connection".into());
                }
                return;
            }
        };
        let mut log = Vec::new();
        // messages in flight per direction
        let mut fly: [Vec<Vec<u8>>; 2] = [Vec::new(), Vec::new()];
        let clearing = c.rng.chance(1, 3);
        let steps = if c.ctx.tiny() { 25 } else { 40 + c.rng.below(60) };
        for _ in 0..steps {
            let on_i = c.rng.bool();
            let op = c.rng.below(20);
            log.push(op as u8 * 2 + on_i as u8);
            let me = if on_i { &mut i } else { &mut r };
            match op {
                0..=6 => {
                    let n = 16 + c.rng.below(60);
                    let m = c.rng.bytes(n);
                    if let Some(b) = me.send(c, &m) {
                        fly[on_i as usize].push(b);
                    }
                }
                7..=14 => {
                    let q = &mut fly[!on_i as usize];
                    if !q.is_empty() {
                        let b = if c.rng.chance(1, 8) { q[q.len() - 1].clone() } else { q.remove(0) };
                        me.recv(c, &b);
                    }
                }
                15 | 16 => {
                    let cs = 1 + c.rng.below(2);
                    me.rekey(cs);
                    c.obs("one side rekeyed", 1);
                }
                17 => {
                    // both sides rekey one direction: messages in flight are delivered first
                    let cs = 1 + c.rng.below(2);
                    for d in 0..2 {
                        for b in std::mem::take(&mut fly[d]) {
                            let to = if d == 1 { &mut r } else { &mut i };
                            to.recv(c, &b);
                        }
                    }
                    i.rekey(cs);
                    r.rekey(cs);
                    c.obs("both sides rekeyed", 1);
                }
                18 if clearing => {
                    let cs = 1 + c.rng.below(2);
                    me.clear(cs);
                    c.obs("direction cleared", 1);
                }
                _ => {}
            }
            if c.failed() {
                c.sample(|| format!("failing calls {log:?}"));
                return;
            }
        }
        c.eval(hash(&[&log, &i.r.s]));
        c.sample(|| format!("calls {log:?}"));
    });
    // rekeyings of directions that have been in use for long, or were rekeyed often
    ctx.section("used-directions", if ctx.tiny() { 2 } else { ctx.n(160, 2000) }, |c| {
        let (mut i, mut r) = match twin_pair(c) {
            Some(p) => p,
            None => return,
        };
        let talk = |c: &mut Case, i: &mut Twin, r: &mut Twin, to_r: bool, m: &[u8]| {
            let (f, t) = if to_r { (i, r) } else { (r, i) };
            if let Some(b) = f.send(c, m) {
                t.recv(c, &b);
            }
            !c.failed()
        };
        // messages before: up to a few thousand, or (with the hook) any count
        let (much, little) = match c.idx % 4 {
            _ if c.ctx.tiny() => (20, 3),
            0 => (1 << (4 + c.idx / 4 % 9), 3),
            1 => (c.rng.below(600), c.rng.below(600)),
            _ => (2, 2),
        };
        let far1 = c.rng.bool();
        let (n1, n2) = if far1 { (much, little) } else { (little, much) };
        for k in 0..n1.max(n2) {
            let m = [k as u8; 20];
            if (k < n1 && !talk(c, &mut i, &mut r, true, &m)) || (k < n2 && !talk(c, &mut i, &mut r, false, &m)) {
                return;
            }
        }
        #[cfg(vp_hooks)]
        if c.idx % 4 > 1 {
            let at = match c.idx / 4 % 64 {
                k @ 0..=61 => (1u64 << (k + 2)) - c.rng.below(4) as u64,
                62 => 300 + c.rng.below(100_000) as u64,
                _ => c.rng.u64() >> 1,
            };
            let other = if c.rng.bool() { at } else { c.rng.below(1000) as u64 };
            let (c1, c2) = if far1 { (at, other) } else { (other, at) };
            for t in [&mut i, &mut r] {
                t.s.vp_set_counters(c1, c2);
                t.r.cs1.n = c1;
                t.r.cs2.n = c2;
            }
        }
        let rounds = match c.idx % 8 {
            _ if c.ctx.tiny() => 3,
            7 => 300,
            _ => 1 + c.rng.below(4),
        };
        for k in 0..rounds {
            let both = c.rng.below(3);
            for cs in 1..=2 {
                if both == 0 || both == cs {
                    i.rekey(cs);
                    r.rekey(cs);
                }
            }
            c.obs("both sides rekeyed", 1);
            c.eval(hash(&[b"used", &(much as u64).to_le_bytes(), &i.r.s, &[k as u8, (k >> 8) as u8, both as u8]]));
            for _ in 0..1 + c.rng.below(3) {
                let n = 16 + c.rng.below(40);
                let (a, b) = (c.rng.bytes(n), c.rng.bytes(40));
                if !talk(c, &mut i, &mut r, true, &a) || !talk(c, &mut i, &mut r, false, &b) {
                    return;
                }
            }
        }
        // one side alone
        if c.rng.bool() {
            let cs = 1 + c.rng.below(2);
            let on_i = c.rng.bool();
            let me = if on_i { &mut i } else { &mut r };
            me.rekey(cs);
            c.obs("one side rekeyed", 1);
            for to_r in [true, false, true, false] {
                if !talk(c, &mut i, &mut r, to_r, &[7u8; 33]) {
                    return;
                }
            }
        }
    });
    // directed: the four statements of the property on real sessions
    ctx.section("directed", ctx.n(2000, 40_000), |c| {
        let (mut i, mut r) = match connected(c, "handshake for the workload") {
            Some(p) => p,
            None => return,
        };
        fn talk(c: &mut Case, f: &mut Side, t: &mut Side) -> bool {
            let m = c.rng.bytes(40);
            match f.send(&m) {
                Some(b) => t.recv(&b).map(|x| x[..24] == m[..24]).unwrap_or(false),
                None => false,
            }
        }
        let pre = c.rng.below(5);
        for _ in 0..pre {
            let _ = talk(c, &mut i, &mut r) && talk(c, &mut r, &mut i);
        }
        let local = c.rng.bool(); // cs1: initiator to responder
        let rekey = |s: &mut Side, local: bool| if local { s.s.rekey_local_cipherstate() } else { s.s.rekey_remote_cipherstate() };
        let clear = |s: &mut Side, local: bool| if local { s.s.clear_local_cipherstate() } else { s.s.clear_remote_cipherstate() };
        c.eval(hash(&[&[c.idx as u8 & 7, local as u8, pre as u8], &i.stat]));
        match c.idx % 4 {
            0 => {
                for round in 0..1 + c.rng.below(4) {
                    rekey(&mut i, local);
                    rekey(&mut r, local);
                    let a = talk(c, &mut i, &mut r);
                    let b = talk(c, &mut r, &mut i);
                    c.check("both rekeyed: communication continues", a && b, || {
                        format!("after both sides rekeyed {} (round {round}) the directions work: {a} {b}", if local { "local" } else { "remote" })
                    });
                }
            }
            1 => {
                let on_i = c.rng.bool();
                rekey(if on_i { &mut i } else { &mut r }, local);
                let a = talk(c, &mut i, &mut r);
                let b = talk(c, &mut r, &mut i);
                let (broken, fine) = if local { (a, b) } else { (b, a) };
                c.check("one rekeyed: that direction is rejected", !broken, || format!("only one side rekeyed (local {local}), yet its messages are accepted"));
                c.check("the other direction is unaffected", fine, || format!("rekeying one direction (local {local}) broke the other"));
            }
            _ => {
                let on_i = c.rng.bool();
                let again = c.rng.below(4);
                {
                    let me = if on_i { &mut i } else { &mut r };
                    clear(me, local);
                    // rekeying a cleared direction does not bring it back
                    for _ in 0..again {
                        rekey(me, local);
                    }
                }
                let sends = on_i == local;
                for _ in 0..3 {
                    if sends {
                        let me = if on_i { &mut i } else { &mut r };
                        let n = 16 + c.rng.below(50);
                        let got = me.s.send_message(&mut c.rng.bytes(n)).is_ok();
                        c.check("cleared direction is dead", !got, || format!("a side sends in a direction it cleared (rekeyed {again} times after)"));
                    } else {
                        let (me, peer) = if on_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
                        let genuine = peer.send(&c.rng.bytes(40)).unwrap_or_default();
                        let mut x = if c.rng.bool() { genuine } else { c.rng.bytes(40) };
                        let got = me.s.recv_message(&mut x).is_ok();
                        c.check("cleared direction is dead", !got, || format!("a side receives in a direction it cleared (rekeyed {again} times after)"));
                        // sealed under the zero key, and under its rekeyed successors
                        let mut k = crate::refnoise::Cipher { k: Some([0; 32]), n: 0 };
                        for _ in 0..=again {
                            for n in 0..6 {
                                let mut z = vec![5u8; 30];
                                k.n = n;
                                let _ = k.seal(&[], &mut z);
                                let got = me.s.recv_message(&mut z).is_ok();
                                c.check("cleared direction is dead", !got, || format!("a side accepts a message under a publicly known key after clearing (rekeyed {again} times after, counter {n})"));
                            }
                            k.rekey();
                        }
                    }
                }
                let fine = if local { talk(c, &mut r, &mut i) } else { talk(c, &mut i, &mut r) };
                c.check("the other direction is unaffected", fine, || format!("clearing one direction (local {local}) broke the other"));
            }
        }
    });
    ctx.require(&[
        "sent bytes equal the reference",
        "one side rekeyed",
        "both sides rekeyed",
        "direction cleared",
        "both rekeyed: communication continues",
        "one rekeyed: that direction is rejected",
        "the other direction is unaffected",
        "cleared direction is dead",
    ]);
}

// ---------------------------------------------------------------- C17

pub fn c17(ctx: &Ctx) {
    ctx.rule("an input is one call in a long session: sends and receives, some of them failing, in lockstep with a reference that seals message n with counter n-1; all ciphertexts of equal plaintexts must differ. Distinct by session and message number.");
    if !reference_ok(ctx) {
        return;
    }
    ctx.section("interleaved", ctx.n(500, 12_000), |c| {
        let (mut i, mut r) = match twin_pair(c) {
            Some(p) => p,
            None => return,
        };
        let mut seen = [std::collections::HashSet::new(), std::collections::HashSet::new()];
        for k in 0..if c.ctx.tiny() { 12 } else { 150 } {
            let on_i = c.rng.bool();
            let (me, peer) = if on_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
            // failing calls first
            match c.rng.below(6) {
                0 => {
                    me.send(c, &[0; 15]);
                }
                1 => {
                    let n = 65536;
                    me.send(c, &vec![0; n]);
                }
                2 => {
                    let n = c.rng.below(64);
                    let b = c.rng.bytes(n);
                    me.recv(c, &b);
                }
                3 => me.rekey(if c.rng.bool() { 1 } else { 2 }),
                _ => {}
            }
            // equal plaintexts: equal ciphertexts betray a repeated key and counter
            // (an empty message is its tag alone)
            let n = match c.rng.below(4) {
                0 => 16,
                1 => 17,
                2 => 16 + c.rng.below(200),
                _ => 48,
            };
            if let Some(b) = me.send(c, &vec![0u8; n]) {
                c.check("no two ciphertexts of a direction are equal", seen[on_i as usize].insert(b.clone()), || {
                    format!("{} produced the same ciphertext twice for equal plaintexts (message {k})", me.name)
                });
                c.obs("message sealed with counter n-1", 1);
                if c.rng.chance(5, 6) {
                    peer.recv(c, &b);
                }
            }
            c.eval_enum(1);
            if c.failed() {
                return;
            }
        }
    });
    ctx.section("long", if ctx.tiny() { 0 } else { ctx.n(4, 16) }, |c| {
        let (mut i, mut r) = match twin_pair(c) {
            Some(p) => p,
            None => return,
        };
        let to_r = c.idx % 2 == 0;
        let (f, t) = if to_r { (&mut i, &mut r) } else { (&mut r, &mut i) };
        let total: u64 = if c.thorough() { 700_000 } else { 70_000 };
        let mut seen = std::collections::HashSet::new();
        for k in 0..total {
            match f.send(c, if k % 7 == 3 { &[0u8; 16] } else { &[0u8; 24] }) {
                Some(b) => {
                    if !c.check("no two ciphertexts of a direction are equal", seen.insert(b.clone()), || format!("message {k} repeats an earlier ciphertext")) {
                        return;
                    }
                    c.obs("message sealed with counter n-1", 1);
                    t.recv(c, &b);
                }
                None => {
                    if !c.failed() {
                        c.fail("message sealed with counter n-1", format!("sending message {k} is refused"));
                    }
                    return;
                }
            }
            if c.failed() {
                return;
            }
            c.eval_enum(1);
        }
        c.sample(|| format!("{total} messages in one direction"));
    });
    #[cfg(vp_hooks)]
    {
        let points: Vec<u64> = {
            let mut v = vec![];
            for p in [1u64 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 48, 1 << 52, 1 << 53, 1 << 56, 1 << 62, 1 << 63] {
                v.push(p - 3);
            }
            for d in 0..7 {
                v.push(u64::MAX - d);
            }
            v
        };
        let np = points.len() as u64;
        ctx.section("far-counters", np * 4 * ctx.n(3, 40), |c| {
            let (mut i, mut r) = match twin_pair(c) {
                Some(p) => p,
                None => return,
            };
            let base = points[(c.idx % np) as usize];
            let base = if c.idx >= np * 4 && base < u64::MAX - 8 { base + 3 - c.rng.below(7) as u64 } else { base };
            let far1 = c.idx / np % 2 == 0;
            let (c1, c2) = if far1 { (base, c.rng.below(5) as u64) } else { (c.rng.below(5) as u64, base) };
            for t in [&mut i, &mut r] {
                t.s.vp_set_counters(c1, c2);
                t.r.cs1.n = c1;
                t.r.cs2.n = c2;
            }
            let mut seen = std::collections::HashSet::new();
            for k in 0..12u64 {
                let on_i = if k % 3 == 2 { !far1 } else { far1 };
                let (f, t) = if on_i { (&mut i, &mut r) } else { (&mut r, &mut i) };
                let n = f.r.send_cs().n;
                let sent = {
                    let name = f.name;
                    let fs = &mut *f;
                    // a panic on the counter is a violation as well
                    match crate::ctx::guard(|| fs.send(c, &[0u8; 30])) {
                        Ok(x) => x,
                        Err(_) => {
                            c.fail("exhausted counter refused", format!("{name} panics when sending with counter {n}"));
                            return;
                        }
                    }
                };
                c.eval(hash(&[&c1.to_le_bytes(), &c2.to_le_bytes(), &k.to_le_bytes()]));
                match sent {
                    Some(b) => {
                        c.check("no two ciphertexts of a direction are equal", seen.insert(b.clone()), || {
                            format!("counter {n}: a ciphertext of this direction repeats")
                        });
                        c.obs("message sealed with counter n-1", 1);
                        t.recv(c, &b);
                    }
                    None => {
                        c.check("exhausted counter refused", n == u64::MAX, || format!("sending with counter {n} is refused"));
                        // receiving is refused as well, whatever arrives
                        let mut z = vec![0u8; 30];
                        if let Some(k) = t.r.recv_cs().k {
                            let tag = crate::refcrypto::seal(&k, u64::MAX, &[], &mut z[..14]);
                            z[14..].copy_from_slice(&tag);
                        }
                        let got = t.s.recv_message(&mut z).is_ok();
                        c.check("exhausted counter refused", !got, || "a message sealed with the reserved counter is accepted".into());
                    }
                }
                if c.failed() {
                    return;
                }
            }
        });
        ctx.require(&["exhausted counter refused"]);
    }
    #[cfg(not(vp_hooks))]
    ctx.assume("built without the counter hook: counters beyond 700,000 were not reached");
    ctx.require(&["message sealed with counter n-1", "no two ciphertexts of a direction are equal", "sent bytes equal the reference"]);
}

// ---------------------------------------------------------------- C28

pub fn c28_noise(ctx: &Ctx) {
    use noiseexplorer_nx::types::{Key, Psk, PublicKey};
    use std::str::FromStr;
    ctx.section("noise", ctx.n(4000, 80_000), |c| {
        let (mut i, mut r) = new_pair(&mut c.rng, b"");
        let n = c.rng.below(140);
        let mut b = c.rng.bytes(n);
        if let Err(e) = i.s.send_message(&mut b.clone()) {
            inspect(c, "send_message", &e);
        }
        if let Err(e) = r.s.recv_message(&mut b) {
            inspect(c, "recv_message", &e);
        }
        if let Err(e) = r.s.recv_message(&mut b) {
            inspect(c, "recv_message", &e);
        }
        if let Err(e) = i.s.recv_message(&mut b) {
            inspect(c, "recv_message", &e);
        }
        if c.idx % 4 == 0 {
            if let Some((mut i, mut r)) = connected(c, "handshake for the workload") {
                if let Err(e) = i.s.recv_message(&mut c.rng.bytes(40)) {
                    inspect(c, "transport receive", &e);
                }
                r.s.clear_local_cipherstate();
                r.s.clear_remote_cipherstate();
                if let Err(e) = r.s.send_message(&mut [0; 40]) {
                    inspect(c, "cleared send", &e);
                }
                #[cfg(vp_hooks)]
                {
                    i.s.vp_set_counters(u64::MAX, u64::MAX);
                    if let Err(e) = i.s.send_message(&mut [0; 40]) {
                        inspect(c, "exhausted send", &e);
                    }
                }
            }
        }
        let t = {
            let base = hex(&c.rng.arr32());
            crate::model::near_text(&mut c.rng, &base)
        };
        if let Err(e) = Key::from_str(&t) {
            inspect(c, "Key", &e);
        }
        if let Err(e) = Psk::from_str(&t) {
            inspect(c, "Psk", &e);
        }
        if let Err(e) = PrivateKey::from_str(&t) {
            inspect(c, "PrivateKey", &e);
        }
        if let Err(e) = PublicKey::from_str(&t) {
            inspect(c, "PublicKey", &e);
        }
        let lo = low_order_encodings();
        if let Err(e) = PublicKey::from_bytes(lo[c.rng.below(lo.len())]) {
            inspect(c, "PublicKey", &e);
        }
        if let Err(e) = Keypair::from_private_key(PrivateKey::empty()) {
            inspect(c, "Keypair", &e);
        }
        if let Err(e) = PrivateKey::empty().generate_public_key() {
            inspect(c, "generate_public_key", &e);
        }
        // the library's own error around it, as the encryptor returns it
        use stratumv2::network::{ConnectionEncryptor, Encryptor};
        let mut enc = if c.rng.bool() { ConnectionEncryptor::new_inbound(None) } else { ConnectionEncryptor::new_outbound() };
        let n = c.rng.below(120);
        if let Err(e) = enc.recv_handshake(&mut c.rng.bytes(n)) {
            inspect(c, "recv_handshake", &e);
        }
    });
}
