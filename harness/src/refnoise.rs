//! A reference Noise_NX_25519_ChaChaPoly_BLAKE2s party, written from the Noise
//! specification on top of `refcrypto`. It serves as conforming peer, as twin
//! that predicts every byte, and (with `forge_reply`) as attacker.

use crate::refcrypto::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rej {
    Length,
    Turn,
    LowOrder,
    Auth,
    NoKey,
    Exhausted,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cipher {
    pub k: Option<[u8; 32]>,
    pub n: u64,
}
impl Cipher {
    fn none() -> Cipher {
        Cipher { k: None, n: 0 }
    }
    pub fn seal(&mut self, ad: &[u8], buf: &mut [u8]) -> Result<(), Rej> {
        let k = self.k.ok_or(Rej::NoKey)?;
        if self.n == u64::MAX {
            return Err(Rej::Exhausted);
        }
        let n = buf.len() - 16;
        let t = seal(&k, self.n, ad, &mut buf[..n]);
        buf[n..].copy_from_slice(&t);
        self.n += 1;
        Ok(())
    }
    pub fn open(&mut self, ad: &[u8], buf: &mut [u8]) -> Result<(), Rej> {
        let k = self.k.ok_or(Rej::NoKey)?;
        if self.n == u64::MAX {
            return Err(Rej::Exhausted);
        }
        let n = buf.len() - 16;
        let (d, t) = buf.split_at_mut(n);
        if !open(&k, self.n, ad, d, t) {
            return Err(Rej::Auth);
        }
        self.n += 1;
        Ok(())
    }
    pub fn rekey(&mut self) {
        if let Some(k) = self.k {
            let mut z = [0u8; 32];
            seal(&k, u64::MAX, &[], &mut z);
            self.k = Some(z);
        }
    }
}

#[derive(Clone)]
pub struct RefSession {
    pub initiator: bool,
    pub s: [u8; 32],
    pub e: [u8; 32],
    h: [u8; 32],
    ck: [u8; 32],
    hc: Cipher,
    re: [u8; 32],
    pub cs1: Cipher,
    pub cs2: Cipher,
    pub mc: u128,
    pub transport: bool,
    /// static key learned from the reply
    pub rs: Option<[u8; 32]>,
    /// sends public keys with the top bit set, which X25519 ignores
    pub top: bool,
    /// secrets that only the handshake needed
    pub spent: Vec<(&'static str, [u8; 32])>,
}

pub fn low_order(u: &[u8; 32]) -> bool {
    // scalars are multiples of 8, so any scalar sends the small subgroup to zero
    x25519(&[0x42; 32], u) == [0; 32]
}

impl RefSession {
    pub fn new(initiator: bool, prologue: &[u8], s: [u8; 32], e: [u8; 32]) -> RefSession {
        let h = blake2s(&[b"Noise_NX_25519_ChaChaPoly_BLAKE2s"]);
        let mut r = RefSession {
            initiator,
            s,
            e,
            h,
            ck: h,
            hc: Cipher::none(),
            re: [0; 32],
            cs1: Cipher::none(),
            cs2: Cipher::none(),
            mc: 0,
            transport: false,
            rs: None,
            top: false,
            spent: vec![],
        };
        r.mix_hash(prologue);
        r
    }
    fn public(&self, k: &[u8; 32]) -> [u8; 32] {
        let mut u = x25519_base(k);
        u[31] |= (self.top as u8) << 7;
        u
    }
    fn mix_hash(&mut self, d: &[u8]) {
        self.h = blake2s(&[&self.h, d]);
    }
    fn mix_key(&mut self, d: &[u8]) {
        let (ck, k) = hkdf2(&self.ck, d);
        self.ck = ck;
        if let Ok(d) = <[u8; 32]>::try_from(d) {
            self.spent.push(("a shared secret", d));
        }
        self.spent.push(("a chaining key", ck));
        self.spent.push(("a handshake cipher key", k));
        self.hc = Cipher { k: Some(k), n: 0 };
    }
    fn seal_hash(&mut self, buf: &mut [u8]) {
        let h = self.h;
        self.hc.seal(&h, buf).expect("handshake key");
        self.mix_hash(buf);
    }
    fn open_hash(&mut self, buf: &mut [u8]) -> Result<(), Rej> {
        let c = buf.to_vec();
        let h = self.h;
        self.hc.open(&h, buf)?;
        self.mix_hash(&c);
        Ok(())
    }
    fn split(&mut self) {
        let (a, b) = hkdf2(&self.ck, &[]);
        self.cs1 = Cipher { k: Some(a), n: 0 };
        self.cs2 = Cipher { k: Some(b), n: 0 };
        self.transport = true;
    }
    pub fn hash(&self) -> Option<[u8; 32]> {
        self.transport.then_some(self.h)
    }
    /// The counter that the next message sent / received would use.
    pub fn send_cs(&mut self) -> &mut Cipher {
        if self.initiator {
            &mut self.cs1
        } else {
            &mut self.cs2
        }
    }
    pub fn recv_cs(&mut self) -> &mut Cipher {
        if self.initiator {
            &mut self.cs2
        } else {
            &mut self.cs1
        }
    }

    /// A failing call leaves the session unchanged.
    pub fn send(&mut self, buf: &mut [u8]) -> Result<(), Rej> {
        if buf.len() < 16 || buf.len() > 65535 {
            return Err(Rej::Length);
        }
        if self.mc < 2 && self.initiator != (self.mc == 0) {
            return Err(Rej::Turn);
        }
        if self.mc == 0 {
            if buf.len() < 32 {
                return Err(Rej::Length);
            }
            buf[..32].copy_from_slice(&self.public(&self.e));
            let (e, p) = buf.split_at(32);
            self.mix_hash(e);
            self.mix_hash(p);
        } else if self.mc == 1 {
            if buf.len() < 96 {
                return Err(Rej::Length);
            }
            buf[..32].copy_from_slice(&self.public(&self.e));
            let (e, rest) = buf.split_at_mut(32);
            self.mix_hash(e);
            let dh = x25519(&self.e, &self.re);
            self.mix_key(&dh);
            let (s, p) = rest.split_at_mut(48);
            s[..32].copy_from_slice(&self.public(&self.s));
            self.seal_hash(s);
            let dh = x25519(&self.s, &self.re);
            self.mix_key(&dh);
            self.seal_hash(p);
            self.split();
        } else {
            self.send_cs().seal(&[], buf)?;
        }
        self.mc += 1;
        Ok(())
    }

    /// A failing call leaves the session unchanged; the buffer is then unspecified.
    pub fn recv(&mut self, buf: &mut [u8]) -> Result<(), Rej> {
        if buf.len() < 16 || buf.len() > 65535 {
            return Err(Rej::Length);
        }
        if self.mc < 2 && self.initiator == (self.mc == 0) {
            return Err(Rej::Turn);
        }
        if self.mc == 0 {
            if buf.len() < 48 {
                return Err(Rej::Length);
            }
            let re: [u8; 32] = buf[..32].try_into().unwrap();
            if low_order(&re) {
                return Err(Rej::LowOrder);
            }
            self.re = re;
            let (e, p) = buf.split_at(32);
            self.mix_hash(e);
            self.mix_hash(p);
        } else if self.mc == 1 {
            if buf.len() < 96 {
                return Err(Rej::Length);
            }
            let mut t = self.clone();
            t.read_reply(buf)?;
            *self = t;
        } else {
            self.recv_cs().open(&[], buf)?;
            let n = buf.len();
            buf[n - 16..].fill(0);
        }
        self.mc += 1;
        Ok(())
    }
    fn read_reply(&mut self, buf: &mut [u8]) -> Result<(), Rej> {
        let re: [u8; 32] = buf[..32].try_into().unwrap();
        if low_order(&re) {
            return Err(Rej::LowOrder);
        }
        self.re = re;
        let (e, rest) = buf.split_at_mut(32);
        self.mix_hash(e);
        let dh = x25519(&self.e, &re);
        self.mix_key(&dh);
        let (s, p) = rest.split_at_mut(48);
        self.open_hash(s)?;
        let rs: [u8; 32] = s[..32].try_into().unwrap();
        if low_order(&rs) {
            return Err(Rej::LowOrder);
        }
        let dh = x25519(&self.e, &rs);
        self.mix_key(&dh);
        self.open_hash(p)?;
        self.rs = Some(rs);
        self.split();
        Ok(())
    }

    pub fn rekey(&mut self, cs: usize) {
        if cs == 1 {
            self.cs1.rekey()
        } else {
            self.cs2.rekey()
        }
    }
    pub fn clear(&mut self, cs: usize) {
        *(if cs == 1 { &mut self.cs1 } else { &mut self.cs2 }) = Cipher::none();
    }
}

/// How an attacker who does not hold the claimed static key builds a reply.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Forge {
    /// claims this static public key; uses its own ephemeral honestly; the given
    /// value stands in for the unknown es secret
    Es([u8; 32]),
    /// does not mix es at all
    NoEs,
    /// es mixed where ee belongs and the other way round
    Swapped,
    /// static key sent in clear with a valid-looking zero tag
    PlainStatic,
    /// payload sent in clear
    PlainPayload,
    /// encrypts without binding the handshake hash (empty associated data)
    NoHashStatic,
    NoHashPayload,
    /// forgets to mix the ephemeral into the hash
    NoMixE,
    /// ee secret replaced
    Ee([u8; 32]),
    /// nonce 1 instead of 0
    NonceStatic,
    NoncePayload,
    /// forgets to mix the ciphertext of the static key into the hash
    NoMixS,
}

/// Builds a reply with a chosen deviation. `claimed` is the static public key in
/// the message, `s` the private key used for es (which may not match).
/// `e_pub` overrides the ephemeral public key sent.
pub fn forge_reply(
    prologue: &[u8],
    msg_a: &[u8],
    s: &[u8; 32],
    claimed: &[u8; 32],
    e: &[u8; 32],
    e_pub: Option<[u8; 32]>,
    payload: &[u8],
    how: Option<Forge>,
) -> Vec<u8> {
    let mut r = RefSession::new(false, prologue, *s, *e);
    let re: [u8; 32] = msg_a[..32].try_into().unwrap();
    r.mix_hash(&re);
    r.mix_hash(&msg_a[32..]);
    let epub = e_pub.unwrap_or_else(|| x25519_base(e));
    let mut out = epub.to_vec();
    if how != Some(Forge::NoMixE) {
        r.mix_hash(&epub);
    }
    let ee = if e_pub.is_some() { [0u8; 32] } else { x25519(e, &re) };
    let es = x25519(s, &re);
    match how {
        Some(Forge::Ee(x)) => r.mix_key(&x),
        Some(Forge::Swapped) => r.mix_key(&es),
        _ => r.mix_key(&ee),
    }
    let mut sbuf = claimed.to_vec();
    sbuf.extend_from_slice(&[0; 16]);
    let hs = r.h;
    match how {
        Some(Forge::PlainStatic) => {
            let x = sbuf.clone();
            r.mix_hash(&x);
        }
        Some(Forge::NoHashStatic) => {
            r.hc.seal(&[], &mut sbuf).unwrap();
            r.mix_hash(&sbuf);
        }
        Some(Forge::NonceStatic) => {
            r.hc.n = 1;
            r.seal_hash(&mut sbuf);
        }
        Some(Forge::NoMixS) => {
            r.seal_hash(&mut sbuf);
            r.h = hs;
        }
        _ => r.seal_hash(&mut sbuf),
    }
    out.extend_from_slice(&sbuf);
    match how {
        Some(Forge::Es(x)) => r.mix_key(&x),
        Some(Forge::NoEs) => {}
        Some(Forge::Swapped) => r.mix_key(&ee),
        _ => r.mix_key(&es),
    }
    let mut p = payload.to_vec();
    p.extend_from_slice(&[0; 16]);
    match how {
        Some(Forge::PlainPayload) => {}
        Some(Forge::NoHashPayload) => r.hc.seal(&[], &mut p).unwrap(),
        Some(Forge::NoncePayload) => {
            r.hc.n += 1;
            r.seal_hash(&mut p);
        }
        _ => r.seal_hash(&mut p),
    }
    out.extend_from_slice(&p);
    out
}

/// The Curve25519 encodings (32 bytes, top bit set or clear) of low order points.
pub fn low_order_encodings() -> Vec<[u8; 32]> {
    use crate::util::unhex32;
    let mut v = vec![
        [0u8; 32],
        unhex32("0100000000000000000000000000000000000000000000000000000000000000"),
        unhex32("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
        unhex32("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
        unhex32("ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        unhex32("edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
        unhex32("eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f"),
    ];
    for i in 0..7 {
        let mut t = v[i];
        t[31] |= 0x80;
        v.push(t);
    }
    v
}
