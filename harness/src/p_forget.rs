//! Monitor for C30: secrets that a session no longer needs are gone from its memory.

use crate::alloc;
use crate::ctx::{Case, Ctx};
use crate::p_noise::{gen_priv, gen_prologue, keypair, reference_ok};
use crate::refcrypto::x25519_base;
use crate::refnoise::RefSession;
use crate::util::{hash, hex};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::Keypair;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

/// The bytes of all blocks that hold the object under observation.
fn image() -> Vec<u8> {
    let mut v = vec![];
    for (p, n) in alloc::tracked() {
        for i in 0..n {
            // the block is allocated; its padding may hold anything
            v.push(unsafe { std::ptr::read_volatile((p as *const u8).add(i)) });
        }
        v.extend_from_slice(&[0; 64]);
    }
    v
}
/// Whether memory holds the secret; the clamped bits at both ends are ignored.
fn holds(mem: &[u8], k: &[u8; 32]) -> bool {
    mem.windows(30).any(|w| w == &k[1..31])
}

struct Watched {
    s: Box<NoiseSession>,
    r: RefSession,
    stat: [u8; 32],
    eph: [u8; 32],
    /// secrets that must not be found any more
    gone: Vec<(&'static str, [u8; 32])>,
}
impl Watched {
    fn scan(&mut self, c: &mut Case, when: &str) {
        let mem = image();
        c.eval(hash(&[&self.stat, &self.eph, when.as_bytes(), &(self.gone.len() as u64).to_le_bytes(), &self.r.mc.to_le_bytes()]));
        for (what, k) in &self.gone {
            c.check("spent secret is gone", !holds(&mem, k), || {
                format!("the {} still holds {what} {} {when}", if self.r.initiator { "initiator" } else { "responder" }, hex(k))
            });
        }
        for cs in [&self.r.cs1, &self.r.cs2] {
            if let Some(k) = cs.k {
                if holds(&mem, &k) {
                    c.obs("control: a key in use is found", 1);
                }
            }
        }
        c.obs("bytes scanned", mem.len() as u64);
    }
    fn finished(&mut self) {
        self.gone = self.r.spent.clone();
        self.gone.push(("its static private key", self.stat));
        self.gone.push(("its ephemeral private key", self.eph));
    }
}

fn make(c: &mut Case, initiator: bool, prologue: &[u8]) -> Watched {
    let (stat, eph) = (gen_random_priv(c), gen_random_priv(c));
    let generated = cfg!(vp_hooks) && c.rng.chance(1, 3);
    let (ks, ke) = (keypair(&stat), keypair(&eph));
    let s = alloc::track(|| {
        let mut s = Box::new(NoiseSession::init_session(initiator, prologue, ks));
        if !generated {
            s.set_ephemeral_keypair(ke);
        }
        s
    });
    Watched { s, r: RefSession::new(initiator, prologue, stat, eph), stat, eph, gone: vec![] }
}
/// A private key without the regularities that would be found by chance.
fn gen_random_priv(c: &mut Case) -> [u8; 32] {
    c.rng.bytes(32).try_into().unwrap()
}

#[cfg(vp_hooks)]
fn learn_ephemeral(w: &mut Watched) {
    w.eph = w.s.vp_ephemeral();
    w.r.e = w.eph;
}
#[cfg(not(vp_hooks))]
fn learn_ephemeral(_: &mut Watched) {}

fn one(c: &mut Case, initiator: bool) {
    alloc::untrack();
    let prologue = gen_prologue(&mut c.rng);
    let mut w = make(c, initiator, &prologue);
    let mut p = RefSession::new(!initiator, &prologue, gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let (n1, n2) = (48 + c.rng.below(200), 96 + c.rng.below(200));
    let (mut a, mut b) = (c.rng.bytes(n1), c.rng.bytes(n2));
    if holds(&image(), &w.stat) {
        c.obs("control: the static key is found before the handshake", 1);
    }
    let ok = if initiator {
        let pay = a.clone();
        let ok = alloc::track(|| w.s.send_message(&mut a)).is_ok();
        learn_ephemeral(&mut w);
        let mut aa = pay;
        let ok = ok && w.r.send(&mut aa).is_ok() && aa == a && p.recv(&mut a.clone()).is_ok() && p.send(&mut b).is_ok();
        // rejected replies in between change nothing about what must be forgotten
        if c.rng.chance(1, 3) {
            let n = c.rng.below(96);
            let mut x = c.rng.bytes(n);
            let _ = alloc::track(|| w.s.recv_message(&mut x));
        }
        ok && alloc::track(|| w.s.recv_message(&mut b.clone())).is_ok() && w.r.recv(&mut b.clone()).is_ok()
    } else {
        let ok = p.send(&mut a).is_ok() && alloc::track(|| w.s.recv_message(&mut a.clone())).is_ok() && w.r.recv(&mut a.clone()).is_ok();
        // the ephemeral is generated within the reply: only given ones are known
        let pay = b.clone();
        let ok = ok && alloc::track(|| w.s.send_message(&mut b)).is_ok();
        let mut bb = pay;
        let ok = ok && w.r.send(&mut bb).is_ok();
        if ok && bb != b {
            // a generated ephemeral: only the static private key is known to us
            w.r.spent.clear();
            w.finished();
            w.gone.retain(|g| g.0 == "its static private key");
            w.r.cs1 = crate::refnoise::Cipher { k: None, n: 0 };
            w.r.cs2 = crate::refnoise::Cipher { k: None, n: 0 };
            w.scan(c, "after completing the handshake");
            return;
        }
        ok && p.recv(&mut b.clone()).is_ok()
    };
    if !ok || !w.s.is_transport() {
        // judged by C11 and C15
        c.obs("handshake did not complete", 1);
        return;
    }
    w.finished();
    w.scan(c, "after completing the handshake");
    for _ in 0..c.rng.below(8) {
        match c.rng.below(6) {
            0 | 1 => {
                let n = 16 + c.rng.below(60);
                let mut m = c.rng.bytes(n);
                let _ = (alloc::track(|| w.s.send_message(&mut m.clone())), w.r.send(&mut m));
            }
            2 => {
                let n = 16 + c.rng.below(60);
                let mut m = c.rng.bytes(n);
                let _ = alloc::track(|| w.s.recv_message(&mut m));
            }
            3 | 4 => {
                let cs = 1 + c.rng.below(2);
                let old = if cs == 1 { w.r.cs1.k } else { w.r.cs2.k };
                alloc::track(|| if cs == 1 { w.s.rekey_local_cipherstate() } else { w.s.rekey_remote_cipherstate() });
                w.r.rekey(cs);
                if let Some(k) = old {
                    w.gone.push(("a key replaced by rekeying", k));
                }
                w.scan(c, "after rekeying");
            }
            _ => {
                let cs = 1 + c.rng.below(2);
                let old = if cs == 1 { w.r.cs1.k } else { w.r.cs2.k };
                alloc::track(|| if cs == 1 { w.s.clear_local_cipherstate() } else { w.s.clear_remote_cipherstate() });
                w.r.clear(cs);
                if let Some(k) = old {
                    w.gone.push(("the key of a cleared direction", k));
                }
                w.scan(c, "after clearing a direction");
            }
        }
    }
    w.scan(c, "after transport messages");
    c.sample(|| format!("initiator {initiator}: {} spent secrets looked for in {} bytes", w.gone.len(), image().len()));
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("an input is a session: keys, prologue, payloads, then sends, receives, rekeyings and clearings; after the handshake and after each rekeying or clearing the memory of the session (the object and every block it allocated) is searched for the secrets that the reference knows to be spent. Distinct by keys and history.");
    if cfg!(miri) || !reference_ok(ctx) {
        return;
    }
    ctx.section("sessions", ctx.n(6000, 150_000), |c| {
        // the thread's random generator keeps a buffer; it is not part of a session
        let _ = Keypair::default();
        let i = c.idx % 2 == 0;
        one(c, i);
        alloc::untrack();
    });
    ctx.section("connections", ctx.n(1500, 30_000), |c| {
        let _ = Keypair::default();
        alloc::untrack();
        let stat = gen_random_priv(c);
        let key = keypair(&stat);
        let mut i = alloc::track(|| Box::new(ConnectionEncryptor::new_inbound(Some(key))));
        let mut o = ConnectionEncryptor::new_outbound();
        if holds(&image(), &stat) {
            c.obs("control: the static key is found before the handshake", 1);
        }
        let done = o.init_handshake().ok().and_then(|mut a| alloc::track(|| i.recv_handshake(&mut a).map(|b| b.len())).ok()).is_some();
        c.eval(hash(&[&stat]));
        if done && i.is_handshake_complete() {
            let m = image();
            c.check("spent secret is gone", !holds(&m, &stat), || format!("an inbound connection still holds its static private key {} after the handshake", hex(&stat)));
        }
        alloc::untrack();
    });
    ctx.section("key-pairs", ctx.n(3000, 60_000), |c| {
        alloc::untrack();
        let k = gen_random_priv(c);
        let given = c.rng.bool();
        let mut p = if given {
            let kp = keypair(&k);
            alloc::track(|| Box::new(kp))
        } else {
            let kp = Keypair::default();
            alloc::track(|| Box::new(kp))
        };
        c.eval(hash(&[&k, &[given as u8]]));
        let public = p.get_public_key().as_bytes();
        p.clear();
        let m = image();
        c.check("a cleared key pair is empty", p.is_empty() && p.get_public_key().is_empty(), || format!("a key pair is not empty after being cleared (private {})", hex(&k)));
        c.check("spent secret is gone", !(given && holds(&m, &k)) && !holds(&m, &public), || {
            format!("a cleared key pair still holds its keys (private {}, public {})", hex(&k), hex(&x25519_base(&k)))
        });
        alloc::untrack();
    });
    ctx.require(&["spent secret is gone", "a cleared key pair is empty"]);
}
