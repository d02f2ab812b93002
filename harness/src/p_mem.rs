//! C26: the memory workload. Run in an ordinary build (buffers end at inaccessible
//! pages), under AddressSanitizer (Rust and the native code), under Miri (with
//! stand-ins that touch exactly the bytes the native functions may touch) and, for
//! races, under ThreadSanitizer. The deciding step is the sanitizer, the hardware
//! trap or the interpreter; behavioural differences are other properties' business.

use crate::ctx::{guard, Case, Caught, Ctx, Tier};
use crate::model::{gen, hostile, mutate, Val};
use crate::p_noise::{gen_priv, gen_prologue, keypair};
use crate::subjects::subjects;
use crate::util::{hash, hex, hexs, Rng};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::str::FromStr;
use stratumv2::network::{ConnectionEncryptor, Encryptor};

/// A buffer whose end (or start) borders on an inaccessible page.
pub struct Fenced {
    base: *mut u8,
    map: usize,
    at: *mut u8,
    len: usize,
}
const PAGE: usize = 4096;
#[cfg(not(miri))]
impl Fenced {
    pub fn new(b: &[u8], at_end: bool) -> Fenced {
        let inner = (b.len() + PAGE - 1) / PAGE * PAGE;
        let map = inner + 2 * PAGE;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), map, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1, "mmap");
            if inner > 0 {
                assert!(libc::mprotect(base.add(PAGE) as _, inner, libc::PROT_READ | libc::PROT_WRITE) == 0, "mprotect");
            }
            let at = if at_end { base.add(PAGE + inner - b.len()) } else { base.add(PAGE) };
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            Fenced { base, map, at, len: b.len() }
        }
    }
}
#[cfg(not(miri))]
impl Drop for Fenced {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as _, self.map);
        }
    }
}
// the interpreter knows the exact bounds of every block
#[cfg(miri)]
impl Fenced {
    pub fn new(b: &[u8], _: bool) -> Fenced {
        let v = b.to_vec().into_boxed_slice();
        let len = v.len();
        let at = Box::into_raw(v) as *mut u8;
        Fenced { base: at, map: 0, at, len }
    }
}
#[cfg(miri)]
impl Drop for Fenced {
    fn drop(&mut self) {
        let _ = (self.base, self.map, PAGE);
        unsafe { drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(self.at, self.len))) }
    }
}
impl Fenced {
    pub fn get(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.at, self.len) }
    }
}

/// Runs subject code; panics are not this property's business.
fn quiet<T>(c: &Case, f: impl FnOnce() -> T) -> Option<T> {
    match guard(f) {
        Ok(v) => Some(v),
        Err(Caught::Subject(_)) => None,
        Err(Caught::Harness(s)) => {
            c.ctx.error(format!("{}: {s}", c.section));
            None
        }
    }
}

/// No invalid values: text is UTF-8.
fn valid_text(c: &mut Case, name: &str, v: &Val) {
    match v {
        Val::S(s) => {
            let b = std::hint::black_box(s.as_bytes());
            c.check("text is UTF-8", std::str::from_utf8(b).is_ok(), || format!("{name}: a string holds the invalid UTF-8 bytes {}", hex(b)));
        }
        Val::M(f) => {
            for x in f {
                valid_text(c, name, x);
            }
        }
        Val::Setup(_, x) => valid_text(c, name, x),
        _ => {}
    }
}

fn lens(r: &mut Rng, tiny: bool) -> usize {
    if tiny {
        return [0, 1, 15, 16, 17, 31, 32, 47, 48, 49, 80, 95, 96, 97, 112, 128][r.below(16)];
    }
    match r.below(12) {
        0 => 65535 - r.below(20),
        1 => 65536 + r.below(20),
        2 => 4096 + r.below(3) - 1,
        _ => r.below(260),
    }
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("an input is a call into the library with buffers that end or start exactly at an inaccessible page (under Miri: at the exact bounds of their block): hostile and valid bytes for every decoder, handshake and transport messages of all lengths in all states, keys, certificates, queues; plus a reduced run of every other property's workload. Distinct by operation and bytes.");
    let tiny = ctx.tiny();
    let subs = subjects();
    ctx.section("decode", if cfg!(miri) { ctx.k(subs.len() as u64) } else { ctx.n(40_000, 1_500_000) }, |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let mut b = match c.rng.below(3) {
            0 => hostile(&mut c.rng, &s.kind),
            1 => {
                let v = gen(&mut c.rng, &s.kind);
                crate::model::enc(&s.kind, &v)
            }
            _ => {
                let n = c.rng.below(80);
                c.rng.bytes(n)
            }
        };
        if c.rng.bool() {
            mutate(&mut c.rng, &mut b);
        }
        if tiny || c.rng.bool() {
            b.truncate(1500);
        }
        c.eval(hash(&[s.name.as_bytes(), &b]));
        c.sample(|| format!("{} from {}", s.name, hexs(&b)));
        let end = c.rng.bool();
        let mut f = Fenced::new(&b, end);
        let at = if c.rng.chance(1, 8) { c.rng.below(b.len() + 3) } else { 0 };
        if let Some(Ok((v, _))) = quiet(c, || (s.decode_at)(f.get(), at)) {
            c.obs("decoded values", 1);
            valid_text(c, s.name, &v);
            let shown = format!("{v:?}");
            c.obs("bytes of decoded values read", shown.len() as u64);
            let mut out = Vec::new();
            quiet(c, || (s.encode_to)(&v, &mut out).is_ok());
            let mut g = Fenced::new(&out, end);
            quiet(c, || (s.decode_at)(g.get(), 0).is_ok());
        } else {
            c.obs("rejected inputs", 1);
        }
        quiet(c, || (s.reencode)(f.get()).is_ok());
        if let Some(u) = s.unframe {
            let m = stratumv2::codec::Message::new(crate::subjects::MT_V[s.ftype.unwrap()], b.clone());
            if let Some(Ok(v)) = quiet(c, || u(&m)) {
                valid_text(c, s.name, &v);
            }
        }
    });
    // steps up to, to and over the end of buffers of every length
    ctx.section("parser-ends", if cfg!(miri) { ctx.k(20) } else { ctx.n(4600, 20_000).min(70_000) }, |c| {
        let n = if cfg!(miri) { *c.rng.pick(&[0usize, 1, 7, 8, 255, 256, 511, 512, 1023]) } else { c.idx as usize };
        let b = vec![c.idx as u8; n];
        let mut f = Fenced::new(&b, true);
        // a block of exactly this size, for the address sanitizer
        let exact = b.into_boxed_slice();
        let mut sum = 0u64;
        for s in [f.get() as &[u8], &exact] {
            for (start, step) in [(n, 0), (n, 1), (n, 2), (n, 4), (n, 32), (n.saturating_sub(1), 1), (n.saturating_sub(1), 2), (n.saturating_sub(3), 4), (0, n), (0, n + 1), (n + 1, 0), (n + 1, 1), (n / 2, n), (n, usize::MAX), (1, usize::MAX)] {
                if let Some(Ok(x)) = quiet(c, || stratumv2::codec::ByteParser::new(s, start).next_by(step).map(|x| x.to_vec())) {
                    sum += x.iter().map(|b| *b as u64).sum::<u64>() + 1;
                }
            }
            // and two steps that end together
            let a = n.saturating_sub(1 + c.rng.below(9));
            let mut p = stratumv2::codec::ByteParser::new(s, 0);
            if let Some(x) = quiet(c, || p.next_by(a).is_ok() as usize + p.next_by(n - a).is_ok() as usize + p.next_by(1).is_ok() as usize) {
                sum += x as u64;
            }
        }
        c.eval(hash(&[b"ends", &n.to_le_bytes()]));
        c.obs("parser steps at the end of a buffer", std::hint::black_box(sum).min(1) + 32);
    });
    // sessions in every state, buffers of every length
    ctx.section("sessions", if cfg!(miri) { ctx.k(6) } else { ctx.n(4000, 120_000) }, |c| {
        let pro = gen_prologue(&mut c.rng);
        let mut fp = Fenced::new(&pro, true);
        let (k1, k2) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let mut i = NoiseSession::init_session(true, fp.get(), keypair(&k1));
        let mut r = NoiseSession::init_session(false, fp.get(), keypair(&k2));
        let stage = c.rng.below(4);
        let mut wire = Vec::new();
        if stage >= 1 {
            let mut a = c.rng.bytes(64);
            quiet(c, || i.send_message(&mut a).is_ok());
            wire = a.clone();
            if stage >= 2 {
                quiet(c, || r.recv_message(&mut a).is_ok());
                let mut b = c.rng.bytes(100);
                quiet(c, || r.send_message(&mut b).is_ok());
                wire = b.clone();
                if stage >= 3 {
                    quiet(c, || i.recv_message(&mut b).is_ok());
                }
            }
        }
        let n = if cfg!(miri) { 4 } else { 12 };
        for _ in 0..n {
            let mut b = match c.rng.below(4) {
                0 => wire.clone(),
                1 => {
                    let mut w = wire.clone();
                    mutate(&mut c.rng, &mut w);
                    w
                }
                _ => {
                    let l = lens(&mut c.rng, tiny);
                    c.rng.bytes(l)
                }
            };
            if tiny {
                b.truncate(200);
            }
            let op = c.rng.below(10);
            c.eval(hash(&[&[op as u8, stage as u8], &b]));
            let end = c.rng.bool();
            let mut f = Fenced::new(&b, end);
            let s = if c.rng.bool() { &mut i } else { &mut r };
            let ok = quiet(c, || match op {
                0..=4 => s.recv_message(f.get()).is_ok(),
                5..=8 => s.send_message(f.get()).is_ok(),
                _ => {
                    s.rekey_local_cipherstate();
                    s.rekey_remote_cipherstate();
                    s.get_handshake_hash().is_some() || s.get_remote_static_public_key().is_some()
                }
            });
            c.obs("session calls on fenced buffers", 1);
            if ok == Some(true) && op >= 5 {
                wire = f.get().to_vec();
            }
        }
        // a conforming exchange on fenced buffers
        if stage == 3 {
            let l = 16 + lens(&mut c.rng, tiny).min(65000);
            let m = c.rng.bytes(l);
            let mut f = Fenced::new(&m, c.idx % 2 == 0);
            let ok = quiet(c, || i.send_message(f.get()).is_ok() && r.recv_message(f.get()).is_ok());
            if ok == Some(true) {
                c.obs("transport messages on fenced buffers", 1);
            }
        }
    });
    ctx.section("connections", if cfg!(miri) { ctx.k(3) } else { ctx.n(2000, 60_000) }, |c| {
        let mut o = ConnectionEncryptor::new_outbound();
        let mut n = ConnectionEncryptor::new_inbound(if c.rng.bool() { Some(Keypair::default()) } else { None });
        let a = quiet(c, || o.init_handshake().unwrap_or_default()).unwrap_or_default();
        let mut a = if c.rng.chance(1, 3) {
            let l = lens(&mut c.rng, tiny);
            c.rng.bytes(l)
        } else {
            a
        };
        if c.rng.chance(1, 4) {
            mutate(&mut c.rng, &mut a);
        }
        c.eval(hash(&[b"conn", &a]));
        let mut f = Fenced::new(&a, true);
        let b = quiet(c, || n.recv_handshake(f.get()).unwrap_or_default()).unwrap_or_default();
        let mut g = Fenced::new(&b, true);
        quiet(c, || o.recv_handshake(g.get()).is_ok());
        quiet(c, || o.get_remote_pubkey().is_some() || n.get_remote_pubkey().is_some());
        c.obs("connection calls on fenced buffers", 2);
    });
    ctx.section("keys", if cfg!(miri) { ctx.k(4) } else { ctx.n(4000, 100_000) }, |c| {
        let k = gen_priv(&mut c.rng);
        let t = crate::model::near_text(&mut c.rng, &hex(&k));
        c.eval(hash(&[b"keys", t.as_bytes()]));
        let mut f = Fenced::new(t.as_bytes(), true);
        if let Ok(s) = std::str::from_utf8(f.get()) {
            quiet(c, || (Key::from_str(s).is_ok(), Psk::from_str(s).is_ok(), PrivateKey::from_str(s).is_ok(), PublicKey::from_str(s).is_ok()));
        }
        quiet(c, || {
            let mut kp = Keypair::from_private_key(PrivateKey::from_bytes(k)).unwrap_or_else(|_| Keypair::new_empty());
            let e = kp.is_empty();
            kp.clear();
            e
        });
        c.obs("key calls", 1);
    });
    if !cfg!(miri) {
        ctx.section("certificates", ctx.n(600, 20_000), |c| {
            let x = crate::p_cert::issue(&mut c.rng);
            let t = crate::model::near_text(&mut c.rng, &x.text);
            c.eval(hash(&[b"cert", t.as_bytes()]));
            quiet(c, || stratumv2::noise::CertificateFormat::new(&t, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok());
            quiet(c, || stratumv2::noise::CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok());
            c.obs("certificate calls", 1);
        });
    }
    // reduced runs of the other workloads; their verdicts are not used here
    let others: Vec<(&str, fn(&Ctx))> = all();
    for (name, f) in others.into_iter().filter(|o| o.0 != "C35") {
        if ctx.only.is_some() || ctx.stopped() {
            break;
        }
        if cfg!(miri) {
            break;
        }
        let t = match ctx.tier {
            Tier::Thorough => Tier::Quick,
            _ => Tier::Tiny,
        };
        let left = ctx.deadline.saturating_sub(ctx.start.elapsed()).as_secs();
        let sub = Ctx::new(name, t, ctx.seed, ctx.threads, left);
        f(&sub);
        let (e, d) = sub.totals();
        ctx.add_totals(e, d);
        ctx.count(&format!("operations of the {name} workload"), e);
    }
    ctx.require(&["decoded values", "rejected inputs", "text is UTF-8", "session calls on fenced buffers", "connection calls on fenced buffers", "key calls"]);
}

pub fn all() -> Vec<(&'static str, fn(&Ctx))> {
    vec![
        ("C01", crate::p_codec::c01),
        ("C02", crate::p_codec::c02),
        ("C03", crate::p_codec::c03),
        ("C04", crate::p_codec::c04),
        ("C05", crate::p_codec::c05),
        ("C06", crate::p_codec::c06),
        ("C07", crate::p_codec::c07),
        ("C08", crate::p_codec::c08),
        ("C09", crate::p_codec2::c09),
        ("C10", crate::p_codec::c10),
        ("C11", crate::p_noise::c11),
        ("C12", crate::p_noise::c12),
        ("C13", crate::p_noise::c13),
        ("C14", crate::p_noise::c14),
        ("C15", crate::p_noise::c15),
        ("C16", crate::p_noise::c16),
        ("C17", crate::p_noise::c17),
        ("C18", crate::p_keys::c18),
        ("C19", crate::p_keys::c19),
        ("C20", crate::p_keys::c20),
        ("C21", crate::p_cert::c21),
        ("C22", crate::p_cert::c22),
        ("C23", crate::p_cert::c23),
        ("C24", crate::p_peer::c24),
        ("C25", crate::p_peer::c25),
        ("C27", crate::p_codec2::c27),
        ("C28", crate::p_codec2::c28),
        ("C29", crate::p_keys::c29),
        ("C30", crate::p_forget::c30),
        ("C31", crate::p_world::c31),
        ("C32", crate::p_world::c32),
        ("C33", crate::p_world::c33),
        ("C34", crate::p_world::c34),
        ("C35", crate::p_work::c35),
        ("C36", crate::p_cage::c36),
    ]
}
