//! Monitors for certificates and timestamps: C21, C22, C23 and C28's share.

use crate::ctx::{Case, Ctx};
use crate::p_codec2::{auth_key, inspect};
use crate::p_noise::{gen_priv, keypair};
use crate::refcrypto::x25519_base;
use crate::util::{base58, hash, hex, hexs, Rng};
use crate::vclock;
use ed25519_dalek::{Signer, Verifier};
use std::time::{Duration, SystemTime, UNIX_EPOCH};
use stratumv2::codec::{deserialize, serialize, Serializable};
use stratumv2::noise::{
    new_noise_initiator, new_noise_responder, AuthorityKeyPair, CertificateFormat, SignatureNoiseMessage, SignedCertificate, StaticPublicKey,
};
use stratumv2::types::unix_timestamp::{system_unix_time_to_u32, unix_u32_now};

/// The signed bytes, as the specification lays them out.
pub fn cert_bytes(version: u16, from: u32, to: u32, pk: &[u8; 32]) -> Vec<u8> {
    let mut b = Vec::with_capacity(42);
    b.extend_from_slice(&version.to_le_bytes());
    b.extend_from_slice(&from.to_le_bytes());
    b.extend_from_slice(&to.to_le_bytes());
    b.extend_from_slice(pk);
    b
}

fn unbase58(s: &str) -> Option<Vec<u8>> {
    const A: &str = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    let mut out: Vec<u8> = Vec::new();
    for ch in s.chars() {
        let mut carry = A.find(ch)? as u32;
        for x in out.iter_mut() {
            carry += *x as u32 * 58;
            *x = carry as u8;
            carry >>= 8;
        }
        while carry > 0 {
            out.push(carry as u8);
            carry >>= 8;
        }
    }
    let zeros = s.chars().take_while(|c| *c == '1').count();
    out.extend(std::iter::repeat(0).take(zeros));
    out.reverse();
    Some(out)
}

pub struct Issued {
    pub kp: AuthorityKeyPair,
    pub text: String,
    pub pk: StaticPublicKey,
    pub msg: SignatureNoiseMessage,
}

fn gen_period(r: &mut Rng) -> (u32, u32) {
    loop {
        let a = match r.below(6) {
            0 => 0,
            1 => u32::MAX - r.below(5) as u32,
            2 => 1_600_000_000 + r.below(200_000_000) as u32,
            3 => (1 << 31) - 2 + r.below(5) as u32,
            4 => 1 << r.below(32),
            _ => r.u32(),
        };
        let d = match r.below(5) {
            0 => 1,
            1 => 2,
            2 => r.below(1000) as u32 + 1,
            _ => r.u32() / 2,
        };
        let b = a.saturating_add(d);
        if a < b {
            return (a, b);
        }
    }
}

/// A certificate message signed by the harness itself.
pub fn issue(r: &mut Rng) -> Issued {
    let kp = auth_key(&r.arr32());
    let pk = StaticPublicKey::from_bytes(x25519_base(&r.arr32())).expect("public key");
    let (from, to) = gen_period(r);
    let version = if r.bool() { r.below(3) as u16 } else { r.u32() as u16 };
    let signature = kp.sign(&cert_bytes(version, from, to, &pk.as_bytes()));
    let text = base58(&kp.public.to_bytes());
    let msg = SignatureNoiseMessage { version, valid_from: from, not_valid_after: to, signature };
    Issued { kp, text, pk, msg }
}

fn verify_at(c: &mut Case, text: &str, pk: &StaticPublicKey, m: &SignatureNoiseMessage, t: (i64, i64)) -> Option<bool> {
    vclock::set(Some(t));
    let r = c.run("verification returns", || format!("verifying at {t:?}"), || CertificateFormat::new(text, pk, m).and_then(|f| f.verify()).is_ok());
    vclock::set(None);
    r
}

/// What verification must answer.
fn expected(text: &str, pk: &StaticPublicKey, m: &SignatureNoiseMessage, t: i64) -> bool {
    let key = match unbase58(text) {
        Some(k) if k.len() == 32 => k,
        _ => return false,
    };
    let key = match ed25519_dalek::PublicKey::from_bytes(&key) {
        Ok(k) => k,
        Err(_) => return false,
    };
    t >= m.valid_from as i64
        && t < m.not_valid_after as i64
        && key.verify(&cert_bytes(m.version, m.valid_from, m.not_valid_after, &pk.as_bytes()), &m.signature).is_ok()
}

fn judge(c: &mut Case, monitor: &'static str, text: &str, pk: &StaticPublicKey, m: &SignatureNoiseMessage, t: (i64, i64), what: &dyn Fn() -> String) {
    let want = expected(text, pk, m, t.0);
    if let Some(got) = verify_at(c, text, pk, m, t) {
        c.eval(hash(&[text.as_bytes(), &pk.as_bytes(), &m.version.to_le_bytes(), &m.valid_from.to_le_bytes(), &m.not_valid_after.to_le_bytes(), &m.signature.to_bytes(), &t.0.to_le_bytes()]));
        c.obs(if want { "must verify" } else { "must not verify" }, 1);
        c.check(monitor, got == want, || {
            format!(
                "verification says {got}, must say {want} ({}): version {} valid {}..{} at {}.{:09}, key {}, signature {}",
                what(), m.version, m.valid_from, m.not_valid_after, t.0, t.1, hex(&pk.as_bytes()), hex(&m.signature.to_bytes())
            )
        });
    }
}

fn clock_works(ctx: &Ctx) -> bool {
    vclock::set(Some((1234, 5)));
    let t = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| (d.as_secs(), d.subsec_nanos()));
    vclock::set(None);
    if t.ok() != Some((1234, 5)) {
        ctx.error("the virtual clock is not in effect".into());
        return false;
    }
    true
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("an input is a verification: authority text, static key, certificate message, and the time of a virtual clock. Distinct by all of these.");
    ctx.assume("ed25519-dalek's signature verification is the oracle for authenticity");
    if !clock_works(ctx) {
        return;
    }
    ctx.section("times", ctx.n(3000, 100_000), |c| {
        let x = issue(&mut c.rng);
        let (f, t) = (x.msg.valid_from as i64, x.msg.not_valid_after as i64);
        let mut times = vec![f - 1, f, f + 1, t - 1, t, t + 1, (f + t) / 2, 0, u32::MAX as i64];
        let far = [-1i64, -5, -1_000_000, u32::MAX as i64 + 1, (1 << 32) + f, (1 << 32) + (f + t) / 2, 1 << 33, (1 << 40) + f, 253_402_300_800];
        times.push(*c.rng.pick(&far));
        times.push((1 << 32) + f);
        for s in times {
            let ns = *c.rng.pick(&[0i64, 1, 500_000_000, 999_999_999]);
            judge(c, "valid exactly in its period", &x.text, &x.pk, &x.msg, (s, ns), &|| "time".into());
            if c.failed() {
                return;
            }
        }
        c.sample(|| format!("certificate valid {f}..{t} checked around both ends"));
    });
    // one object, verified again and again while time passes
    ctx.section("time-passes", ctx.n(1500, 40_000), |c| {
        let x = issue(&mut c.rng);
        let (f, t) = (x.msg.valid_from as i64, x.msg.not_valid_after as i64);
        vclock::set(Some((*c.rng.pick(&[f - 1, f, t]), 0)));
        let fmt = CertificateFormat::new(&x.text, &x.pk, &x.msg);
        vclock::set(None);
        let fmt = match fmt {
            Ok(f) => f,
            Err(e) => {
                c.fail("valid exactly in its period", format!("a genuine certificate cannot be loaded: {e}"));
                return;
            }
        };
        let mut log = Vec::new();
        for _ in 0..10 {
            let s = match c.rng.below(6) {
                0 => f - 1,
                1 => f,
                2 => t - 1,
                3 => t,
                4 => t + c.rng.below(100) as i64,
                _ => f + c.rng.below((t - f) as usize) as i64,
            };
            let s = s.max(0);
            vclock::set(Some((s, 999_999_999)));
            let got = fmt.verify().is_ok();
            vclock::set(None);
            log.push(s);
            let want = s >= f && s < t;
            c.obs(if want { "must verify" } else { "must not verify" }, 1);
            c.check("each verification uses the present time", got == want, || {
                format!("period {f}..{t}, times so far {log:?}: verification says {got}")
            });
        }
        c.eval(hash(&[&x.pk.as_bytes(), format!("{log:?}").as_bytes()]));
    });
    ctx.section("bit-flips", ctx.n(120, 3000), |c| {
        let x = issue(&mut c.rng);
        let now = (x.msg.valid_from as i64 + (x.msg.not_valid_after - x.msg.valid_from) as i64 / 2, 0);
        judge(c, "any change makes it fail", &x.text, &x.pk, &x.msg, now, &|| "unchanged".into());
        let flip = |m: &SignatureNoiseMessage, bit: usize| {
            let mut m = m.clone();
            match bit {
                0..=15 => m.version ^= 1 << bit,
                16..=47 => m.valid_from ^= 1 << (bit - 16),
                48..=79 => m.not_valid_after ^= 1 << (bit - 48),
                _ => {
                    let mut s = m.signature.to_bytes();
                    s[(bit - 80) / 8] ^= 1 << (bit % 8);
                    match <ed25519_dalek::Signature as ed25519_dalek::ed25519::signature::Signature>::from_bytes(&s) {
                        Ok(s) => m.signature = s,
                        Err(_) => return None,
                    }
                }
            }
            Some(m)
        };
        for bit in 0..80 + 512 {
            if let Some(m) = flip(&x.msg, bit) {
                // at a time inside the changed period too, so that only the signature can tell
                let t = if m.valid_from < m.not_valid_after {
                    (m.valid_from as i64 + (m.not_valid_after - m.valid_from) as i64 / 2, 0)
                } else {
                    now
                };
                let got = verify_at(c, &x.text, &x.pk, &m, t);
                c.eval(hash(&[&x.pk.as_bytes(), &bit.to_le_bytes()]));
                c.obs("must not verify", 1);
                c.check("any change makes it fail", got == Some(false), || format!("bit {bit} of the certificate message changed, yet it verifies: {m:?}"));
            }
        }
        for bit in 0..256 {
            let mut k = x.pk.as_bytes();
            k[bit / 8] ^= 1 << (bit % 8);
            if let Ok(pk) = StaticPublicKey::from_bytes(k) {
                let got = verify_at(c, &x.text, &pk, &x.msg, now);
                c.check("any change makes it fail", got == Some(false), || format!("bit {bit} of the static key changed, yet it verifies"));
            }
            let mut a = x.kp.public.to_bytes();
            a[bit / 8] ^= 1 << (bit % 8);
            let got = verify_at(c, &base58(&a), &x.pk, &x.msg, now);
            c.check("any change makes it fail", got == Some(false), || format!("bit {bit} of the authority key changed, yet it verifies"));
            c.obs("must not verify", 2);
            c.eval(hash(&[&a, &k]));
        }
    });
    ctx.section("mix-ups", ctx.n(3000, 80_000), |c| {
        let x = issue(&mut c.rng);
        let y = issue(&mut c.rng);
        let mid = |m: &SignatureNoiseMessage| (m.valid_from as i64 + m.not_valid_after.saturating_sub(m.valid_from) as i64 / 2, 0);
        let what = "mix-up of two certificates";
        judge(c, "mix-ups fail", &y.text, &x.pk, &x.msg, mid(&x.msg), &|| what.into());
        judge(c, "mix-ups fail", &x.text, &y.pk, &x.msg, mid(&x.msg), &|| what.into());
        let mut m = x.msg.clone();
        m.signature = y.msg.signature;
        judge(c, "mix-ups fail", &x.text, &x.pk, &m, mid(&m), &|| what.into());
        // the same authority, another certificate's signature or period
        let sig = x.kp.sign(&cert_bytes(y.msg.version, y.msg.valid_from, y.msg.not_valid_after, &x.pk.as_bytes()));
        let mut m = x.msg.clone();
        m.signature = sig;
        judge(c, "mix-ups fail", &x.text, &x.pk, &m, mid(&m), &|| "signature of another period".into());
        // the signer signed something close to the certificate
        let k = x.pk.as_bytes();
        let (v, f, t) = (x.msg.version, x.msg.valid_from, x.msg.not_valid_after);
        let variants: Vec<Vec<u8>> = vec![
            cert_bytes(v, t, f, &k),
            cert_bytes(v.swap_bytes(), f, t, &k),
            cert_bytes(v, f.swap_bytes(), t.swap_bytes(), &k),
            cert_bytes(v, f, t, &k)[..10].to_vec(),
            cert_bytes(v, f, t, &k)[2..].to_vec(),
            k.to_vec(),
            [&k[..], &cert_bytes(v, f, t, &k)[..10]].concat(),
            [&cert_bytes(v, f, t, &k)[..], &[0]].concat(),
            cert_bytes(0, f, t, &k),
            cert_bytes(v, 0, t, &k),
            cert_bytes(v, f, u32::MAX, &k),
            cert_bytes(v, f, t, &[0; 32]),
            cert_bytes(v, f, t, &x.kp.public.to_bytes()),
            Vec::new(),
            [&cert_bytes(v, f, t, &k)[..], &x.msg.signature.to_bytes()].concat(),
        ];
        let w = c.rng.below(variants.len());
        let mut m = x.msg.clone();
        m.signature = x.kp.sign(&variants[w]);
        judge(c, "mix-ups fail", &x.text, &x.pk, &m, mid(&m), &|| format!("signature over variant {w} of the signed bytes"));
        // a period that is empty or reversed is never valid
        let mut m = x.msg.clone();
        if c.rng.bool() {
            m.not_valid_after = m.valid_from;
        } else {
            std::mem::swap(&mut m.valid_from, &mut m.not_valid_after);
        }
        m.signature = x.kp.sign(&cert_bytes(m.version, m.valid_from, m.not_valid_after, &k));
        for s in [m.valid_from as i64, m.not_valid_after as i64, m.valid_from as i64 - 1, m.not_valid_after as i64 - 1] {
            judge(c, "valid exactly in its period", &x.text, &x.pk, &m, (s, 0), &|| "empty or reversed period".into());
        }
        // not reduced scalars: s + L
        let mut s = x.msg.signature.to_bytes();
        let mut carry = 0u16;
        for i in 0..32 {
            carry += s[32 + i] as u16 + crate::model::ORDER_L[i] as u16;
            s[32 + i] = carry as u8;
            carry >>= 8;
        }
        if let Ok(sig) = <ed25519_dalek::Signature as ed25519_dalek::ed25519::signature::Signature>::from_bytes(&s) {
            let mut m = x.msg.clone();
            m.signature = sig;
            judge(c, "mix-ups fail", &x.text, &x.pk, &m, mid(&m), &|| "malleated signature".into());
        }
    });
    ctx.section("authority-text", ctx.n(12_000, 300_000), |c| {
        let x = issue(&mut c.rng);
        let key = x.kp.public.to_bytes();
        let t: String = match c.rng.below(14) {
            0 => x.text.clone(),
            1 | 2 => crate::model::near_text(&mut c.rng, &x.text),
            3 => {
                let n = c.rng.below(70);
                base58(&c.rng.bytes(n))
            }
            4 => base58(&c.rng.arr32()),
            5 => {
                let mut k = key.to_vec();
                k.insert(c.rng.below(2) * 32, 0);
                base58(&k)
            }
            6 => format!("1{}", x.text),
            7 => "1".repeat(c.rng.below(40)),
            8 => {
                let n = c.rng.below(60);
                (0..n).map(|_| char::from_u32(c.rng.below(0x500) as u32).unwrap_or('\u{1F600}')).collect()
            }
            9 => hex(&key),
            10 => {
                let n = c.rng.below(300);
                (0..n).map(|_| *c.rng.pick(&['1', '2', 'z', 'Z', 'A'])).collect()
            }
            11 => {
                // one character replaced by a look-alike or another digit
                let mut t: Vec<char> = x.text.chars().collect();
                let k = c.rng.below(t.len());
                t[k] = *c.rng.pick(&['0', 'O', 'I', 'l', 'é', '1', 'x', '\u{7f}', '\u{80}', ' ']);
                t.into_iter().collect()
            }
            12 => base58(&key[..31]),
            _ => {
                let mut k = key;
                k[c.rng.below(32)] ^= 1 << c.rng.below(8);
                base58(&k)
            }
        };
        let want = match unbase58(&t) {
            Some(b) if b.len() == 32 => ed25519_dalek::PublicKey::from_bytes(&b).is_ok(),
            _ => false,
        };
        c.eval(hash(&[t.as_bytes()]));
        let got = c.run("authority text never panics", || format!("authority text {t:?}"), || CertificateFormat::new(&t, &x.pk, &x.msg).is_ok());
        c.obs("authority text never panics", 1);
        if let Some(got) = got {
            c.check("authority text accepted exactly if it is a key", got == want, || format!("authority text {t:?}: accepted {got}, must be {want}"));
            c.obs(if want { "authority text good" } else { "authority text bad" }, 1);
        }
        if got == Some(true) {
            let mid = x.msg.valid_from as i64;
            judge(c, "mix-ups fail", &t, &x.pk, &x.msg, (mid, 0), &|| "authority text".into());
        }
    });
    // every character around and inside the text of a key
    ctx.section("authority-text-scalars", if ctx.tiny() { 2 } else { 0x1100 }, |c| {
        let x = issue(&mut c.rng);
        let n = x.text.len();
        for ch in crate::model::scalars(c.idx) {
            let k = c.rng.below(n);
            for t in [format!("{ch}{}", x.text), format!("{}{ch}", x.text), format!("{}{ch}{}", &x.text[..k], &x.text[k..]), format!("{}{ch}{}", &x.text[..k], &x.text[k + 1..])] {
                let want = match unbase58(&t) {
                    Some(b) if b.len() == 32 => ed25519_dalek::PublicKey::from_bytes(&b).is_ok(),
                    _ => false,
                };
                let got = c.run("authority text never panics", || format!("authority text {t:?}"), || CertificateFormat::new(&t, &x.pk, &x.msg).is_ok());
                if let Some(got) = got {
                    c.check("authority text accepted exactly if it is a key", got == want, || format!("authority text {t:?}: accepted {got}, must be {want}"));
                }
            }
            c.eval_enum(4);
        }
    });
    ctx.require(&[
        "valid exactly in its period",
        "each verification uses the present time",
        "any change makes it fail",
        "mix-ups fail",
        "authority text accepted exactly if it is a key",
        "must verify",
        "must not verify",
        "authority text good",
        "authority text bad",
    ]);
}

pub fn c22(ctx: &Ctx) {
    ctx.rule("an input is an issued certificate: authority key, version, period, static key; then its way through encoding, an encrypted session and decoding. Distinct by those.");
    ctx.assume("ed25519-dalek's signature verification is the oracle for authenticity");
    if !clock_works(ctx) {
        return;
    }
    ctx.section("issued", ctx.n(5000, 120_000), |c| {
        let kp = if c.rng.chance(1, 8) { stratumv2::noise::generate_authority_keypair() } else { auth_key(&c.rng.arr32()) };
        let sp = gen_priv(&mut c.rng);
        let stat = keypair(&sp);
        let pk = stat.get_public_key();
        let k = x25519_base(&sp);
        let (from, to) = gen_period(&mut c.rng);
        let version = match c.rng.below(4) {
            0 => 0,
            1 => u16::MAX,
            _ => c.rng.u32() as u16,
        };
        c.eval(hash(&[&kp.public.to_bytes(), &k, &version.to_le_bytes(), &from.to_le_bytes(), &to.to_le_bytes()]));
        let cert = match SignedCertificate::new(version, from, to, &pk) {
            Ok(x) => x,
            Err(e) => {
                c.fail("certificate can be issued", format!("version {version}, {from}..{to}: {e}"));
                return;
            }
        };
        let m = match SignatureNoiseMessage::from_auth_key(&kp, &cert) {
            Ok(m) => m,
            Err(e) => {
                c.fail("certificate can be issued", format!("version {version}, {from}..{to}: {e}"));
                return;
            }
        };
        let want = cert_bytes(version, from, to, &k);
        c.check("carries what the certificate states", (m.version, m.valid_from, m.not_valid_after) == (version, from, to), || {
            format!("issued for version {version} {from}..{to}, carries {} {}..{}", m.version, m.valid_from, m.not_valid_after)
        });
        c.check("signature covers exactly the stated bytes", kp.public.verify(&want, &m.signature).is_ok(), || {
            format!("the signature {} is not over {}", hex(&m.signature.to_bytes()), hex(&want))
        });
        let ser = serialize(&cert).unwrap_or_default();
        c.check("signed bytes have the specified layout", ser == want, || format!("certificate encodes to {} instead of {}", hexs(&ser), hex(&want)));
        let m2 = SignatureNoiseMessage::new(&cert, m.signature);
        c.check("carries what the certificate states", m2 == m, || format!("{m2:?} differs from {m:?}"));
        let text = base58(&kp.public.to_bytes());
        if let Ok(f) = CertificateFormat::new(&text, &pk, &m) {
            let s = serialize(&f).unwrap_or_default();
            c.check("signed bytes have the specified layout", s == want, || format!("reconstructed certificate encodes to {} instead of {}", hexs(&s), hex(&want)));
        }
        // on the wire
        let wire = serialize(&m).unwrap_or_default();
        c.check("message encodes to 74 bytes", wire.len() == 74 && wire[..10] == want[..10] && wire[10..] == m.signature.to_bytes(), || format!("certificate message encodes to {}", hexs(&wire)));
        // through an encrypted session, as the test of the repository does it
        let mut server = new_noise_responder(Some(stat.clone()));
        let mut client = new_noise_initiator();
        let mut buf = vec![0u8; 1024];
        let hs = client.send_message(&mut buf).is_ok() && server.recv_message(&mut buf).is_ok() && server.send_message(&mut buf).is_ok() && client.recv_message(&mut buf).is_ok();
        if !hs {
            c.fail("verifies after the whole journey", "handshake failed".into());
            return;
        }
        let n = 74 + 16 + if c.rng.bool() { 0 } else { c.rng.below(900) };
        let mut buf = c.rng.bytes(n);
        buf[..74.min(wire.len())].copy_from_slice(&wire[..74.min(wire.len())]);
        let sent = server.send_message(&mut buf).is_ok() && client.recv_message(&mut buf).is_ok();
        let got = deserialize::<SignatureNoiseMessage>(&buf);
        match (&got, client.get_remote_static_public_key()) {
            (Ok(g), Some(remote)) if sent => {
                c.check("verifies after the whole journey", *g == m && remote.as_bytes() == k, || "the certificate message or the key arrives changed".into());
                for t in [from as i64, to as i64 - 1, from as i64 + (to - from) as i64 / 2] {
                    vclock::set(Some((t, 0)));
                    let r = CertificateFormat::new(&text, &remote, g).and_then(|f| f.verify());
                    vclock::set(None);
                    c.check("verifies throughout its period", r.is_ok(), || {
                        format!("issued for version {version} {from}..{to}, does not verify at {t}: {:?}", r.as_ref().err().map(|e| e.to_string()))
                    });
                }
            }
            _ => c.fail("verifies after the whole journey", "the certificate message does not arrive".into()),
        }
        c.sample(|| format!("version {version}, {from}..{to}, key {}", hex(&k)));
    });
    // certificates whose fields were set afterwards, to any values
    ctx.section("issued-any-fields", ctx.n(4000, 100_000), |c| {
        let kp = auth_key(&c.rng.arr32());
        let pks = [0, 1].map(|_| keypair(&gen_priv(&mut c.rng)).get_public_key());
        let (a, b) = gen_period(&mut c.rng);
        let Ok(mut cert) = SignedCertificate::new(c.rng.u32() as u16, a, b, &pks[0]) else {
            return;
        };
        let (from, to) = match c.rng.below(5) {
            0 => (b, a),
            1 => (a, a),
            2 => (u32::MAX - c.rng.below(3) as u32, c.rng.below(3) as u32),
            3 => gen_period(&mut c.rng),
            _ => (c.rng.u32(), c.rng.u32()),
        };
        let version = c.rng.u32() as u16;
        cert.version = version;
        cert.valid_from = from;
        cert.not_valid_after = to;
        let second = c.rng.bool();
        cert.public_key = &pks[second as usize];
        c.eval(hash(&[b"any", &kp.public.to_bytes(), &version.to_le_bytes(), &from.to_le_bytes(), &to.to_le_bytes()]));
        match SignatureNoiseMessage::from_auth_key(&kp, &cert) {
            Ok(m) => {
                let want = cert_bytes(version, from, to, &pks[second as usize].as_bytes());
                c.check("carries what the certificate states", (m.version, m.valid_from, m.not_valid_after) == (version, from, to), || {
                    format!("issued for version {version} {from}..{to}, carries {} {}..{}", m.version, m.valid_from, m.not_valid_after)
                });
                c.check("signature covers exactly the stated bytes", kp.public.verify(&want, &m.signature).is_ok(), || {
                    format!("the signature {} is not over {}", hex(&m.signature.to_bytes()), hex(&want))
                });
            }
            // an empty period need not be issued
            Err(e) => {
                c.check("certificate can be issued", from >= to, || format!("version {version}, {from}..{to}: {e}"));
            }
        }
    });
    // one authority issues many certificates that differ in one thing at a time, in any
    // order and by several threads at once: each states and signs its own content
    ctx.section("issued-in-series", ctx.n(400, 10_000), |c| {
        let auths: Vec<_> = (0..2).map(|_| auth_key(&c.rng.arr32())).collect();
        let keys: Vec<_> = (0..3).map(|_| keypair(&gen_priv(&mut c.rng))).collect();
        let periods = [gen_period(&mut c.rng), gen_period(&mut c.rng)];
        let periods = [periods[0], periods[1], (periods[0].0, periods[0].1.saturating_add(1)), (periods[0].0.saturating_sub(1), periods[0].1)];
        let v0 = c.rng.u32() as u16;
        let versions = [v0, v0 ^ 1, v0.swap_bytes()];
        let n = 24;
        let mut plan: Vec<[usize; 4]> = Vec::new();
        let mut cur = [0usize; 4];
        for _ in 0..n {
            let d = c.rng.below(4);
            let m = [auths.len(), keys.len(), periods.len(), versions.len()][d];
            if !c.rng.chance(1, 6) {
                cur[d] = (cur[d] + 1 + c.rng.below(m - 1)) % m;
            }
            plan.push(cur);
        }
        type Out = Vec<([usize; 4], Option<SignatureNoiseMessage>)>;
        let issue = |plan: &[[usize; 4]]| -> Out {
            plan.iter()
                .map(|p| {
                    let (f, t) = periods[p[2]];
                    let m = SignedCertificate::new(versions[p[3]], f, t, &keys[p[1]].get_public_key())
                        .and_then(|cert| SignatureNoiseMessage::from_auth_key(&auths[p[0]], &cert));
                    (*p, m.ok())
                })
                .collect()
        };
        c.eval(hash(&[b"series", &auths[0].public.to_bytes(), format!("{plan:?}").as_bytes()]));
        let outs: Vec<Out> = if c.idx % 4 == 3 {
            c.obs("series issued by several threads", 1);
            let (a, b) = plan.split_at(n / 2);
            std::thread::scope(|s| {
                let h = [s.spawn(|| issue(a)), s.spawn(|| issue(b))];
                h.into_iter().filter_map(|h| h.join().ok()).collect()
            })
        } else {
            vec![issue(&plan)]
        };
        let all: usize = outs.iter().map(|o| o.len()).sum();
        c.check("certificate can be issued", all == n, || "issuing panicked".into());
        for (i, (p, m)) in outs.iter().flatten().enumerate() {
            let (f, t) = periods[p[2]];
            let m = match m {
                Some(m) => m,
                None => {
                    c.fail("certificate can be issued", format!("certificate {i} of a series: version {}, {f}..{t}", versions[p[3]]));
                    return;
                }
            };
            let pk = keys[p[1]].get_public_key();
            let want = cert_bytes(versions[p[3]], f, t, &pk.as_bytes());
            c.check("carries what the certificate states", (m.version, m.valid_from, m.not_valid_after) == (versions[p[3]], f, t), || {
                format!("certificate {i} of a series: issued for version {} {f}..{t}, carries {} {}..{}", versions[p[3]], m.version, m.valid_from, m.not_valid_after)
            });
            c.check("each of a series is signed for itself", auths[p[0]].public.verify(&want, &m.signature).is_ok(), || {
                format!("certificate {i} of a series {plan:?} (authority, key, period, version): the signature is not over {}", hex(&want))
            });
            if i % 5 == 0 {
                let text = base58(&auths[p[0]].public.to_bytes());
                vclock::set(Some((f as i64, 0)));
                let r = CertificateFormat::new(&text, &pk, m).and_then(|f| f.verify());
                vclock::set(None);
                c.check("verifies throughout its period", r.is_ok(), || format!("certificate {i} of a series {plan:?} does not verify: {:?}", r.as_ref().err().map(|e| e.to_string())));
            }
        }
    });
    ctx.require(&[
        "each of a series is signed for itself",
        "carries what the certificate states",
        "signature covers exactly the stated bytes",
        "signed bytes have the specified layout",
        "verifies throughout its period",
        "verifies after the whole journey",
    ]);
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("an input is a system time (seconds and nanoseconds relative to the epoch) given to the conversion, or shown by the virtual clock to the current-time helper. Distinct by time.");
    if !clock_works(ctx) {
        return;
    }
    fn judge(c: &mut Case, s: i64, ns: u32, helper: bool) {
        // time = s seconds + ns nanoseconds, s may be negative
        let t = if s >= 0 {
            UNIX_EPOCH.checked_add(Duration::new(s as u64, ns))
        } else {
            UNIX_EPOCH.checked_sub(Duration::new(s.unsigned_abs(), 0)).and_then(|t| t.checked_add(Duration::new(0, ns)))
        };
        let t = match t {
            Some(t) => t,
            None => return,
        };
        let want = if s >= 0 && s <= u32::MAX as i64 { Some(s as u32) } else { None };
        c.eval(hash(&[&s.to_le_bytes(), &ns.to_le_bytes(), &[helper as u8]]));
        let got = c.run("conversion returns", || format!("{s} s {ns} ns"), || system_unix_time_to_u32(&t).ok());
        if let Some(got) = got {
            c.check("timestamp exact or refused", got == want, || format!("{s} s + {ns} ns converts to {got:?}, must be {want:?}"));
            c.obs(if want.is_some() { "representable times" } else { "times to refuse" }, 1);
        }
        if helper {
            vclock::set(Some((s, ns as i64)));
            let r0 = vclock::reads();
            let got = c.run("conversion returns", || format!("clock at {s} s {ns} ns"), || unix_u32_now().ok());
            let used = vclock::reads() - r0;
            vclock::set(None);
            if let Some(got) = got {
                c.check("current time is the clock's", got == want && used > 0, || format!("clock at {s} s + {ns} ns: current timestamp {got:?}, must be {want:?} (clock read {used} times)"));
            }
        }
    }
    let mut marks: Vec<i64> = vec![0, u32::MAX as i64 + 1, i32::MAX as i64 + 1, 1 << 33, 1 << 34, 1 << 40, 1 << 48, 1 << 52, 1 << 60, i64::MAX - 4, i64::MIN + 6, -(1 << 31), -(1i64 << 32), -(1i64 << 33), 1 << 16, 1 << 24, 86_400, 31_536_000, 951_782_400, 1_700_000_000];
    for k in 0..33 {
        marks.push(1i64 << k);
        marks.push(-(1i64 << k));
        marks.push((1i64 << 32) + (1i64 << k));
    }
    marks.extend(crate::dict::dict().ints.iter().map(|x| *x as i64));
    let marks = &marks;
    ctx.section("marks", marks.len() as u64, |c| {
        let m = marks[c.idx as usize];
        for d in -3i64..=3 {
            for ns in [0u32, 1, 499_999_999, 500_000_000, 999_999_999] {
                if let Some(s) = m.checked_add(d) {
                    judge(c, s, ns, true);
                }
            }
        }
    });
    ctx.section("random", ctx.n(40_000, 2_000_000), |c| {
        for _ in 0..8 {
            let s = match c.rng.below(4) {
                0 | 1 => c.rng.u32() as i64,
                2 => (c.rng.u64() >> c.rng.below(40)) as i64,
                _ => -((c.rng.u64() >> (1 + c.rng.below(60))) as i64),
            };
            let ns = match c.rng.below(3) {
                0 => c.rng.u32() % 1_000_000_000,
                1 => 999_999_999,
                _ => 0,
            };
            judge(c, s, ns, c.rng.clone().chance(1, 4));
        }
    });
    // successive readings follow the clock, forwards and backwards
    ctx.section("moving-clock", ctx.n(400, 10_000), |c| {
        let mut t = c.rng.u32() as i64;
        for _ in 0..40 {
            t += c.rng.below(9) as i64 - 3;
            let t2 = t.clamp(0, u32::MAX as i64);
            vclock::set(Some((t2, c.rng.below(1_000_000_000) as i64)));
            let got = unix_u32_now().ok();
            vclock::set(None);
            c.eval_enum(1);
            c.check("current time is the clock's", got == Some(t2 as u32), || format!("clock at {t2}, helper says {got:?}"));
        }
    });
    // the real clock
    ctx.section("real-clock", 50, |c| {
        let a = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
        let n = unix_u32_now().ok().unwrap_or(0) as u64;
        let b = SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(u64::MAX);
        c.check("current time is the clock's", b < a || (n >= a && n <= b), || format!("real clock between {a} and {b}, helper says {n}"));
        c.eval_enum(1);
    });
    ctx.require(&["timestamp exact or refused", "current time is the clock's", "representable times", "times to refuse"]);
}

pub fn c28_cert(ctx: &Ctx) {
    ctx.section("certificates", ctx.n(4000, 80_000), |c| {
        let x = issue(&mut c.rng);
        let (from, to) = (c.rng.u32(), c.rng.u32());
        if let Err(e) = SignedCertificate::new(1, from.max(to), from.min(to), &x.pk) {
            inspect(c, "SignedCertificate", &e);
        }
        let t = crate::model::near_text(&mut c.rng, &x.text);
        if let Err(e) = CertificateFormat::new(&t, &x.pk, &x.msg) {
            inspect(c, "CertificateFormat", &e);
        }
        let n = c.rng.below(50);
        let t = base58(&c.rng.bytes(n));
        if let Err(e) = CertificateFormat::new(&t, &x.pk, &x.msg) {
            inspect(c, "CertificateFormat", &e);
        }
        for now in [x.msg.valid_from as i64 - 1, x.msg.not_valid_after as i64, -3, 1 << 33] {
            vclock::set(Some((now, 0)));
            let r = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify());
            vclock::set(None);
            if let Err(e) = r {
                inspect(c, "verify", &e);
            }
        }
        let mut m = x.msg.clone();
        m.version ^= 1;
        vclock::set(Some((m.valid_from as i64, 0)));
        let r = CertificateFormat::new(&x.text, &x.pk, &m).and_then(|f| f.verify());
        vclock::set(None);
        if let Err(e) = r {
            inspect(c, "verify", &e);
        }
        if let Some(t) = UNIX_EPOCH.checked_sub(Duration::new(c.rng.u32() as u64, 1)) {
            if let Err(e) = system_unix_time_to_u32(&t) {
                inspect(c, "timestamp", &e);
            }
        }
        if let Some(t) = UNIX_EPOCH.checked_add(Duration::new(c.rng.u32() as u64 + (1 << 32), 1)) {
            if let Err(e) = system_unix_time_to_u32(&t) {
                inspect(c, "timestamp", &e);
            }
        }
        let mut sink = Vec::new();
        let _ = x.pk.serialize(&mut sink);
    });
}
