//! Monitors for keys: C18 (freshness), C19 (refused keys), C20 (consistency, text).

use crate::ctx::{Case, Ctx, Tier};
use crate::p_noise::{gen_priv, gen_prologue, keypair, reference_ok};
use crate::refcrypto::x25519_base;
use crate::refnoise::*;
use crate::util::{hash, hex, hexs, Rng};
use crate::vclock;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::collections::{HashMap, HashSet};
use std::str::FromStr;
use std::sync::Mutex;
use stratumv2::network::{new_channel_id, ConnectionEncryptor, Encryptor};
use stratumv2::noise::{generate_authority_keypair, new_noise_initiator, new_noise_responder};

// ---------------------------------------------------------------- C18

/// One generated key as an observer sees it.
#[derive(Clone)]
pub struct Seen {
    pub kind: u8,
    pub public: [u8; 32],
    /// all zero when not observable
    pub private: [u8; 32],
}
pub const KINDS: [&str; 8] = [
    "ephemeral of an initiator",
    "ephemeral of a responder",
    "default key pair",
    "authority key pair",
    "ephemeral of an outbound connection",
    "ephemeral of an inbound connection",
    "static of a responder without a configured key",
    "static of an inbound connection without a configured key",
];

#[cfg(vp_hooks)]
fn private_of(k: &Keypair) -> [u8; 32] {
    k.vp_private()
}
#[cfg(not(vp_hooks))]
fn private_of(_: &Keypair) -> [u8; 32] {
    [0; 32]
}
#[cfg(vp_hooks)]
fn ephemeral_of(s: &NoiseSession) -> [u8; 32] {
    s.vp_ephemeral()
}
#[cfg(not(vp_hooks))]
fn ephemeral_of(_: &NoiseSession) -> [u8; 32] {
    [0; 32]
}

fn k32(b: &[u8]) -> [u8; 32] {
    b[..32].try_into().unwrap()
}

/// Makes one key of every kind with the real code.
pub fn generate(out: &mut Vec<Seen>, static_key: &Keypair) {
    let mut push = |kind: u8, public: [u8; 32], private: [u8; 32]| out.push(Seen { kind, public, private });
    // initiator and responder session, both with a given static key
    let mut i = NoiseSession::init_session(true, &[], static_key.clone());
    let mut r = NoiseSession::init_session(false, &[], static_key.clone());
    let mut a = [0u8; 64];
    if i.send_message(&mut a).is_ok() {
        push(0, k32(&a), ephemeral_of(&i));
        let mut x = a;
        if r.recv_message(&mut x).is_ok() {
            let mut b = [0u8; 96];
            if r.send_message(&mut b).is_ok() {
                push(1, k32(&b), [0; 32]);
            }
        }
    }
    let d = Keypair::default();
    push(2, d.get_public_key().as_bytes(), private_of(&d));
    let ak = generate_authority_keypair();
    push(3, ak.public.to_bytes(), ak.secret.to_bytes());
    // connections
    let mut o = ConnectionEncryptor::new_outbound();
    let mut n = ConnectionEncryptor::new_inbound(None);
    if let Ok(mut a) = o.init_handshake() {
        push(4, k32(&a), [0; 32]);
        if let Ok(mut b) = n.recv_handshake(&mut a) {
            push(5, k32(&b), [0; 32]);
            if o.recv_handshake(&mut b).is_ok() {
                if let Some(k) = o.get_remote_pubkey() {
                    push(7, k.as_bytes(), [0; 32]);
                }
            }
        }
    }
    // a responder without configured key, asked by an initiator
    let mut i = new_noise_initiator();
    let mut r = new_noise_responder(None);
    let mut a = [0u8; 48];
    let mut b = [0u8; 96];
    if i.send_message(&mut a).is_ok() && r.recv_message(&mut a.clone()).is_ok() && r.send_message(&mut b).is_ok() {
        push(0, k32(&a), [0; 32]);
        push(1, k32(&b), [0; 32]);
        if i.recv_message(&mut b).is_ok() {
            if let Some(k) = i.get_remote_static_public_key() {
                push(6, k.as_bytes(), [0; 32]);
            }
        }
    }
}

/// The part run in a child process: prints what it generated.
pub fn keygen_child(threads: usize, n: usize, ids: usize) {
    vclock::freeze();
    let start = std::sync::Barrier::new(threads);
    let lines: Mutex<Vec<String>> = Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                vclock::set(Some((1_700_000_000, 0)));
                vclock::set_pid(Some(4242));
                start.wait();
                let sk = keypair(&[7; 32]);
                let mut v = Vec::new();
                for _ in 0..n {
                    generate(&mut v, &sk);
                }
                let ids: Vec<String> = (0..ids).map(|_| new_channel_id().to_string()).collect();
                let mut l = lines.lock().unwrap();
                for x in v {
                    l.push(format!("K {} {} {}", x.kind, hex(&x.public), hex(&x.private)));
                }
                l.push(format!("I {}", ids.join(" ")));
            });
        }
    });
    println!("{}\nEND", lines.lock().unwrap().join("\n"));
}

/// Offline checker over all recorded keys.
/// How many of the 256 bits vary independently (over GF(2)), up to constants.
fn affine_rank<'a>(mut keys: impl Iterator<Item = &'a [u8; 32]>) -> usize {
    let words = |k: &[u8; 32]| -> [u64; 4] { std::array::from_fn(|i| u64::from_le_bytes(k[i * 8..i * 8 + 8].try_into().unwrap())) };
    let first = match keys.next() {
        Some(k) => words(k),
        None => return 0,
    };
    let mut basis: [Option<[u64; 4]>; 256] = [None; 256];
    let mut rank = 0;
    for k in keys {
        let mut v = words(k);
        (0..4).for_each(|i| v[i] ^= first[i]);
        for bit in 0..256 {
            if v[bit / 64] >> (bit % 64) & 1 == 0 {
                continue;
            }
            match basis[bit] {
                Some(b) => (0..4).for_each(|i| v[i] ^= b[i]),
                None => {
                    basis[bit] = Some(v);
                    rank += 1;
                    break;
                }
            }
        }
    }
    rank
}

fn judge_keys(c: &mut Case, all: &[Seen]) {
    let mut publics: HashMap<[u8; 32], u8> = HashMap::new();
    for k in all {
        c.check("generated key is not zero", k.public != [0; 32], || format!("{}: an all-zero key", KINDS[k.kind as usize]));
        let prev = publics.insert(k.public, k.kind);
        if !c.check("generated key never repeats", prev.is_none(), || {
            format!(
                "the public key {} was generated twice: {} and {} (among {} keys)",
                hex(&k.public),
                KINDS[prev.unwrap() as usize],
                KINDS[k.kind as usize],
                all.len()
            )
        }) {
            return;
        }
    }
    // the private keys that are observable
    for (name, kinds, skip_clamped) in [("X25519", &[0u8, 2][..], true), ("authority", &[3u8][..], false)] {
        let privs: Vec<&[u8; 32]> = all
            .iter()
            .filter(|k| kinds.contains(&k.kind) && k.private != [0; 32])
            .map(|k| &k.private)
            .collect();
        if privs.len() < 2000 {
            continue;
        }
        let n = privs.len() as f64;
        for bit in 0..256 {
            if skip_clamped && (bit < 3 || bit >= 254) {
                continue;
            }
            let ones = privs.iter().filter(|k| k[bit / 8] >> (bit % 8) & 1 == 1).count() as f64;
            let z = (ones - n / 2.0) / (n.sqrt() / 2.0);
            if !c.check("private key bits are balanced", z.abs() < 7.0, || {
                format!("bit {bit} of the private key is set in {ones} of {n} generated {name} keys")
            }) {
                return;
            }
        }
        // no bit follows from others: the keys differ in as many independent ways as they have free bits
        let free = if skip_clamped { 251 } else { 256 };
        let rank = affine_rank(privs.iter().copied().take(1500));
        if !c.check("private key bits are independent", rank >= free, || {
            format!("the bits of generated {name} private keys depend on each other: only {rank} of {free} are free")
        }) {
            return;
        }
        let mut parts = HashSet::new();
        for k in &privs {
            for (j, p) in k.chunks(8).enumerate() {
                let mut v = u64::from_le_bytes(p.try_into().unwrap());
                if skip_clamped && j == 0 {
                    v |= 7;
                }
                if skip_clamped && j == 3 {
                    v |= 3 << 62;
                }
                if !c.check("parts of private keys never repeat", parts.insert(v), || {
                    format!("8 bytes of a generated {name} private key occurred before, in this or another key: {}", hex(p))
                }) {
                    return;
                }
            }
        }
    }
}

fn judge_ids(c: &mut Case, ids: &[u32], name: &str) {
    let n = ids.len() as f64;
    let mut ok = true;
    for bit in 0..32 {
        let ones = ids.iter().filter(|i| **i >> bit & 1 == 1).count() as f64;
        let z = (ones - n / 2.0) / (n.sqrt() / 2.0);
        ok &= c.check("channel id bits are balanced", z.abs() < 7.0, || format!("{name}: bit {bit} is set in {ones} of {n} channel ids"));
    }
    for byte in 0..4 {
        let mut h = [0u32; 256];
        for i in ids {
            h[(i >> (8 * byte) & 255) as usize] += 1;
        }
        let e = n / 256.0;
        let lo = h.iter().copied().min().unwrap() as f64;
        let hi = h.iter().copied().max().unwrap() as f64;
        let sd = e.sqrt();
        // far tails of a binomial; generous, since small means are skewed
        if e >= 200.0 {
            ok &= c.check("channel id bytes are spread", lo > e - 8.0 * sd && hi < e + 8.0 * sd, || {
                format!("{name}: values of byte {byte} occur between {lo} and {hi} times, {e:.0} expected")
            });
        }
    }
    // differences of neighbours vary in all bits as well, also within halves and bytes
    for (name2, mask, sh) in [("lower half", 0xffffu32, 0u32), ("upper half", 0xffff, 16), ("lowest byte", 0xff, 0), ("second byte", 0xff, 8), ("third byte", 0xff, 16), ("highest byte", 0xff, 24)] {
        for lag in [1usize, 2, 3, 4, 8] {
            let mut h = vec![0u32; mask as usize + 1];
            let mut x = vec![0u32; mask as usize + 1];
            for w in ids.windows(lag + 1) {
                let (a, b) = (w[0] >> sh & mask, w[lag] >> sh & mask);
                h[(b.wrapping_sub(a) & mask) as usize] += 1;
                x[(b ^ a) as usize] += 1;
            }
            let e = n / (mask as f64 + 1.0);
            let limit = e + 12.0 * e.sqrt() + 20.0;
            let top = h.iter().chain(x.iter()).copied().max().unwrap() as f64;
            ok &= c.check("channel ids are not a progression", top < limit, || {
                format!("{name}: the {name2} of channel ids {lag} apart differs by the same value {top} times of {n}, {e:.0} expected")
            });
        }
    }
    let lo = *ids.iter().min().unwrap() as f64;
    let hi = *ids.iter().max().unwrap() as f64;
    let gap = 4294967296.0 / n * 40.0;
    ok &= c.check("channel ids reach both ends of the range", lo < gap && hi > 4294967295.0 - gap, || {
        format!("{name}: {n} channel ids lie between {lo} and {hi}")
    });
    if !ok {
        return;
    }
    // repetitions: the number of equal pairs is Poisson distributed
    let pairs = |v: &[u32]| {
        let mut s = v.to_vec();
        s.sort_unstable();
        s.windows(2).filter(|w| w[0] == w[1]).count() as f64
    };
    let lambda = n * n / 8589934592.0;
    let limit = lambda + 8.0 * lambda.sqrt() + 14.0;
    let p = pairs(ids);
    c.check("channel ids do not repeat systematically", p < limit, || format!("{name}: {p} repetitions among {n} channel ids, {lambda:.1} expected"));
    for lag in [1usize, 2, 4, 8] {
        let d: Vec<u32> = ids.windows(lag + 1).map(|w| w[lag].wrapping_sub(w[0])).collect();
        let p = pairs(&d);
        c.check("channel ids are not a progression", p < limit, || {
            format!("{name}: the distance of channel ids {lag} apart takes the same value {p} times, {lambda:.1} expected")
        });
    }
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("an input is one generated key or channel id, observed at the public interface (keys on the wire, key pairs, with hooks also private keys), in threads and child processes that see the same clock, process id and address layout. Distinct by key bytes or id position.");
    ctx.assume("the operating system's random generator works");
    if !reference_ok(ctx) {
        return;
    }
    let rec: Mutex<Vec<Seen>> = Mutex::new(Vec::new());
    let frozen = (1_700_000_000, 0);
    ctx.section("generate", ctx.n(16_000, 160_000), |c| {
        // half of the cases with a stopped clock
        if c.idx % 2 == 0 {
            vclock::set(Some(frozen));
        }
        let sk = keypair(&gen_priv(&mut c.rng));
        let mut v = Vec::new();
        generate(&mut v, &sk);
        vclock::set(None);
        c.check("keys are generated", v.len() == 10, || format!("only {} of 10 keys could be generated and observed", v.len()));
        for k in &v {
            c.eval(hash(&[&k.public]));
            c.obs(KINDS[k.kind as usize], 1);
        }
        c.sample(|| format!("{}: {}", KINDS[v[0].kind as usize], hex(&v[0].public)));
        rec.lock().unwrap().extend(v);
    });
    // fresh threads: the first keys a thread makes
    let nt = if cfg!(miri) { 4 } else { 64 };
    ctx.section_t("fresh-threads", ctx.n(8, 40), 1, |c| {
        let bar = std::sync::Barrier::new(nt);
        let got: Mutex<Vec<Seen>> = Mutex::new(Vec::new());
        let sk = keypair(&gen_priv(&mut c.rng));
        std::thread::scope(|s| {
            for _ in 0..nt {
                s.spawn(|| {
                    vclock::set(Some(frozen));
                    bar.wait();
                    let mut v = Vec::new();
                    for _ in 0..4 {
                        generate(&mut v, &sk);
                    }
                    got.lock().unwrap().extend(v);
                });
            }
        });
        let g = got.into_inner().unwrap();
        for k in &g {
            c.eval(hash(&[&k.public]));
        }
        c.obs("keys of fresh threads", g.len() as u64);
        rec.lock().unwrap().extend(g);
    });
    // processes that start alike
    let firsts: Mutex<Vec<u32>> = Mutex::new(Vec::new());
    #[cfg(not(miri))]
    if !ctx.tiny() {
        ctx.section("processes", ctx.n(16, 64), |c| {
            use std::os::unix::process::CommandExt;
            let exe = std::env::current_exe().expect("own path");
            let mut cmd = std::process::Command::new(exe);
            cmd.args(["keygen", "--threads", "4", "--n", "25"]).env_clear();
            unsafe {
                cmd.pre_exec(|| {
                    libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
                    Ok(())
                });
            }
            let out = cmd.output().expect("child process");
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            if !out.status.success() || !text.ends_with("END\n") {
                c.ctx.error(format!("child process failed: {:?} {}", out.status, String::from_utf8_lossy(&out.stderr)));
                return;
            }
            let mut v = Vec::new();
            for l in text.lines() {
                let f: Vec<&str> = l.split(' ').collect();
                if f[0] == "K" {
                    v.push(Seen {
                        kind: f[1].parse().unwrap(),
                        public: crate::util::unhex32(f[2]),
                        private: crate::util::unhex32(f[3]),
                    });
                } else if f[0] == "I" {
                    firsts.lock().unwrap().extend(f[1..].iter().map(|s| s.parse::<u32>().unwrap()));
                }
            }
            for k in &v {
                c.eval(hash(&[&k.public]));
            }
            c.obs("keys of other processes", v.len() as u64);
            rec.lock().unwrap().extend(v);
        });
    }
    ctx.section_t("history", 1, 1, |c| {
        let all = rec.lock().unwrap();
        judge_keys(c, &all);
    });
    // channel ids
    let n_ids = ctx.n(1 << 20, 1 << 24) as usize;
    if !ctx.tiny() {
        ctx.section_t("channel-ids", 3, 3, |c| {
            if c.idx == 2 {
                vclock::set(Some(frozen));
            }
            let ids: Vec<u32> = (0..n_ids).map(|_| new_channel_id()).collect();
            vclock::set(None);
            c.eval_enum(n_ids as u64);
            judge_ids(c, &ids, "one thread");
        });
        ctx.section_t("channel-ids-elsewhere", 1, 1, |c| {
            // 64 threads and the child processes, 512 ids each
            let got: Mutex<Vec<u32>> = Mutex::new(Vec::new());
            std::thread::scope(|s| {
                for _ in 0..64 {
                    s.spawn(|| {
                        vclock::set(Some(frozen));
                        let v: Vec<u32> = (0..512).map(|_| new_channel_id()).collect();
                        got.lock().unwrap().extend(v);
                    });
                }
            });
            let mut ids = got.into_inner().unwrap();
            ids.extend(firsts.lock().unwrap().iter());
            c.eval_enum(ids.len() as u64);
            judge_ids(c, &ids, "threads and processes");
        });
    }
    // given keys are used exactly
    ctx.section("given-keys", ctx.n(8000, 100_000), |c| {
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        c.eval(hash(&[&s, &e]));
        let pro = gen_prologue(&mut c.rng);
        match c.idx % 3 {
            0 => {
                let mut n = NoiseSession::init_session(true, &pro, keypair(&s));
                n.set_ephemeral_keypair(keypair(&e));
                if c.rng.bool() {
                    // a refused attempt must not change the key
                    let k = c.rng.below(32);
                    let _ = n.send_message(&mut c.rng.bytes(k));
                }
                let mut a = c.rng.bytes(64);
                let r = n.send_message(&mut a);
                c.check("given ephemeral key is used", r.is_ok() && k32(&a) == x25519_base(&e), || {
                    format!("given ephemeral {}, the first message shows {}", hex(&x25519_base(&e)), hex(&a[..32]))
                });
            }
            k => {
                // a reference initiator sees both keys of the responder
                let conn = k == 2 && c.rng.bool();
                let given_e = k == 1 && c.rng.chance(3, 4);
                let pro = if k == 1 { pro } else { vec![] };
                let mut p = RefSession::new(true, &pro, gen_priv(&mut c.rng), gen_priv(&mut c.rng));
                let mut a = c.rng.bytes(128);
                p.send(&mut a).unwrap();
                let b = if conn {
                    ConnectionEncryptor::new_inbound(Some(keypair(&s))).recv_handshake(&mut a).ok()
                } else {
                    let mut n = if k == 1 { NoiseSession::init_session(false, &pro, keypair(&s)) } else { new_noise_responder(Some(keypair(&s))) };
                    if given_e {
                        n.set_ephemeral_keypair(keypair(&e));
                    }
                    let mut b = c.rng.bytes(128);
                    (n.recv_message(&mut a).is_ok() && n.send_message(&mut b).is_ok()).then_some(b)
                };
                let b = match b {
                    Some(b) => b,
                    None => {
                        c.fail("given static key is used", "a responder with a given key does not answer a conforming first message".into());
                        return;
                    }
                };
                let e_seen = k32(&b);
                let mut x = b.clone();
                let r = p.recv(&mut x);
                c.check("given static key is used", r.is_ok() && p.rs == Some(x25519_base(&s)), || {
                    format!("given static {}, the reply shows {:?} ({r:?})", hex(&x25519_base(&s)), p.rs.map(|k| hex(&k)))
                });
                if given_e {
                    c.check("given ephemeral key is used", e_seen == x25519_base(&e), || {
                        format!("given ephemeral {}, the reply shows {}", hex(&x25519_base(&e)), hex(&e_seen))
                    });
                } else {
                    c.check("ephemeral differs from the static key", e_seen != x25519_base(&s), || "the reply's ephemeral key is the static key".into());
                }
            }
        }
    });
    if !ctx.tiny() {
        ctx.require(&KINDS);
        ctx.require(&[
            "keys of fresh threads",
            "keys of other processes",
            "generated key never repeats",
            "private key bits are balanced",
            "parts of private keys never repeat",
            "channel ids do not repeat systematically",
            "given ephemeral key is used",
            "given static key is used",
            "ephemeral differs from the static key",
        ]);
    }
}

// ---------------------------------------------------------------- C19

fn mixed_case(r: &mut Rng, s: &str) -> String {
    match r.below(3) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

/// Judges one key at every place where it can enter.
fn judge_key(c: &mut Case, k: &[u8; 32]) {
    c.eval(hash(&[k]));
    let low = low_order(k);
    let text = mixed_case(&mut c.rng, &hex(k));
    let by = PublicKey::from_bytes(*k);
    let tx = PublicKey::from_str(&text);
    if low {
        c.check("low order key refused from bytes", by.is_err(), || format!("PublicKey::from_bytes accepts the low order key {}", hex(k)));
        c.check("low order key refused from text", tx.is_err(), || format!("PublicKey::from_str accepts the low order key {text}"));
    } else if k[31] & 0x80 == 0 {
        for (how, r) in [("from_bytes", by), ("from_str", tx)] {
            c.check("other key accepted", matches!(&r, Ok(p) if p.as_bytes() == *k), || format!("PublicKey::{how} does not accept {}", hex(k)));
        }
    }
    // as ephemeral key of an initiator
    let pro = gen_prologue(&mut c.rng);
    let mut r = NoiseSession::init_session(false, &pro, keypair(&gen_priv(&mut c.rng)));
    let n = 48 + c.rng.below(100);
    let mut a = c.rng.bytes(n);
    a[..32].copy_from_slice(k);
    let keep = a.clone();
    let res = r.recv_message(&mut a);
    let enc = c.rng.chance(1, 3).then(|| {
        let mut e = ConnectionEncryptor::new_inbound(None);
        let mut b = keep.clone();
        b.resize(200, 5);
        (e.recv_handshake(&mut b).is_ok(), e.is_handshake_complete())
    });
    if low {
        c.check("low order ephemeral refused by the responder", res.is_err(), || format!("the responder accepts the low order ephemeral key {}", hex(k)));
        let st = (r.is_transport(), r.get_handshake_hash().is_some());
        c.check("handshake does not complete", st == (false, false), || "transport mode after a refused key".into());
        if let Some(x) = enc {
            c.check("low order ephemeral refused by the responder", x == (false, false), || {
                format!("an inbound connection answers the low order ephemeral key {} (answered, complete: {x:?})", hex(k))
            });
        }
    } else if k[31] & 0x80 == 0 {
        c.check("other ephemeral accepted by the responder", res.is_ok(), || format!("the responder refuses the ephemeral key {}", hex(k)));
        if let Some(x) = enc {
            c.check("other ephemeral accepted by the responder", x == (true, true), || format!("an inbound connection refuses the ephemeral key {}", hex(k)));
        }
    }
}

/// A consistent reply of an attacker who sends low order keys.
fn judge_reply(c: &mut Case, e_low: Option<[u8; 32]>, s_low: Option<[u8; 32]>) {
    let conn = c.rng.chance(1, 3);
    let pro = if conn { vec![] } else { gen_prologue(&mut c.rng) };
    let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let pl = c.rng.below(100);
    let payload = c.rng.bytes(pl);
    let claimed = s_low.unwrap_or_else(|| x25519_base(&s));
    let how = s_low.map(|_| Forge::Es([0; 32]));
    let what = format!("ephemeral {:?}, static {:?}", e_low.map(|k| hex(&k)), s_low.map(|k| hex(&k)));
    let (ok, complete, key);
    if conn {
        let mut o = ConnectionEncryptor::new_outbound();
        let a = match o.init_handshake() {
            Ok(a) => a,
            Err(_) => return c.fail("outbound connection starts", "init_handshake fails".into()),
        };
        let mut b = forge_reply(&pro, &a, &s, &claimed, &e, e_low, &payload, how);
        ok = o.recv_handshake(&mut b).is_ok();
        complete = o.is_handshake_complete();
        key = o.get_remote_pubkey().map(|k| k.as_bytes());
    } else {
        let mut i = NoiseSession::init_session(true, &pro, keypair(&gen_priv(&mut c.rng)));
        let mut a = c.rng.bytes(80);
        if i.send_message(&mut a).is_err() {
            return c.fail("initiator starts", "send_message fails".into());
        }
        let mut b = forge_reply(&pro, &a, &s, &claimed, &e, e_low, &payload, how);
        c.eval(hash(&[&b]));
        ok = i.recv_message(&mut b).is_ok();
        complete = i.is_transport();
        key = i.get_remote_static_public_key().map(|k| k.as_bytes());
    }
    if e_low.is_none() && s_low.is_none() {
        // the control: the same construction with ordinary keys is a genuine reply
        c.check("ordinary reply accepted", ok && complete && key == Some(claimed), || "a reply with ordinary keys is refused".into());
    } else {
        let m = if e_low.is_some() { "low order ephemeral refused by the initiator" } else { "low order static refused by the initiator" };
        c.check(m, !ok && !complete && key.is_none(), || {
            format!("an initiator treats a reply with {what} as valid: result ok {ok}, complete {complete}, remote key {:?}", key.map(|k| hex(&k)))
        });
    }
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("an input is a 32-byte public key given to every entry point (bytes, text, first handshake message, reply): the 14 low order encodings, everything one bit or a small number away from them, keys at the field's edge, constants found in the source, random keys; and for initiators, replies that are consistent except for a low order ephemeral or static key. Distinct by key or reply bytes.");
    if !reference_ok(ctx) {
        return;
    }
    let low = low_order_encodings();
    for k in &low {
        if !low_order(k) {
            ctx.error(format!("{} is not low order", hex(k)));
            return;
        }
    }
    let mut keys: Vec<[u8; 32]> = low.clone();
    for k in &low {
        for bit in 0..256 {
            let mut t = *k;
            t[bit / 8] ^= 1 << (bit % 8);
            keys.push(t);
        }
        for d in 1..=20u8 {
            for up in [true, false] {
                let mut t = *k;
                let mut carry = d as i32 * if up { 1 } else { -1 };
                for b in t.iter_mut() {
                    let v = *b as i32 + carry;
                    *b = (v & 255) as u8;
                    carry = v >> 8;
                }
                keys.push(t);
            }
        }
    }
    // 2^255 - 1 downwards, and small numbers
    for d in 0..64u8 {
        let mut t = [0xffu8; 32];
        t[31] = 0x7f;
        t[0] = 0xff - d;
        keys.push(t);
        let mut t = [0u8; 32];
        t[0] = d;
        keys.push(t);
    }
    // negatives of the low order u coordinates, and byte reversals, are ordinary keys
    for k in &low {
        let mut t = *k;
        t.reverse();
        keys.push(t);
    }
    for b in &crate::dict::dict().bytes {
        let t: [u8; 32] = b[..].try_into().unwrap();
        keys.push(t);
        for bit in [0usize, 7, 128, 254, 255] {
            let mut u = t;
            u[bit / 8] ^= 1 << (bit % 8);
            keys.push(u);
        }
    }
    keys.sort_unstable();
    keys.dedup();
    let n = if ctx.tiny() { 24 } else { keys.len() as u64 };
    let step = keys.len() / n as usize;
    ctx.section("keys", n, |c| {
        let k = keys[c.idx as usize * step];
        c.sample(|| format!("{} low order: {}", hex(&k), low_order(&k)));
        judge_key(c, &k);
    });
    ctx.section("low-order-keys", ctx.n(14 * 60, 14 * 1000), |c| {
        let k = low[c.idx as usize % 14];
        judge_key(c, &k);
    });
    ctx.section("random-keys", ctx.n(8000, 200_000), |c| {
        let mut k = c.rng.arr32();
        match c.rng.below(6) {
            0 => {
                // agrees with a low order key on many bytes
                let l = *c.rng.pick(&low);
                let at = c.rng.below(32);
                k[..at].copy_from_slice(&l[..at]);
            }
            1 => {
                let l = *c.rng.pick(&low);
                let at = c.rng.below(32);
                k[at..].copy_from_slice(&l[at..]);
            }
            2 => {
                let l = *c.rng.pick(&low);
                k = l;
                let at = c.rng.below(32);
                k[at] = c.rng.u8();
            }
            _ => {}
        }
        judge_key(c, &k);
    });
    ctx.section("replies", ctx.n(14 * 15 * 8, 14 * 15 * 200), |c| {
        let i = c.idx as usize % (15 * 15);
        let pick = |j: usize| (j < 14).then(|| low[j]);
        judge_reply(c, pick(i % 15), pick(i / 15));
    });
    ctx.section("replies-ordinary", ctx.n(300, 10_000), |c| judge_reply(c, None, None));
    ctx.require(&[
        "low order key refused from bytes",
        "low order key refused from text",
        "other key accepted",
        "low order ephemeral refused by the responder",
        "other ephemeral accepted by the responder",
        "ordinary reply accepted",
    ]);
    if !ctx.tiny() {
        ctx.require(&["low order ephemeral refused by the initiator", "low order static refused by the initiator"]);
    }
}

// ---------------------------------------------------------------- C20

/// The key that a text denotes, by the definition of hexadecimal.
fn parse_ref(s: &str) -> Option<[u8; 32]> {
    let b = s.as_bytes();
    if b.len() != 64 {
        return None;
    }
    let mut k = [0u8; 32];
    for (i, c) in b.iter().enumerate() {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        k[i / 2] |= d << (4 * (1 - i % 2));
    }
    Some(k)
}

fn judge_text(c: &mut Case, s: &str) {
    let exp = parse_ref(s);
    c.eval(hash(&[s.as_bytes()]));
    let show = || format!("{:?}", s);
    let key = Key::from_str(s);
    c.check("key text accepted exactly", key.is_ok() == exp.is_some(), || format!("Key::from_str({}) ok: {}", show(), key.is_ok()));
    let psk = Psk::from_str(s);
    c.check("key text accepted exactly", psk.is_ok() == exp.is_some(), || format!("Psk::from_str({}) ok: {}", show(), psk.is_ok()));
    let pk = PrivateKey::from_str(s);
    c.check("key text accepted exactly", pk.is_ok() == exp.is_some(), || format!("PrivateKey::from_str({}) ok: {}", show(), pk.is_ok()));
    let pb = PublicKey::from_str(s);
    if let Some(k) = exp {
        let zero = k == [0; 32];
        if let (Ok(a), Ok(b), Ok(p)) = (key, psk, pk) {
            c.check("empty exactly when zero", a.is_empty() == zero && b.is_empty() == zero && p.is_empty() == zero, || {
                format!("is_empty of the key {}: {} {} {}", show(), a.is_empty(), b.is_empty(), p.is_empty())
            });
            c.check("key text denotes its bytes", p == PrivateKey::from_bytes(k), || format!("PrivateKey::from_str({}) differs from from_bytes", show()));
            let g = p.generate_public_key().ok().map(|x| x.as_bytes());
            let e = (!zero).then(|| x25519_base(&k));
            c.check("key text denotes its bytes", g == e, || format!("the public key of {} is {:?}, {:?} expected", show(), g.map(|x| hex(&x)), e.map(|x| hex(&x))));
        }
        if !low_order(&k) && k[31] & 0x80 == 0 {
            c.check("key text denotes its bytes", matches!(&pb, Ok(p) if p.as_bytes() == k), || format!("PublicKey::from_str({})", show()));
        }
        if let Ok(p) = pb {
            c.check("key text denotes its bytes", p.as_bytes() == k && p.is_empty() == zero, || format!("PublicKey::from_str({}) is {}", show(), hex(&p.as_bytes())));
        }
    } else {
        c.check("key text accepted exactly", pb.is_err(), || format!("PublicKey::from_str({}) is accepted", show()));
    }
}

fn judge_pair(c: &mut Case, k: &[u8; 32]) {
    c.eval(hash(&[k]));
    let exp = x25519_base(k);
    let p = PrivateKey::from_bytes(*k);
    c.check("empty exactly when zero", !p.is_empty(), || format!("the private key {} is reported as empty", hex(k)));
    let mut pubs: Vec<(&str, Option<[u8; 32]>)> = vec![
        ("Key::generate_public_key", Some(Key::generate_public_key(k).as_bytes())),
        ("PrivateKey::generate_public_key", p.generate_public_key().ok().map(|x| x.as_bytes())),
        ("Keypair::from_key", Keypair::from_key(p.clone()).ok().map(|x| x.get_public_key().as_bytes())),
    ];
    let kp = Keypair::from_private_key(p.clone()).ok();
    pubs.push(("Keypair::from_private_key", kp.as_ref().map(|x| x.get_public_key().as_bytes())));
    pubs.push(("Keypair::clone", kp.clone().map(|x| x.get_public_key().as_bytes())));
    for (n, g) in pubs {
        c.check("public key is the X25519 public key", g == Some(exp), || {
            format!("{n} of private key {} gives {:?}, X25519 gives {}", hex(k), g.map(|x| hex(&x)), hex(&exp))
        });
    }
    if let Some(kp) = kp {
        c.check("empty exactly when zero", !kp.is_empty(), || format!("the key pair of {} is reported as empty", hex(k)));
        let mut other = *k;
        other[c.rng.below(32)] ^= 1 << c.rng.below(8);
        c.check("different private keys differ", p != PrivateKey::from_bytes(other), || format!("{} equals {}", hex(k), hex(&other)));
        let mut z = kp.clone();
        z.clear();
        c.check("empty exactly when zero", z.is_empty() && z.get_public_key().is_empty(), || "a cleared key pair is not empty".into());
        // the key that its sessions present, proved by a completed handshake
        presents(c, kp, &exp, "given");
    }
}

/// A session with this static key pair proves to a reference initiator that it
/// holds the private key of the public key it claims.
fn presents(c: &mut Case, kp: Keypair, exp: &[u8; 32], what: &str) {
    let mut p = RefSession::new(true, &[], gen_priv(&mut c.rng), gen_priv(&mut c.rng));
    let mut a = c.rng.bytes(64);
    p.send(&mut a).unwrap();
    let given_e = c.rng.bool();
    let e = gen_priv(&mut c.rng);
    let mut n = new_noise_responder(Some(kp));
    if given_e {
        n.set_ephemeral_keypair(keypair(&e));
    }
    let mut b = c.rng.bytes(112);
    let ok = n.recv_message(&mut a).is_ok() && n.send_message(&mut b).is_ok();
    let r = ok.then(|| p.recv(&mut b));
    c.check("sessions present the key of the pair", r == Some(Ok(())) && p.rs == Some(*exp), || {
        format!("{what} key pair with public key {}: a reference initiator obtains {r:?}, key {:?}", hex(exp), p.rs.map(|k| hex(&k)))
    });
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("an input is a private key (random, single bits, edges) with the pairs and sessions made from it, a generated pair, or a text near 64 hexadecimal digits. Distinct by key bytes or text.");
    if !reference_ok(ctx) {
        return;
    }
    ctx.section("pairs", ctx.n(6000, 100_000), |c| {
        let mut k = gen_priv(&mut c.rng);
        if c.idx < 256 {
            k = [0; 32];
            k[c.idx as usize / 8] = 1 << (c.idx % 8);
        } else if c.idx < 512 {
            k = [0xff; 32];
            k[c.idx as usize / 8 % 32] ^= 1 << (c.idx % 8);
        } else if c.idx < 600 {
            // constants from the source
            let d = &crate::dict::dict().bytes;
            if !d.is_empty() {
                k.copy_from_slice(&d[c.idx as usize % d.len()]);
            }
        }
        if k == [0; 32] {
            return;
        }
        c.sample(|| format!("private key {}", hex(&k)));
        judge_pair(c, &k);
    });
    ctx.section("generated-pairs", ctx.n(4000, 60_000), |c| {
        let kp = Keypair::default();
        let p = kp.get_public_key().as_bytes();
        c.eval(hash(&[&p]));
        c.check("empty exactly when zero", !kp.is_empty(), || "a generated key pair is empty".into());
        #[cfg(vp_hooks)]
        c.check("public key is the X25519 public key", x25519_base(&kp.vp_private()) == p, || {
            format!("generated private key {} has public key {}", hex(&kp.vp_private()), hex(&p))
        });
        // the generated pair as ephemeral key of an initiator
        let mut n = NoiseSession::init_session(true, &[], keypair(&[9; 32]));
        n.set_ephemeral_keypair(kp.clone());
        let mut a = c.rng.bytes(64);
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        if n.send_message(&mut a).is_ok() {
            c.check("sessions present the key of the pair", k32(&a) == p, || format!("generated ephemeral {} presented as {}", hex(&p), hex(&a[..32])));
            let mut b = forge_reply(&[], &a, &s, &x25519_base(&s), &e, None, &[1, 2], None);
            let r = n.recv_message(&mut b);
            c.check("sessions present the key of the pair", r.is_ok(), || format!("a session with a generated ephemeral key {} cannot complete: {r:?}", hex(&p)));
        } else {
            c.fail("sessions present the key of the pair", "a session with a generated ephemeral key cannot send".into());
        }
        presents(c, kp, &p, "generated");
    });
    ctx.section_t("empty", 1, 1, |c| {
        c.eval_enum(1);
        let z = PrivateKey::from_bytes([0; 32]);
        c.check("zero private key refused", z.is_empty() && z.generate_public_key().is_err(), || "an all-zero private key has a public key".into());
        for (n, p) in [
            ("empty()", PrivateKey::empty()),
            ("from_bytes(0)", PrivateKey::from_bytes([0; 32])),
            ("from_str(0)", PrivateKey::from_str(&"0".repeat(64)).unwrap_or(PrivateKey::from_bytes([1; 32]))),
        ] {
            c.check("empty exactly when zero", p.is_empty(), || format!("PrivateKey::{n} is not empty"));
            c.check("zero private key refused", Keypair::from_key(p.clone()).is_err(), || format!("Keypair::from_key accepts PrivateKey::{n}"));
            c.check("zero private key refused", Keypair::from_private_key(p.clone()).is_err(), || format!("Keypair::from_private_key accepts PrivateKey::{n}"));
            c.check("zero private key refused", p.generate_public_key().is_err(), || format!("PrivateKey::{n} has a public key"));
        }
        let e = Keypair::new_empty();
        c.check("empty exactly when zero", e.is_empty() && e.get_public_key().is_empty(), || "Keypair::new_empty() is not empty".into());
        c.check("empty exactly when zero", Key::new().is_empty() && Psk::default().is_empty() && PublicKey::empty().is_empty(), || "an empty key is not empty".into());
    });
    // every byte value at every position of a valid text
    ctx.section("text-substitution", ctx.n(64, 64 * 8), |c| {
        let at = c.idx as usize % 64;
        let base = hex(&c.rng.arr32());
        for b in 0..128u8 {
            let mut t = base.clone().into_bytes();
            t[at] = b;
            judge_text(c, &String::from_utf8(t).unwrap());
            if c.failed() {
                return;
            }
        }
    });
    // every character around and inside the text of a key
    ctx.section("text-scalars", if ctx.tiny() { 2 } else { 0x1100 }, |c| {
        let s = hex(&c.rng.arr32());
        for ch in crate::model::scalars(c.idx) {
            let k = c.rng.below(64);
            for t in [format!("{ch}{s}"), format!("{s}{ch}"), format!("{}{ch}{}", &s[..k], &s[k..]), format!("{}{ch}{}", &s[..k], &s[k + 1..])] {
                judge_text(c, &t);
            }
            if c.failed() {
                return;
            }
        }
    });
    ctx.section("text-lengths", ctx.n(300, 3000), |c| {
        let n = c.idx as usize % 150;
        let s: String = (0..n).map(|_| *c.rng.pick(&['0', '9', 'a', 'F', 'c', '1'])).collect();
        judge_text(c, &s);
    });
    ctx.section("texts", ctx.n(20_000, 400_000), |c| {
        let k = match c.rng.below(6) {
            0 => [0; 32],
            1 => {
                let mut k = [0; 32];
                k[c.rng.below(32)] = 1 << c.rng.below(8);
                k
            }
            2 => *c.rng.pick(&low_order_encodings()),
            _ => c.rng.arr32(),
        };
        let s = mixed_case(&mut c.rng, &hex(&k));
        c.sample(|| s.clone());
        judge_text(c, &s);
        let t = match c.rng.below(10) {
            0 => format!("0x{s}"),
            1 => format!("0x{}", &s[2..]),
            2 => format!(" {s}"),
            3 => format!("{s}\n"),
            4 => format!("{s}{s}"),
            5 => format!("{}{}", &s[..63], c.rng.pick(&["é", "０", "ａ", "\u{0}", "g", "G", " ", "٣"])),
            6 => {
                let at = c.rng.below(63);
                // replaces two digits by one two-byte character
                format!("{}{}{}", &s[..at], c.rng.pick(&["é", "ß", "٣", "Ａ"]), &s[at + 2..])
            }
            7 => {
                let at = c.rng.below(64);
                let mut t = s.clone();
                t.insert(at, *c.rng.pick(&['_', ':', '-', ' ', '0', 'f']));
                t
            }
            8 => {
                let at = c.rng.below(64);
                let mut t = s.clone();
                t.remove(at);
                t
            }
            _ => crate::model::near_text(&mut c.rng, &s),
        };
        judge_text(c, &t);
    });
    ctx.require(&[
        "public key is the X25519 public key",
        "sessions present the key of the pair",
        "key text accepted exactly",
        "key text denotes its bytes",
        "zero private key refused",
        "empty exactly when zero",
    ]);
}

// ---------------------------------------------------------------- C29

/// What is known about a connection, from its calls alone.
struct Conn {
    e: ConnectionEncryptor,
    outbound: bool,
    /// bytes of the two handshake messages as this end saw them
    sent: Option<Vec<u8>>,
    got: Option<Vec<u8>>,
    complete: bool,
    /// a rejected handshake message leaves the connection in an unspecified state
    spoiled: bool,
    /// what later handshake calls returned, which are transport messages
    out: Vec<Vec<u8>>,
    key: Option<[u8; 32]>,
}
impl Conn {
    fn outbound() -> Conn {
        Conn { e: ConnectionEncryptor::new_outbound(), outbound: true, sent: None, got: None, complete: false, spoiled: false, out: vec![], key: None }
    }
    fn inbound(key: Option<[u8; 32]>) -> Conn {
        Conn {
            e: ConnectionEncryptor::new_inbound(key.map(|k| keypair(&k))),
            outbound: false,
            sent: None,
            got: None,
            complete: false,
            spoiled: false,
            out: vec![],
            key: key.map(|k| x25519_base(&k)),
        }
    }
    fn status(&mut self, c: &mut Case) {
        let got = self.e.is_handshake_complete();
        let exp = self.complete;
        let side = if self.outbound { "outbound" } else { "inbound" };
        c.check("completion reported exactly", got == exp, || format!("the {side} connection reports complete: {got}, {exp} expected"));
        if !exp {
            let k = self.e.get_remote_pubkey();
            c.check("no remote key before completion", k.is_none(), || format!("the {side} connection reports a remote key before completion"));
        }
    }
    fn init(&mut self, c: &mut Case) -> Option<Vec<u8>> {
        let r = self.e.init_handshake();
        if self.spoiled && !self.outbound {
            // unspecified: the half-answered first message may be answered now
            if !self.complete && self.e.is_handshake_complete() {
                self.complete = true;
                self.sent = r.as_ref().ok().cloned();
            }
            return r.ok();
        }
        let first = self.outbound && self.sent.is_none() && !self.complete;
        if first {
            c.check("outbound connection starts", r.is_ok(), || "init_handshake of a new outbound connection fails".into());
            if let Ok(a) = &r {
                self.sent = Some(a.clone());
            }
        } else if !self.complete {
            c.check("out of turn start refused", r.is_err(), || "init_handshake out of turn is answered with bytes".into());
        }
        self.status(c);
        r.ok()
    }
    /// Delivers bytes. `genuine`: they are the peer's reply to this end's first message.
    fn recv(&mut self, c: &mut Case, b: &[u8], genuine: bool) -> Option<Vec<u8>> {
        let mut buf = b.to_vec();
        c.eval(hash(&[b, &[self.outbound as u8, self.complete as u8, self.sent.is_some() as u8]]));
        let r = self.e.recv_handshake(&mut buf);
        c.obs("handshake bytes answered with bytes or an error", 1);
        if self.complete {
            // transport messages from here on; an error must not undo completion
            if let Ok(x) = &r {
                self.out.push(x.clone());
            }
            self.status(c);
            return r.ok();
        }
        if self.spoiled {
            // unspecified, but an outbound connection never completes on foreign bytes
            if self.outbound && !genuine {
                c.check("outbound never completes on other bytes", r.is_err() && !self.e.is_handshake_complete(), || {
                    format!("after a rejected reply, an outbound connection accepts {}", hexs(b))
                });
            }
            if !self.outbound && r.is_err() {
                c.check("completion reported exactly", !self.e.is_handshake_complete(), || "an inbound connection that never answered reports completion".into());
            }
            if self.e.is_handshake_complete() {
                self.complete = true;
                self.got = Some(b.to_vec());
            }
            return r.ok();
        }
        if self.outbound {
            if genuine {
                c.check("genuine reply completes", r.is_ok(), || format!("an outbound connection rejects a genuine reply of {} bytes: {:?}", b.len(), r.as_ref().err().map(|e| e.to_string())));
                if r.is_ok() {
                    self.complete = true;
                    self.got = Some(b.to_vec());
                }
            } else {
                c.check("outbound never completes on other bytes", r.is_err() && !self.e.is_handshake_complete(), || {
                    format!("an outbound connection accepts {} (first message sent: {})", hexs(b), self.sent.is_some())
                });
                if self.sent.is_some() && b.len() >= 96 {
                    self.spoiled = true;
                }
            }
        } else {
            let low = b.len() >= 32 && low_order(&k32(b));
            if b.len() < 96 || b.len() > 65535 || low {
                c.check("unusable first message refused", r.is_err(), || format!("an inbound connection answers a first message of {} bytes (low order key: {low})", b.len()));
                if b.len() >= 48 && b.len() <= 65535 {
                    self.spoiled = true;
                    self.got = Some(b.to_vec());
                }
            } else if b[31] & 0x80 == 0 {
                c.check("first message answered", r.is_ok(), || format!("an inbound connection refuses a well-formed first message of {} bytes", b.len()));
            }
            if r.is_ok() {
                self.complete = true;
                self.got = Some(b.to_vec());
                self.sent = r.as_ref().ok().cloned();
            }
        }
        // also when refused: without an answer on the wire there is no handshake
        self.status(c);
        r.ok()
    }
    fn remote(&self) -> Option<[u8; 32]> {
        self.e.get_remote_pubkey().map(|k| k.as_bytes())
    }
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("an input is a call of init_handshake or recv_handshake on a connection encryptor within a history of such calls on several connections: undisturbed exchanges, every bit flipped and every truncation of both messages, cross deliveries, replays, reflections, arbitrary bytes, calls out of turn. Distinct by bytes delivered and connection state.");
    if !reference_ok(ctx) {
        return;
    }
    // undisturbed exchanges
    ctx.section("exchanges", ctx.n(4000, 80_000), |c| {
        let given = c.rng.chance(2, 3).then(|| gen_priv(&mut c.rng));
        let mut o = Conn::outbound();
        let mut i = Conn::inbound(given);
        o.status(c);
        i.status(c);
        // calls that are out of turn are refused and change nothing
        if c.rng.chance(1, 4) {
            i.init(c);
        }
        if c.rng.chance(1, 4) {
            let n = c.rng.below(200);
            let b = c.rng.bytes(n);
            o.recv(c, &b, false);
        }
        let a = match o.init(c) {
            Some(a) => a,
            None => return,
        };
        if c.rng.chance(1, 4) {
            o.init(c);
        }
        if c.rng.chance(1, 4) {
            i.init(c);
        }
        let b = match i.recv(c, &a, false) {
            Some(b) => b,
            None => return c.fail("both ends complete", "the inbound connection refuses the outbound's first message".into()),
        };
        let fin = o.recv(c, &b, true);
        c.check("both ends complete", o.e.is_handshake_complete() && i.e.is_handshake_complete() && fin.is_some(), || "an undisturbed exchange does not complete both connections".into());
        let k = o.remote();
        c.check("remote key reported", k.is_some() && (given.is_none() || k == i.key), || {
            format!("the outbound connection reports {:?}; configured {:?}", k.map(|x| hex(&x)), i.key.map(|x| hex(&x)))
        });
        c.sample(|| format!("exchange with static key {:?}: reported {:?}", i.key.map(|x| hex(&x)), k.map(|x| hex(&x))));
        // what the outbound end said last is a message for the inbound end
        if let Some(f) = fin {
            if f.len() >= 16 {
                let before = i.e.is_handshake_complete();
                i.recv(c, &f, false);
                c.check("completion is kept", before == i.e.is_handshake_complete(), || "completion lost".into());
            }
        }
        for _ in 0..3 {
            let n = c.rng.below(300);
            let x = c.rng.bytes(n);
            let (r1, r2) = (o.recv(c, &x, false), i.recv(c, &x, false));
            c.check("foreign bytes refused after completion", r1.is_none() && r2.is_none(), || format!("a completed connection answers foreign bytes {}", hexs(&x)));
            c.check("remote key reported", o.remote() == k, || "the reported remote key changes".into());
        }
    });
    // with a reference peer, all lengths
    ctx.section("reference-responder", ctx.n(2500, 40_000), |c| {
        let mut o = Conn::outbound();
        let a = match o.init(c) {
            Some(a) => a,
            None => return,
        };
        let (s, e) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let n = match c.idx % 4 {
            0 => c.rng.below(300),
            1 => (c.idx as usize / 4) % 700,
            2 => 65535 - 96 - c.rng.below(20),
            _ => c.rng.below(3000),
        };
        let payload = c.rng.bytes(n);
        let b = forge_reply(&[], &a, &s, &x25519_base(&s), &e, None, &payload, None);
        o.recv(c, &b, true);
        let k = o.remote();
        c.check("remote key reported", k == Some(x25519_base(&s)), || format!("remote key {:?} instead of {}", k.map(|x| hex(&x)), hex(&x25519_base(&s))));
    });
    ctx.section("reference-initiator", ctx.n(2500, 40_000), |c| {
        let s = gen_priv(&mut c.rng);
        let mut i = Conn::inbound(Some(s));
        let mut p = RefSession::new(true, &[], gen_priv(&mut c.rng), gen_priv(&mut c.rng));
        let n = match c.idx % 4 {
            0 => 96 + c.rng.below(300),
            1 => 32 + (c.idx as usize / 4) % 700,
            2 => 65535 - c.rng.below(20),
            _ => 1024,
        };
        let mut a = c.rng.bytes(n);
        if p.send(&mut a).is_err() {
            return;
        }
        if let Some(mut b) = i.recv(c, &a, false) {
            let r = p.recv(&mut b);
            c.check("reply is genuine", r.is_ok() && p.rs == Some(x25519_base(&s)), || {
                format!("a reference initiator rejects the reply to a first message of {n} bytes: {r:?}, key {:?}", p.rs.map(|k| hex(&k)))
            });
        }
    });
    // modified replies
    ctx.section("modified", ctx.n(24, 800), |c| {
        let s = gen_priv(&mut c.rng);
        let e = gen_priv(&mut c.rng);
        let n = c.rng.below(40);
        let payload = c.rng.bytes(n);
        let total = (96 + n) * 8;
        let step = if c.ctx.tiny() { total / 4 } else { 1 };
        let mut bit = 0;
        while bit < total {
            let mut o = Conn::outbound();
            let a = match o.init(c) {
                Some(a) => a,
                None => return,
            };
            let mut b = forge_reply(&[], &a, &s, &x25519_base(&s), &e, None, &payload, None);
            b[bit / 8] ^= 1 << (bit % 8);
            o.recv(c, &b, false);
            if c.failed() {
                return;
            }
            bit += step;
        }
    });
    ctx.section("modified-exchange", ctx.n(3000, 60_000), |c| {
        // a genuine pair whose messages an attacker changes
        let mut o = Conn::outbound();
        let mut i = Conn::inbound(None);
        let a = match o.init(c) {
            Some(a) => a,
            None => return,
        };
        let mut a2 = a.clone();
        let change_a = c.rng.bool();
        if change_a {
            match c.rng.below(3) {
                0 => a2[c.rng.below(a.len())] ^= 1 << c.rng.below(8),
                1 => a2.truncate(c.rng.below(a.len())),
                _ => {
                    let n = 1 + c.rng.below(64);
                    a2.extend(c.rng.bytes(n));
                }
            }
        }
        let b = match i.recv(c, &a2, false) {
            Some(b) => b,
            None => return,
        };
        let mut b2 = b.clone();
        let change_b = !change_a || c.rng.bool();
        if change_b {
            match c.rng.below(6) {
                0 => b2[c.rng.below(b.len())] ^= 1 << c.rng.below(8),
                1 => b2.truncate(c.rng.below(b.len())),
                2 => {
                    let n = 1 + c.rng.below(64);
                    b2.extend(c.rng.bytes(n));
                }
                3 => b2 = a.clone(),
                4 => {
                    let x = c.rng.below(b.len());
                    let y = c.rng.below(b.len());
                    b2.swap(x, y);
                }
                _ => {
                    let n = [96, b.len(), 200][c.rng.below(3)];
                    b2 = c.rng.bytes(n);
                }
            }
        }
        let genuine = a2 == a && b2 == b;
        o.recv(c, &b2, genuine);
        if !genuine && c.rng.bool() {
            // whatever follows, other bytes do not complete it
            let x = if c.rng.bool() { b2.clone() } else { c.rng.bytes(128) };
            o.recv(c, &x, a2 == a && x == b);
        }
    });
    // forged by an attacker without the claimed static key
    ctx.section("forged", ctx.n(1500, 30_000), |c| {
        let mut o = Conn::outbound();
        let a = match o.init(c) {
            Some(a) => a,
            None => return,
        };
        let (s, e, claimed) = (gen_priv(&mut c.rng), gen_priv(&mut c.rng), x25519_base(&gen_priv(&mut c.rng)));
        let z = c.rng.arr32();
        if claimed == x25519_base(&s) {
            return; // not a forgery
        }
        let how = *c.rng.pick(&[
            None,
            Some(Forge::Es([0; 32])),
            Some(Forge::Es(z)),
            Some(Forge::NoEs),
            Some(Forge::Swapped),
            Some(Forge::PlainStatic),
            Some(Forge::PlainPayload),
            Some(Forge::NoHashStatic),
            Some(Forge::NoHashPayload),
            Some(Forge::NoMixE),
            Some(Forge::Ee([0; 32])),
            Some(Forge::NonceStatic),
            Some(Forge::NoncePayload),
            Some(Forge::NoMixS),
        ]);
        let n = c.rng.below(60);
        let p = c.rng.bytes(n);
        let b = forge_reply(&[], &a, &s, &claimed, &e, None, &p, how);
        o.recv(c, &b, false);
    });
    // several connections, messages delivered anywhere
    ctx.section("histories", ctx.n(2500, 60_000), |c| {
        let n = 2 + c.rng.below(3);
        let mut os: Vec<Conn> = (0..n).map(|_| Conn::outbound()).collect();
        let mut is: Vec<Conn> = (0..n)
            .map(|_| {
                let k = c.rng.bool().then(|| gen_priv(&mut c.rng));
                Conn::inbound(k)
            })
            .collect();
        let mut wire: Vec<Vec<u8>> = Vec::new();
        for _ in 0..(6 + c.rng.below(20)) {
            let x = c.rng.below(n);
            match c.rng.below(10) {
                0..=2 => {
                    if let Some(a) = os[x].init(c) {
                        wire.push(a);
                    }
                }
                3 => {
                    is[x].init(c);
                }
                4 => {
                    let m = c.rng.below(1100);
                    let b = c.rng.bytes(m);
                    let r = if c.rng.bool() { os[x].recv(c, &b, false) } else { is[x].recv(c, &b, false) };
                    wire.extend(r);
                }
                5 | 6 => {
                    if let Some(w) = (!wire.is_empty()).then(|| wire[c.rng.below(wire.len())].clone()) {
                        wire.extend(is[x].recv(c, &w, false));
                    }
                }
                _ => {
                    if let Some(w) = (!wire.is_empty()).then(|| wire[c.rng.below(wire.len())].clone()) {
                        let genuine = os[x].sent.is_some() && is.iter().any(|i| i.sent.as_ref() == Some(&w) && i.got == os[x].sent);
                        let was = os[x].complete;
                        wire.extend(os[x].recv(c, &w, genuine));
                        if !was && os[x].complete {
                            c.obs("completion within a history", 1);
                            let key = is.iter().find(|i| i.sent.as_ref() == Some(&w)).and_then(|i| i.key);
                            let k = os[x].remote();
                            c.check("remote key reported", k.is_some() && (key.is_none() || k == key), || "wrong remote key in a history".into());
                        }
                    }
                }
            }
            if c.failed() {
                return;
            }
        }
    });
    // arbitrary bytes of every length
    ctx.section("arbitrary", ctx.n(6000, 120_000), |c| {
        let n = if c.rng.chance(1, 60) { 65000 + c.rng.below(2000) } else { c.idx as usize % 1400 };
        let mut b = c.rng.bytes(n);
        if c.rng.chance(1, 8) {
            b.fill([0, 0xff, 0x80][c.rng.below(3)]);
        }
        let mut i = Conn::inbound(None);
        i.recv(c, &b, false);
        let m = c.rng.below(200);
        let again = c.rng.bytes(m);
        i.recv(c, &again, false);
        let mut o = Conn::outbound();
        if c.rng.bool() {
            o.init(c);
        }
        o.recv(c, &b, false);
        o.recv(c, &again, false);
    });
    ctx.require(&[
        "both ends complete",
        "remote key reported",
        "completion reported exactly",
        "no remote key before completion",
        "outbound never completes on other bytes",
        "out of turn start refused",
        "genuine reply completes",
        "reply is genuine",
        "unusable first message refused",
        "first message answered",
        "handshake bytes answered with bytes or an error",
    ]);
    if ctx.tier != Tier::Tiny {
        ctx.require(&["completion within a history"]);
    }
}
