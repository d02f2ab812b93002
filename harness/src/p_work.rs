//! Monitor for C35: work stays in proportion to the data, and does not grow with history.

use crate::ctx::{guard, Case, Caught, Ctx, Tier};
use crate::model::{enc, gen, hostile, plain, Kind, Val};
use crate::p_cert::issue;
use crate::p_noise::{gen_priv, keypair};
use crate::p_peer::Plain;
use crate::subjects::*;
use crate::util::{hash, hex, Rng};
use crate::vclock;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk, PublicKey};
use std::io::{self, Write};
use std::str::FromStr;
use stratumv2::codec::{deserialize, serialize, ByteParser, Deserializable, Message, Serializable};
use stratumv2::common::SetupConnectionErrorCode;
use stratumv2::mining::OpenMiningChannelErrorCode;
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage};
use stratumv2::types::{B0_16M, B0_64K, STR0_255, STR0_32};

/// CPU time of this thread, in nanoseconds.
fn cpu() -> u64 {
    #[cfg(not(miri))]
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
    #[cfg(miri)]
    0
}
/// How often this thread gave up the processor to wait for something.
fn waits() -> u64 {
    #[cfg(not(miri))]
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        u.ru_nvcsw as u64
    }
    #[cfg(miri)]
    0
}

type Op = Box<dyn FnMut()>;

// ------------------------------------------------------- growth with the data

/// What is done with `n` bytes (or items); prepared outside of the measurement.
struct Load {
    name: String,
    /// smallest and largest amount of data
    from: usize,
    to: usize,
    /// the step between amounts of data
    by: usize,
    /// more than this much CPU time per byte or item needs an explanation
    ns: u64,
    prepare: Box<dyn Fn(&mut Rng, usize) -> Op + Sync>,
}

fn load(name: impl Into<String>, to: usize, prepare: impl Fn(&mut Rng, usize) -> Op + Sync + 'static) -> Load {
    Load { name: name.into(), from: 1024, to, by: 4, ns: NS_PER_BYTE, prepare: Box::new(prepare) }
}

/// A writer that takes few bytes at a time and counts its calls.
struct Slow {
    step: usize,
    calls: u64,
    bytes: u64,
}
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.calls % 7 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = b.len().min(self.step);
        self.bytes += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn joined(r: &mut Rng) -> (NoiseSession, NoiseSession) {
    let mut i = NoiseSession::init_session(true, b"p", keypair(&gen_priv(r)));
    let mut s = NoiseSession::init_session(false, b"p", keypair(&gen_priv(r)));
    let mut b = r.bytes(200);
    let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok() && s.send_message(&mut b).is_ok() && i.recv_message(&mut b).is_ok();
    (i, s)
}

const RUNS: [&str; 12] = [" ", "0", "\0", "\n", "-", "0x", ":", " a", "a-", "_", "\u{a0}", "=="];
fn text(r: &mut Rng, n: usize, kind: usize) -> String {
    match kind {
        0 => hex(&r.bytes(n / 2 + 1)),
        1 => "1".repeat(n),
        2 => (0..n).map(|_| *r.pick(b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz") as char).collect(),
        3 => "\u{fffd}".repeat(n / 3 + 1),
        // runs of what may be skipped, replaced or collapsed
        k if k > 4 => {
            let x = RUNS[k - 5];
            let mut t = x.repeat(n / x.len() + 1);
            if r.bool() {
                t.push_str(&hex(&r.arr32()));
            }
            t
        }
        _ => (0..n).map(|_| r.u8() as char).collect(),
    }
}

fn loads() -> Vec<Load> {
    let mut v: Vec<Load> = vec![];
    const M: usize = 1 << 20;
    for s in subjects() {
        v.push(load(format!("decoding {} after {}", s.name, s.name), M, move |r, n| {
            let mut b = Vec::with_capacity(n + 300);
            let few: Vec<Vec<u8>> = (0..8).map(|k| if k == 0 { enc(&s.kind, &plain(&s.kind)) } else { small(r, &s.kind) }).collect();
            let mut k = 0;
            while b.len() < n {
                b.extend_from_slice(&few[k % 8]);
                k += 1;
            }
            Box::new(move || {
                (s.consume)(&b);
            })
        }));
        v.push(load(format!("encoding {} after {}", s.name, s.name), M, move |r, n| {
            let val = gen_small(r, &s.kind);
            let one = enc(&s.kind, &val).len().max(1);
            Box::new(move || {
                let mut w = Vec::new();
                let _ = (s.produce)(&val, n / one + 1, &mut w);
            })
        }));
        v.push(load(format!("decoding {} before much else", s.name), M, move |r, n| {
            let mut b = small(r, &s.kind);
            b.extend_from_slice(&r.bytes(n));
            Box::new(move || {
                (s.decode_drop)(&b);
            })
        }));
        v.push(load(format!("decoding malformed {}", s.name), M, move |r, n| {
            let mut b = hostile(r, &s.kind);
            b.truncate(n);
            let m = n - b.len();
            b.extend_from_slice(&if r.bool() { r.bytes(m) } else { vec![0xff; m] });
            Box::new(move || {
                if let Err(e) = (s.decode_at)(&b, 0) {
                    let _ = format!("{e} {e:?}");
                }
            })
        }));
        if let Some(u) = s.unframe {
            v.push(load(format!("unframing {} from a long payload", s.name), M, move |r, n| {
                let val = gen_small(r, &s.kind);
                let mut m = (s.frame.unwrap())(&val).unwrap_or(Message::new(MT_V[0], vec![]));
                m.payload.extend_from_slice(&r.bytes(n));
                Box::new(move || {
                    let _ = u(&m).is_ok();
                })
            }));
        }
    }
    macro_rules! blob {
        ($t:ident, $max:expr) => {
            v.push(load(concat!("decoding ", stringify!($t)), $max, |r, n| {
                let b = enc_blob(r, n, $max);
                Box::new(move || {
                    let _ = deserialize::<$t>(&b).is_ok();
                })
            }));
            v.push(load(concat!("encoding ", stringify!($t)), $max, |r, n| {
                let t = $t::new(r.bytes(n.min($max)));
                Box::new(move || {
                    let _ = t.as_ref().map(|t| serialize(t).is_ok());
                })
            }));
            v.push(load(concat!("encoding ", stringify!($t), " byte by byte"), $max, |r, n| {
                let t = $t::new(r.bytes(n.min($max)));
                Box::new(move || {
                    let mut w = Slow { step: 1, calls: 0, bytes: 0 };
                    let _ = t.as_ref().map(|t| t.serialize(&mut w).is_ok());
                })
            }));
            v.push(load(concat!("comparing and copying ", stringify!($t)), $max, |r, n| {
                let t = $t::new(r.bytes(n.min($max)));
                Box::new(move || {
                    if let Ok(t) = &t {
                        let u = t.clone();
                        let _ = *t == u && u.data == t.data && u == u.data;
                    }
                })
            }));
            v.push(load(concat!("showing ", stringify!($t)), $max / 8, |r, n| {
                let t = $t::new(r.bytes(n.min($max)));
                Box::new(move || {
                    let _ = t.as_ref().map(|t| format!("{t:?}").len());
                })
            }));
        };
    }
    blob!(B0_64K, (1 << 16) - 1);
    blob!(B0_16M, (1 << 24) - 1);
    v.push(load("encoding a message", (1 << 24) - 1, |r, n| {
        let m = Message::new(MT_V[r.below(MT_V.len())], r.bytes(n));
        Box::new(move || {
            let _ = serialize(&m).is_ok();
        })
    }));
    v.push(load("encoding a message byte by byte", 1 << 22, |r, n| {
        let m = Message::new(MT_V[r.below(MT_V.len())], r.bytes(n));
        let step = 1 + r.below(3);
        Box::new(move || {
            let _ = m.serialize(&mut Slow { step, calls: 0, bytes: 0 }).is_ok();
        })
    }));
    v.push(load("decoding a message", (1 << 24) - 1, |r, n| {
        let b = serialize(&Message::new(MT_V[r.below(MT_V.len())], r.bytes(n))).unwrap_or_default();
        Box::new(move || {
            let _ = deserialize::<Message>(&b).is_ok();
        })
    }));
    v.push(load("decoding messages one after another", 1 << 22, |r, n| {
        let mut b = Vec::new();
        while b.len() < n {
            let k = r.below(40);
            b.extend_from_slice(&serialize(&Message::new(MT_V[r.below(MT_V.len())], r.bytes(k))).unwrap_or(vec![0]));
        }
        Box::new(move || {
            let mut p = ByteParser::new(&b, 0);
            let mut k = 0;
            while k < b.len() && Message::deserialize(&mut p).is_ok() {
                k += 1;
            }
        })
    }));
    v.push(load("comparing and copying a message", 1 << 24, |r, n| {
        let m = Message::new(MT_V[r.below(MT_V.len())], r.bytes(n));
        Box::new(move || {
            let _ = m.clone() == m;
        })
    }));
    v.push(load("parsing in small steps", 1 << 22, |r, n| {
        let b = r.bytes(n);
        Box::new(move || {
            let mut p = ByteParser::new(&b, 0);
            let mut k = 0;
            while k < b.len() && p.next_by(1 + k % 3).is_ok() {
                k += 1;
            }
        })
    }));
    v.push(load("parsing with refused steps", 1 << 20, |r, n| {
        let b = r.bytes(n);
        Box::new(move || {
            let mut p = ByteParser::new(&b, 0);
            let mut k = 0;
            while k < b.len() && p.next_by(8).is_ok() {
                let _ = p.next_by(b.len() + 1).is_err();
                k += 1;
            }
        })
    }));
    // sessions: a message has at most 65535 bytes
    const N: usize = 65535;
    for (name, dir) in [("sending", 0), ("receiving", 1), ("refusing", 2)] {
        v.push(load(format!("{name} a transport message"), N, move |r, n| {
            let (mut i, mut s) = joined(r);
            let mut b = r.bytes(n);
            Box::new(move || match dir {
                0 => {
                    let _ = i.send_message(&mut b).is_ok();
                }
                1 => {
                    let _ = i.send_message(&mut b).is_ok();
                    let _ = s.recv_message(&mut b).is_ok();
                }
                _ => {
                    let _ = s.recv_message(&mut b).is_ok();
                }
            })
        }));
    }
    for (name, steps) in [("sending the first handshake message", 1), ("receiving the first handshake message", 2), ("a whole handshake", 4)] {
        v.push(load(name, N, move |r, n| {
            let (a, b) = (gen_priv(r), gen_priv(r));
            let pay = r.bytes(n);
            Box::new(move || {
                let mut i = NoiseSession::init_session(true, b"", keypair(&a));
                let mut s = NoiseSession::init_session(false, b"", keypair(&b));
                let mut m = pay.clone();
                let _ = i.send_message(&mut m).is_ok()
                    && steps > 1
                    && s.recv_message(&mut m).is_ok()
                    && steps > 2
                    && s.send_message(&mut m).is_ok()
                    && i.recv_message(&mut m).is_ok();
            })
        }));
    }
    v.push(load("a session with a long prologue", 1 << 22, |r, n| {
        let (k, p) = (gen_priv(r), r.bytes(n));
        Box::new(move || drop(NoiseSession::init_session(true, &p, keypair(&k))))
    }));
    v.push(load("a connection's handshake message", N, |r, n| {
        let pay = r.bytes(n);
        Box::new(move || {
            let mut c = ConnectionEncryptor::new_inbound(None);
            let _ = c.recv_handshake(&mut pay.clone()).is_ok();
        })
    }));
    // texts
    for kind in 0..5 + RUNS.len() {
        v.push(load(format!("keys from long text {kind}"), 1 << 22, move |r, n| {
            let t = text(r, n, kind);
            Box::new(move || {
                let _ = (Key::from_str(&t).is_ok(), Psk::from_str(&t).is_ok(), PrivateKey::from_str(&t).is_ok(), PublicKey::from_str(&t).is_ok());
            })
        }));
        v.push(load(format!("codes and strings from long text {kind}"), 1 << 22, move |r, n| {
            let t = text(r, n, kind);
            Box::new(move || {
                let _ = (SetupConnectionErrorCode::from_str(&t).is_ok(), OpenMiningChannelErrorCode::from_str(&t).is_ok());
                let _ = (STR0_32::new(t.as_str()).is_ok(), STR0_255::new(t.as_str()).is_ok());
            })
        }));
        v.push(load(format!("an authority key from long text {kind}"), 1 << 20, move |r, n| {
            let (t, x) = (text(r, n, kind), issue(r));
            Box::new(move || {
                if let Err(e) = CertificateFormat::new(&t, &x.pk, &x.msg) {
                    let _ = format!("{e} {e:?}");
                }
            })
        }));
    }
    v.push(load("refusing long data", 1 << 25, |r, n| {
        let b = r.bytes(n);
        Box::new(move || {
            let _ = (B0_64K::new(b.as_slice()).is_ok(), B0_16M::new(b.as_slice()).is_ok());
            let _ = deserialize::<SignatureNoiseMessage>(&b).is_ok();
        })
    }));
    v.push(load("queueing and draining messages", 1 << 19, |r, n| {
        let m = Message::new(MT_V[r.below(MT_V.len())], r.bytes(3));
        Box::new(move || {
            let p = Peer::new(Plain(1));
            for _ in 0..n {
                if let Ok(mut q) = p.pending_msg_buffer.lock() {
                    q.push(m.clone());
                }
            }
            drop(p.get_pending_msgs());
            drop(p.get_pending_msgs());
        })
    }));
    // many objects alive at once
    let many = |name: &'static str, ns: u64, make: fn(&mut Rng) -> Box<dyn std::any::Any>| Load {
        name: name.into(),
        from: 64,
        to: 1 << 14,
        by: 4,
        ns,
        prepare: Box::new(move |r, n| {
            let mut r = r.clone();
            Box::new(move || {
                let all: Vec<_> = (0..n).map(|_| make(&mut r)).collect();
                drop(all);
            })
        }),
    };
    v.push(many("live sessions", 400_000, |r| {
        let i = r.bool();
        Box::new(NoiseSession::init_session(i, &r.bytes(8), Keypair::new_empty()))
    }));
    v.push(many("live queues", 4_000, |r| {
        let p = Peer::new(Plain(r.u64()));
        p.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[r.below(MT_V.len())], vec![1]));
        drop(p.get_pending_msgs());
        Box::new(p)
    }));
    v.push(many("live values", 20_000, |r| {
        let s = r.pick(subjects());
        let b = small(r, &s.kind);
        Box::new((s.decode_at)(&b, 0).is_ok())
    }));
    v.push(load("draining a message of much data", 1 << 24, |r, n| {
        let m = Message::new(MT_V[r.below(MT_V.len())], r.bytes(n));
        Box::new(move || {
            let p = Peer::new(Plain(1));
            p.pending_msg_buffer.lock().unwrap().push(m.clone());
            drop(p.get_pending_msgs());
        })
    }));
    v
}

fn gen_small(r: &mut Rng, k: &Kind) -> Val {
    for _ in 0..20 {
        let v = gen(r, k);
        if enc(k, &v).len() <= 300 {
            return v;
        }
    }
    plain(k)
}
fn small(r: &mut Rng, k: &Kind) -> Vec<u8> {
    enc(k, &gen_small(r, k))
}
fn enc_blob(r: &mut Rng, n: usize, max: usize) -> Vec<u8> {
    let n = n.min(max);
    let mut b = (n as u32).to_le_bytes()[..if max > 65535 { 3 } else { 2 }].to_vec();
    b.extend_from_slice(&r.bytes(n));
    b
}

/// The least CPU time of several runs.
fn least(op: &mut Op, runs: usize) -> u64 {
    (0..runs)
        .map(|_| {
            let t = cpu();
            op();
            cpu() - t
        })
        .min()
        .unwrap_or(0)
}
const NS_PER_BYTE: u64 = 30;
const FLOOR_NS: u64 = 500_000;
fn steep(l: &Load, n: usize, t: u64, before: u64, by: usize) -> bool {
    // between linear and quadratic, well above the caches' and the allocator's steps
    let limit = (by as f64).powf(1.55);
    t > FLOOR_NS && t > l.ns * n as u64 && t as f64 > limit * before.max(1) as f64
}

/// What grows out of proportion, if anything does.
fn grow(c: &mut Case, l: &Load, top: usize) -> Option<String> {
    let top = top.min(l.to);
    let seed = c.rng.u64();
    let at = |n: usize| (l.prepare)(&mut Rng::new(seed), n);
    let mut before = None;
    let mut n = l.from;
    let mut series = vec![];
    while n <= top {
        let t = least(&mut at(n), if n <= 1 << 16 { 3 } else { 2 });
        c.obs("amounts of data measured", 1);
        c.obs("bytes and items processed", n as u64);
        c.eval(hash(&[l.name.as_bytes(), &(n as u64).to_le_bytes(), &seed.to_le_bytes()]));
        series.push((n, t));
        if let Some((m, b)) = before {
            let by = n / m;
            if steep(l, n, t, b, by) {
                // both are measured again, alternately: only a lasting difference counts
                let (mut lo, mut hi) = (at(m), at(n));
                let (mut b, mut t) = (b, t);
                for _ in 0..6 {
                    t = t.min(least(&mut hi, 1));
                    b = b.max(least(&mut lo, 3));
                }
                c.obs("suspicions examined", 1);
                if steep(l, n, t, b, by) {
                    return Some(format!("{}: {b} ns of CPU time for {m} bytes or items, {t} ns for {n} (all: {series:?})", l.name));
                }
            }
        }
        // what takes seconds shows its growth already
        if t > 3_000_000_000 {
            break;
        }
        before = Some((n, t));
        n = if n * l.by > top && n < top && top - n > n { top } else { n * l.by };
    }
    if c.idx % 9 == 4 {
        c.sample(|| format!("{}: {series:?}", l.name));
    }
    None
}

// ------------------------------------------------------- growth with history

type Use = Box<dyn FnMut(&mut Rng)>;
struct Habit {
    name: &'static str,
    /// uses per block
    m: usize,
    start: fn(&mut Rng) -> Use,
}

fn habits() -> Vec<Habit> {
    fn h(name: &'static str, m: usize, start: fn(&mut Rng) -> Use) -> Habit {
        Habit { name, m, start }
    }
    vec![
        h("messages sent and received in one session", 300, |r| {
            let (mut i, mut s) = joined(r);
            Box::new(move |r| {
                let mut b = [r.u8(); 40];
                let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok();
            })
        }),
        h("messages refused in one session", 300, |r| {
            let (_, mut s) = joined(r);
            Box::new(move |r| {
                let mut b: [u8; 32] = r.arr32();
                let _ = s.recv_message(&mut b).is_ok();
            })
        }),
        h("short messages refused in one session", 600, |r| {
            let (mut i, mut s) = joined(r);
            Box::new(move |r| {
                let n = r.below(16);
                let mut b = [0u8; 16];
                let _ = s.recv_message(&mut b[..n]).is_ok();
                let _ = i.send_message(&mut b[..n]).is_ok();
            })
        }),
        h("rekeyings of one session", 200, |r| {
            let (mut i, mut s) = joined(r);
            Box::new(move |_| {
                i.rekey_local_cipherstate();
                s.rekey_remote_cipherstate();
            })
        }),
        h("questions to one session", 600, |r| {
            let (i, s) = joined(r);
            Box::new(move |_| {
                let _ = (i.get_handshake_hash(), s.get_remote_static_public_key().is_some(), s.is_transport(), i.get_message_count());
            })
        }),
        h("questions to one session after ever more messages", 40, |r| {
            let (mut i, mut s) = joined(r);
            Box::new(move |r| {
                let mut b = [r.u8(); 40];
                let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok();
                for x in [&i, &s] {
                    for _ in 0..20 {
                        let _ = std::hint::black_box((x.get_handshake_hash(), x.get_remote_static_public_key().is_some(), x.is_transport(), x.get_message_count()));
                    }
                }
            })
        }),
        h("first messages refused by one session", 100, |r| {
            let mut s = NoiseSession::init_session(false, b"", keypair(&gen_priv(r)));
            Box::new(move |r| {
                let n = r.below(48);
                let _ = s.recv_message(&mut r.bytes(n)).is_ok();
                let _ = s.send_message(&mut r.bytes(n)).is_ok();
            })
        }),
        h("replies refused by one session", 20, |r| {
            let mut i = NoiseSession::init_session(true, b"", keypair(&gen_priv(r)));
            let _ = i.send_message(&mut [0; 100]);
            Box::new(move |r| {
                let _ = i.recv_message(&mut r.bytes(120)).is_ok();
            })
        }),
        h("replies refused by one connection", 20, |_| {
            let mut o = ConnectionEncryptor::new_outbound();
            let _ = o.init_handshake();
            Box::new(move |r| {
                let _ = o.recv_handshake(&mut r.bytes(120)).is_ok();
            })
        }),
        h("short messages refused by one connection", 300, |_| {
            let mut o = ConnectionEncryptor::new_inbound(None);
            Box::new(move |r| {
                let n = r.below(32);
                let _ = o.recv_handshake(&mut r.bytes(n)).is_ok();
            })
        }),
        h("messages through one queue", 600, |_| {
            let p = Peer::new(Plain(1));
            Box::new(move |r| {
                let n = r.below(20);
                p.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[r.below(MT_V.len())], r.bytes(n)));
                if r.bool() {
                    drop(p.get_pending_msgs());
                }
            })
        }),
        h("messages left in one queue", 600, |_| {
            let p = Peer::new(Plain(1));
            Box::new(move |r| {
                p.pending_msg_buffer.lock().unwrap().push(Message::new(MT_V[r.below(MT_V.len())], vec![1]));
            })
        }),
        h("drains of an empty queue", 2000, |_| {
            let p = Peer::new(Plain(1));
            Box::new(move |_| drop(p.get_pending_msgs()))
        }),
        h("sessions", 4, |_| {
            Box::new(move |r| {
                let (mut i, mut s) = joined(r);
                let mut b = [1; 32];
                let _ = i.send_message(&mut b).is_ok() && s.recv_message(&mut b).is_ok();
                i.end_session();
            })
        }),
        h("connections", 4, |_| {
            Box::new(move |r| {
                let mut o = ConnectionEncryptor::new_outbound();
                let mut n = ConnectionEncryptor::new_inbound(if r.bool() { Some(keypair(&gen_priv(r))) } else { None });
                let mut a = o.init_handshake().unwrap_or_default();
                let mut b = n.recv_handshake(&mut a).unwrap_or_default();
                let _ = o.recv_handshake(&mut b).is_ok();
            })
        }),
        h("connections without a handshake", 10, |_| {
            Box::new(move |_| drop((ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(None))))
        }),
        h("certificates verified", 8, |_| {
            Box::new(move |r| {
                let x = issue(r);
                vclock::set(Some((x.msg.valid_from as i64, 0)));
                let _ = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
                vclock::set(None);
            })
        }),
        h("certificates refused", 8, |_| {
            Box::new(move |r| {
                let mut x = issue(r);
                x.msg.version ^= 1;
                vclock::set(Some((x.msg.valid_from as i64, 0)));
                let _ = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
                vclock::set(None);
            })
        }),
        h("the same certificate verified", 10, |r| {
            let x = issue(r);
            Box::new(move |_| {
                vclock::set(Some((x.msg.valid_from as i64, 0)));
                let _ = CertificateFormat::new(&x.text, &x.pk, &x.msg).and_then(|f| f.verify()).is_ok();
                vclock::set(None);
            })
        }),
        h("key pairs", 20, |_| Box::new(move |_| drop(Keypair::default()))),
        h("keys refused", 400, |_| {
            Box::new(move |r| {
                let n = r.below(80);
                let t = text(r, n, 4);
                let _ = (PrivateKey::from_str(&t).is_ok(), PublicKey::from_str(&t).is_ok());
            })
        }),
        h("values decoded", 300, |_| {
            Box::new(move |r| {
                let s = r.pick(subjects());
                (s.consume)(&small(r, &s.kind));
            })
        }),
        h("values encoded", 300, |_| {
            Box::new(move |r| {
                let s = r.pick(subjects());
                let _ = s.encode(&gen_small(r, &s.kind)).is_ok();
            })
        }),
        h("malformed values refused", 300, |_| {
            Box::new(move |r| {
                let s = r.pick(subjects());
                let b = r.bytes(30);
                if let Err(e) = (s.decode_at)(&b, 0) {
                    let _ = format!("{e} {e:?}");
                }
            })
        }),
        h("messages framed and unframed", 300, |_| {
            Box::new(move |r| {
                let s = *r.pick(&messages());
                let v = gen_small(r, &s.kind);
                let _ = (s.frame.unwrap())(&v).map(|m| (s.unframe.unwrap())(&m).is_ok());
            })
        }),
        h("channel numbers", 2000, |_| {
            Box::new(move |_| {
                let _ = stratumv2::network::new_channel_id();
            })
        }),
    ]
}

/// A fixed amount of the harness's own work: how fast the processor is at the moment.
fn yardstick() -> u64 {
    let t = cpu();
    let mut h = 0u64;
    let b = [7u8; 4096];
    for _ in 0..8 {
        h ^= crate::util::hash(&[&b, &h.to_le_bytes()]);
    }
    std::hint::black_box(h);
    (cpu() - t).max(1)
}

struct Pace {
    /// least CPU time of a block
    ns: u64,
    /// least time of the yardstick meanwhile
    yard: u64,
}
fn pace(r: &mut Rng, f: &mut Use, m: usize, blocks: usize) -> Pace {
    let (mut ns, mut yard) = (u64::MAX, u64::MAX);
    for _ in 0..blocks {
        yard = yard.min(yardstick());
        let mut q = r.clone();
        *r = Rng::new(r.u64());
        let t = cpu();
        for _ in 0..m {
            f(&mut q);
        }
        ns = ns.min(cpu() - t);
    }
    Pace { ns: ns.max(1), yard }
}

fn history(c: &mut Case, h: &Habit, blocks: usize) {
    let mut r = Rng::new(c.rng.u64());
    let mut f = (h.start)(&mut r);
    let w = waits();
    pace(&mut r, &mut f, h.m, 2); // fill caches
    let early = pace(&mut r, &mut f, h.m, 6);
    let mut last = early.ns;
    for _ in 0..blocks / 6 {
        last = pace(&mut r, &mut f, h.m, 6).ns;
    }
    let slowed = |p: &Pace| {
        // the processor itself may be slower now
        let drift = (p.yard as f64 / early.yard as f64).max(1.0);
        p.ns as f64 > 4.0 * drift * early.ns as f64 && p.ns > early.ns + 300 * h.m as u64
    };
    let mut late = Pace { ns: last, yard: early.yard };
    let mut slow = slowed(&late);
    for _ in 0..5 {
        if slow {
            c.obs("suspicions examined", 1);
            late = pace(&mut r, &mut f, h.m, 10);
            slow = slowed(&late);
        }
    }
    let uses = (h.m * (8 + blocks / 6 * 6)) as u64;
    let waited = waits() - w;
    c.eval(hash(&[h.name.as_bytes(), &uses.to_le_bytes(), &c.idx.to_le_bytes()]));
    c.obs("uses in histories", uses);
    c.check("no slower with history", !slow, || {
        format!("{}: {} of them took {} ns of CPU time at first and {} ns after {uses} more", h.name, h.m, early.ns, late.ns)
    });
    c.check("no waiting", waited < uses / 4 + 50, || format!("{}: the thread waited {waited} times in {uses} of them", h.name));
    c.sample(|| format!("{}: {} of them took {} ns at first, {} ns after {uses}", h.name, h.m, early.ns, last));
}

pub fn c35(ctx: &Ctx) {
    ctx.rule("an input is an operation with an amount of data (bytes of input, prologue, payload, text; queued messages), growing from 1 KiB in factors of four, or one with a history of as many uses before it. Monitored are the thread's CPU time (the least of several runs) and how often it waits. Distinct by operation, amount and contents.");
    if cfg!(miri) {
        return;
    }
    let l = loads();
    let top = if ctx.tiny() { 1 << 14 } else { usize::MAX };
    ctx.section_t("growth", l.len() as u64 * ctx.n(1, 3), 6, |c| {
        let bad = grow(c, &l[c.idx as usize % l.len()], top);
        c.check("work in proportion to the data", bad.is_none(), || bad.unwrap_or_default());
    });
    // the monitor notices what it is there for
    ctx.section_t("control", 1, 1, |c| {
        let q = load("moving the rest for each of the harness's pieces", 1 << 20, |r, n| {
            let b = r.bytes(n);
            Box::new(move || {
                let mut rest = b.clone();
                while rest.len() > 16 {
                    rest.drain(..16);
                    std::hint::black_box(&rest);
                }
            })
        });
        if grow(c, &q, usize::MAX).is_some() {
            c.obs("control: quadratic work is noticed", 1);
        }
    });
    // one after another: a process-wide history is everybody's
    let h = habits();
    let blocks = if ctx.tiny() { 6 } else if ctx.tier == Tier::Thorough { 3000 } else { 300 };
    ctx.section_t("histories", h.len() as u64, 1, |c| {
        let x = &h[c.idx as usize];
        history(c, x, blocks)
    });
    // the length that an input claims costs nothing by itself
    ctx.section_t("claims", 3 * ctx.n(4, 40), 1, |c| {
        let have = c.rng.below(40);
        let tail = c.rng.bytes(have);
        let kind = c.idx as usize % 3;
        let mt = MT_V[c.rng.below(MT_V.len())];
        let cost = |n: u32| {
            let n = n.to_le_bytes();
            let mut b = match kind {
                0 => n[..3].to_vec(),
                1 => n[..2].to_vec(),
                _ => serialize(&Message::new(mt, vec![])).unwrap_or_default()[..].iter().take(3).chain(&n[..3]).copied().collect(),
            };
            b.extend_from_slice(&tail);
            let mut op: Op = Box::new(move || {
                let _ = match kind {
                    0 => deserialize::<B0_16M>(&b).is_ok(),
                    1 => deserialize::<B0_64K>(&b).is_ok(),
                    _ => deserialize::<Message>(&b).is_ok(),
                };
            });
            least(&mut op, 20)
        };
        let most = if kind == 1 { 0xffff } else { 0xff_ffff };
        let (a, b) = (cost(41), cost(most - c.rng.below(100) as u32));
        c.eval(hash(&[b"claim", &[kind as u8], &tail]));
        c.check("claims cost nothing", b < 30 * a + 200_000, || format!("refusing {} bytes that claim {most} took {b} ns of CPU time, {a} ns when they claim 41", have));
    });
    // the number of calls a writer sees
    ctx.section_t("writer-calls", subjects().len() as u64 * ctx.n(4, 40), 4, |c| {
        let s = &subjects()[c.idx as usize % subjects().len()];
        let v = gen(&mut c.rng, &s.kind);
        let step = 1 + c.rng.below(9);
        let mut w = Slow { step, calls: 0, bytes: 0 };
        let r = guard(|| (s.encode_to)(&v, &mut w));
        if let Err(Caught::Harness(e)) = r {
            return c.ctx.error(e);
        }
        c.eval(hash(&[s.name.as_bytes(), v.show().as_bytes(), &step.to_le_bytes()]));
        // one call per piece, one more per interruption, and a few per field
        let limit = 2 * (w.bytes + 8 * enc(&s.kind, &v).len() as u64) + 64;
        c.check("writer calls in proportion", w.calls <= limit, || format!("{} of {} bytes took {} calls of a writer taking {step} bytes", s.name, w.bytes, w.calls));
    });
    if !ctx.tiny() {
        ctx.require(&["control: quadratic work is noticed"]);
    }
    ctx.require(&["work in proportion to the data", "no slower with history", "no waiting", "claims cost nothing", "writer calls in proportion"]);
}
