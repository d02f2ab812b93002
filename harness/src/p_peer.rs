//! Monitors for concurrency: C24 (message queue histories), C25 (no interference).

use crate::alloc;
use crate::ctx::{guard, Case, Caught, Ctx};
use crate::util::{hash, hex, Fnv, Rng};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex};
use stratumv2::codec::Message;
use stratumv2::error::Result as SResult;
use stratumv2::network::{ConnectionEncryptor, Encryptor, Peer};

/// An encryptor with a recognisable state.
pub struct Plain(pub u64);
impl Encryptor for Plain {
    fn is_handshake_complete(&self) -> bool {
        false
    }
    fn recv_handshake(&mut self, b: &mut [u8]) -> SResult<Vec<u8>> {
        Ok(b.to_vec())
    }
    fn init_handshake(&mut self) -> SResult<Vec<u8>> {
        Ok(vec![])
    }
    fn encrypt_message(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
    fn decrypt_message(b: &[u8]) -> Vec<u8> {
        b.to_vec()
    }
}

fn types() -> &'static [stratumv2::types::MessageType] {
    &crate::subjects::MT_V
}

/// A message that tells who queued it; the pattern shows any change.
fn message(peer: usize, uid: u64) -> Message {
    let t = types();
    let n = (uid % 7) as usize * 5;
    let mut p = Vec::with_capacity(16 + n);
    p.extend_from_slice(&uid.to_le_bytes());
    p.extend_from_slice(&(peer as u64).to_le_bytes());
    for i in 0..n {
        p.push((uid as u8).wrapping_mul(31).wrapping_add(i as u8));
    }
    Message::new(t[(uid % t.len() as u64) as usize], p)
}

// ---------------------------------------------------------------- C24

struct Push {
    uid: u64,
    /// place in the queue's order, taken while holding the queue lock
    ticket: u64,
    /// logical time after the push
    done: u64,
}
struct Drain {
    call: u64,
    ret: u64,
    got: Vec<Message>,
}
struct Log {
    pushes: Vec<Vec<Push>>,
    drains: Vec<Vec<Drain>>,
}

static CLOCK: AtomicU64 = AtomicU64::new(1);
fn tick() -> u64 {
    CLOCK.fetch_add(1, SeqCst)
}

/// Offline checker: the history of one queue against the sequential queue.
fn judge_queue(c: &mut Case, peer: usize, pushes: &[Push], mut drains: Vec<Drain>) {
    let mut by_uid = std::collections::HashMap::new();
    for p in pushes {
        by_uid.insert(p.uid, p);
    }
    // tickets of each drain
    let mut seen = vec![None; pushes.len()];
    let mut ranges: Vec<(u64, u64, usize)> = Vec::new();
    for (d, dr) in drains.iter().enumerate() {
        let mut last: Option<u64> = None;
        for m in &dr.got {
            let uid = if m.payload.len() >= 8 { u64::from_le_bytes(m.payload[..8].try_into().unwrap()) } else { u64::MAX };
            let p = match by_uid.get(&uid) {
                Some(p) => *p,
                None => {
                    c.fail("drained message was queued", format!("queue {peer}: a drain returned a message nobody queued here: {:?} {}", m.message_type, hex(&m.payload)));
                    return;
                }
            };
            if !c.check("drained message is unmodified", *m == message(peer, uid), || format!("queue {peer}: message {uid} came back as {:?} {}", m.message_type, hex(&m.payload))) {
                return;
            }
            let t = p.ticket as usize;
            let prev = seen[t].replace(d);
            if !c.check("message returned once", prev.is_none(), || {
                format!("queue {peer}: message {uid} (place {t}) was returned by two drains ({prev:?} and {d} of {})", drains.len())
            }) {
                return;
            }
            if !c.check("drain keeps the queue order", last.map_or(true, |l| p.ticket == l + 1), || {
                format!("queue {peer}: a drain returned place {} after place {:?}", p.ticket, last)
            }) {
                return;
            }
            last = Some(p.ticket);
        }
        if let (Some(f), Some(l)) = (dr.got.first(), last) {
            let f = by_uid[&u64::from_le_bytes(f.payload[..8].try_into().unwrap())].ticket;
            ranges.push((f, l, d));
        }
    }
    if let Some(t) = seen.iter().position(|s| s.is_none()) {
        c.fail(
            "no message lost",
            format!("queue {peer}: the message at place {t} of {} was never returned although the queue was drained at the end", pushes.len()),
        );
        return;
    }
    c.obs("no message lost", seen.len() as u64);
    // a drain returns everything queued before it: a message whose push returned
    // before drain A was called must not come out of a drain called after A returned
    let mut done_of = vec![0u64; pushes.len()];
    for p in pushes {
        done_of[p.ticket as usize] = p.done;
    }
    for (f, l, d2) in &ranges {
        let oldest = (*f..=*l).map(|t| done_of[t as usize]).min().unwrap();
        // the latest call among drains that returned before d2 was called
        let call2 = drains[*d2].call;
        let late = drains.iter().enumerate().filter(|(_, a)| a.ret < call2).map(|(i, a)| (a.call, i)).max();
        if let Some((call1, d1)) = late {
            if !c.check("drain returns everything queued before it", oldest > call1, || {
                format!("queue {peer}: a message queued before drain {d1} was called was left in the queue and returned by the later drain {d2}")
            }) {
                return;
            }
        }
    }
    // the order of drains: one called after another returned takes later places
    ranges.sort();
    for w in ranges.windows(2) {
        let (a, b) = (w[0].2, w[1].2);
        c.check("drains take the queue in order", !(drains[b].ret < drains[a].call), || {
            format!("queue {peer}: places {}.. were returned before places {}..", w[1].0, w[0].0)
        });
    }
    drains.clear();
}

/// Threads of a running history, for the deadlock detector.
struct Watch {
    tids: Vec<AtomicU64>,
    finished: AtomicU64,
    ops: AtomicU64,
    over: AtomicBool,
}

/// Two samples in which every unfinished worker sleeps, with no operation, no CPU
/// time and no context switch between them, 20 s apart: they wait for each other.
#[cfg(not(miri))]
fn asleep(w: &Watch) -> Option<Vec<(u64, String, String)>> {
    let mut v = Vec::new();
    for t in &w.tids {
        let tid = t.load(SeqCst);
        if tid == 0 {
            continue; // finished, or not started
        }
        let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
        let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
        let rest = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        if f[0] != "S" && f[0] != "D" {
            return None;
        }
        let sw: String = st.lines().filter(|l| l.contains("ctxt")).collect();
        v.push((tid, format!("{} {}", f[11], f[12]), sw));
    }
    (!v.is_empty()).then_some(v)
}

fn history(c: &mut Case, big: bool) {
    let npeers = 1 + c.rng.below(3);
    let (np, nd) = if big { (4, 2) } else { (1 + c.rng.below(5), 1 + c.rng.below(4)) };
    let per = if c.ctx.tiny() {
        4 + c.rng.below(4)
    } else if big {
        4000
    } else {
        1 + c.rng.below(60)
    };
    let peers: Vec<Peer<Plain>> = (0..npeers).map(|i| Peer::new(Plain(i as u64))).collect();
    let tickets: Vec<AtomicU64> = (0..npeers).map(|_| AtomicU64::new(0)).collect();
    let bar = Barrier::new(np + nd);
    let log: Mutex<Vec<Log>> = Mutex::new(Vec::new());
    let pushing = AtomicU64::new(np as u64);
    let watch = Watch { tids: (0..np + nd).map(|_| AtomicU64::new(0)).collect(), finished: AtomicU64::new(0), ops: AtomicU64::new(0), over: AtomicBool::new(false) };
    let seeds: Vec<u64> = (0..np + nd).map(|_| c.rng.u64() | 1).collect();
    let panics: Mutex<Vec<Caught>> = Mutex::new(Vec::new());
    let delays = AtomicU64::new(0);
    let mut stuck = false;
    std::thread::scope(|s| {
        for w in 0..np + nd {
            let (peers, tickets, bar, log, pushing, watch, panics, seed, delays) = (&peers, &tickets, &bar, &log, &pushing, &watch, &panics, seeds[w], &delays);
            s.spawn(move || {
                #[cfg(not(miri))]
                watch.tids[w].store(crate::ctx::gettid(), SeqCst);
                let mut r = Rng::new(seed);
                let mut l = Log { pushes: (0..npeers).map(|_| vec![]).collect(), drains: (0..npeers).map(|_| vec![]).collect() };
                let d0 = alloc::delays();
                bar.wait();
                let res = guard(|| {
                    if w < np {
                        for k in 0..per {
                            let p = r.below(npeers);
                            let uid = (w as u64) << 32 | k as u64;
                            let m = message(p, uid);
                            let ticket;
                            {
                                let mut q = peers[p].pending_msg_buffer.lock().unwrap();
                                ticket = tickets[p].fetch_add(1, SeqCst);
                                if r.chance(1, 16) {
                                    std::thread::yield_now();
                                }
                                q.push(m);
                            }
                            let done = tick();
                            l.pushes[p].push(Push { uid, ticket, done });
                            watch.ops.fetch_add(1, Relaxed);
                            pause(&mut r);
                        }
                    } else {
                        if r.bool() {
                            alloc::chaos(seed);
                        }
                        loop {
                            let more = pushing.load(SeqCst) > 0;
                            let p = r.below(npeers);
                            let call = tick();
                            let got = peers[p].get_pending_msgs();
                            let ret = tick();
                            l.drains[p].push(Drain { call, ret, got });
                            watch.ops.fetch_add(1, Relaxed);
                            if !more {
                                break;
                            }
                            pause(&mut r);
                            if big {
                                std::thread::yield_now();
                            }
                        }
                        alloc::chaos(0);
                    }
                });
                alloc::chaos(0);
                if w < np {
                    pushing.fetch_sub(1, SeqCst);
                }
                delays.fetch_add(alloc::delays() - d0, Relaxed);
                if let Err(e) = res {
                    panics.lock().unwrap().push(e);
                }
                log.lock().unwrap().push(l);
                watch.tids[w].store(0, SeqCst);
                watch.finished.fetch_add(1, SeqCst);
            });
        }
        #[cfg(not(miri))]
        {
            let mut prev: Option<(u64, Vec<(u64, String, String)>, std::time::Instant)> = None;
            let mut nap = 20u64;
            while watch.finished.load(SeqCst) < (np + nd) as u64 {
                std::thread::sleep(std::time::Duration::from_micros(nap));
                nap = (nap * 2).min(500_000);
                if nap < 100_000 {
                    continue;
                }
                let ops = watch.ops.load(SeqCst);
                match (asleep(&watch), &prev) {
                    (Some(v), Some((o, pv, t))) if *o == ops && *pv == v => {
                        if t.elapsed().as_secs() >= 20 {
                            stuck = true;
                            break;
                        }
                    }
                    (Some(v), _) => prev = Some((ops, v, std::time::Instant::now())),
                    (None, _) => prev = None,
                }
            }
            if stuck {
                c.fail(
                    "draining never blocks forever",
                    format!("{np} queueing and {nd} draining threads on {npeers} queues sleep forever (20 s without operation, CPU time or context switch)"),
                );
                // the threads cannot be ended: report now
                std::process::exit(c.ctx.finish());
            }
        }
    });
    watch.over.store(true, SeqCst);
    for e in panics.into_inner().unwrap() {
        match e {
            Caught::Subject(s) => c.fail("no-panic", s),
            Caught::Harness(s) => c.ctx.error(s),
        }
    }
    if c.failed() {
        return;
    }
    // what is left, taken by a last drain, after which the queue is empty
    let logs = log.into_inner().unwrap();
    let mut pushes: Vec<Vec<Push>> = (0..npeers).map(|_| vec![]).collect();
    let mut drains: Vec<Vec<Drain>> = (0..npeers).map(|_| vec![]).collect();
    for l in logs {
        for (i, p) in l.pushes.into_iter().enumerate() {
            pushes[i].extend(p);
        }
        for (i, d) in l.drains.into_iter().enumerate() {
            drains[i].extend(d);
        }
    }
    for (i, p) in peers.iter().enumerate() {
        let call = tick();
        let got = p.get_pending_msgs();
        let ret = tick();
        drains[i].push(Drain { call, ret, got });
        c.check("drained queue is empty", p.pending_msg_buffer.lock().unwrap().is_empty() && p.get_pending_msgs().is_empty(), || "a drained queue is not empty".into());
        c.check("draining leaves the rest alone", p.setup_conn_msg.is_none() && p.encryptor.0 == i as u64, || "draining changed the connection".into());
    }
    // the interleaving seen: who queued in which order, and where drains cut
    let mut f = Fnv::new();
    let mut nonempty = 0;
    for i in 0..npeers {
        let mut t: Vec<(u64, u64)> = pushes[i].iter().map(|p| (p.ticket, p.uid >> 32)).collect();
        t.sort_unstable();
        for (_, w) in t {
            f.mix(w);
        }
        for d in &drains[i] {
            f.mix(d.got.len() as u64 + 1000);
            nonempty += !d.got.is_empty() as u64;
        }
    }
    c.eval(f.0);
    c.obs("push events", pushes.iter().map(|p| p.len() as u64).sum());
    c.obs("drain events", drains.iter().map(|p| p.len() as u64).sum());
    c.obs("drains that returned messages", nonempty);
    c.obs("delays injected in drains", delays.load(Relaxed));
    c.sample(|| {
        format!(
            "{np} queueing threads, {nd} draining threads, {npeers} queues: {} messages, drain sizes {:?}",
            pushes.iter().map(|p| p.len()).sum::<usize>(),
            drains.iter().map(|d| d.iter().map(|x| x.got.len()).filter(|n| *n > 0).take(12).collect::<Vec<_>>()).collect::<Vec<_>>()
        )
    });
    for (i, d) in drains.into_iter().enumerate() {
        judge_queue(c, i, &pushes[i], d);
        if c.failed() {
            return;
        }
    }
}
fn pause(r: &mut Rng) {
    match r.below(8) {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..r.below(400) {
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

pub fn c24(ctx: &Ctx) {
    ctx.rule("an input is a history: 1-5 threads queue messages on 1-3 connections while 1-4 threads drain them, with delays injected between and (through the allocator) inside operations; every push and drain is recorded and the history is checked offline against a sequential queue. Distinct by the order of queueing threads and the sizes of the drains (the interleaving observed).");
    ctx.assume("users queue a message by pushing it onto the locked buffer, as the structure's documentation says; a panic while holding the lock (poisoning) is outside the property");
    // one thread, any backlog
    let sizes: Vec<usize> = {
        let mut v: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10_000, 10_001, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100_000, 100_001];
        if ctx.tiny() {
            v.truncate(8);
        } else {
            v.extend(crate::dict::dict().upto(5000).iter().map(|x| *x as usize));
        }
        if ctx.tier == crate::ctx::Tier::Thorough {
            v.extend([131_072, 131_073, 250_000, 500_000, 1_000_000, 1_048_577]);
        }
        v.sort_unstable();
        v.dedup();
        v
    };
    ctx.section("backlog", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize];
        let p = Peer::new(Plain(9));
        c.check("new connection is empty", p.setup_conn_msg.is_none() && p.pending_msg_buffer.lock().unwrap().is_empty() && p.get_pending_msgs().is_empty(), || "a new connection is not empty".into());
        for k in 0..n {
            p.pending_msg_buffer.lock().unwrap().push(message(0, k as u64));
        }
        let got = p.get_pending_msgs();
        c.eval_enum(1);
        c.check("drain returns the whole backlog", got.len() == n, || format!("a drain returned {} of {n} messages", got.len()));
        let bad = got.iter().enumerate().find(|(k, m)| **m != message(0, *k as u64));
        c.check("drained message is unmodified", bad.is_none(), || format!("message {:?} of {n} is out of place or modified", bad.map(|b| b.0)));
        c.check("drained queue is empty", p.pending_msg_buffer.lock().unwrap().is_empty() && p.get_pending_msgs().is_empty(), || "the queue is not empty after a drain".into());
    });
    // random sequences of one thread on several connections against a list
    ctx.section("sequential", ctx.n(3000, 60_000), |c| {
        let n = 1 + c.rng.below(3);
        let peers: Vec<Peer<ConnectionEncryptor>> = (0..n)
            .map(|_| Peer::new(if c.rng.bool() { ConnectionEncryptor::new_outbound() } else { ConnectionEncryptor::new_inbound(None) }))
            .collect();
        let mut model: Vec<Vec<Message>> = vec![vec![]; n];
        let mut h = Fnv::new();
        for p in &peers {
            c.check("new connection is empty", p.setup_conn_msg.is_none() && p.get_pending_msgs().is_empty(), || "a new connection is not empty".into());
        }
        let steps = if c.ctx.tiny() { 12 } else { 40 };
        for _ in 0..steps {
            let p = c.rng.below(n);
            let op = c.rng.below(8);
            h.mix((p * 10 + op) as u64);
            if op < 5 {
                let k = 1 + c.rng.below(4);
                let mut q = peers[p].pending_msg_buffer.lock().unwrap();
                for _ in 0..k {
                    // repeated and empty messages are messages, too
                    let m = match c.rng.below(4) {
                        0 => Message::new(types()[0], vec![]),
                        1 => message(p, 1),
                        _ => {
                            let n = c.rng.below(50);
                            let t = *c.rng.pick(types());
                            Message::new(t, c.rng.bytes(n))
                        }
                    };
                    q.push(m.clone());
                    model[p].push(m);
                }
            } else {
                let got = peers[p].get_pending_msgs();
                let exp = std::mem::take(&mut model[p]);
                if !c.check("drain equals the sequential queue", got == exp, || {
                    format!("a drain returned {} messages, {} expected, or in another order", got.len(), exp.len())
                }) {
                    return;
                }
            }
        }
        c.eval(h.0);
    });
    let t = if ctx.tiny() || cfg!(vp_tsan) { 1 } else { 3 };
    ctx.section_t("histories", if cfg!(miri) { ctx.k(2) } else { ctx.n(1500, 60_000) }, t, |c| history(c, false));
    if !ctx.tiny() {
        ctx.section_t("long-histories", ctx.n(12, 400), 1, |c| history(c, true));
    }
    ctx.require(&["push events", "drain events", "no message lost", "drained message is unmodified", "new connection is empty", "drain equals the sequential queue"]);
    if !ctx.tiny() {
        ctx.require(&["drains that returned messages", "drain returns everything queued before it", "delays injected in drains"]);
    }
}

// ---------------------------------------------------------------- C25

use crate::model::{gen, hostile, mutate};
use crate::p_cert::Issued;
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate};
use crate::p_noise::{gen_priv, gen_prologue, keypair};
use crate::subjects::{subjects, Subject};
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, PublicKey};
use std::str::FromStr;

enum State {
    Codec,
    Noise { i: NoiseSession, r: NoiseSession, n: u32, last: Vec<u8> },
    Cert { issued: Option<Issued> },
    Keys,
    Conn { o: ConnectionEncryptor, n: ConnectionEncryptor, wire: Vec<u8>, n_step: u32 },
    Queue { p: Peer<Plain>, next: u64 },
}
pub const JOB_KINDS: [&str; 6] = ["codec", "noise session", "certificate", "keys", "connection", "queue"];

/// A computation on objects of its own, cut into steps; what it computed so far.
pub struct Job {
    id: u64,
    kind: usize,
    rng: Rng,
    left: u32,
    state: State,
    out: Fnv,
    pub trace: Vec<u64>,
}

impl Job {
    pub fn new(seed: u64, id: u64, steps: u32) -> Job {
        let mut rng = Rng::of(seed, "c25", id);
        // (signature arithmetic is too slow to interpret)
        let kind = if cfg!(miri) && id % 6 == 2 { 0 } else { (id % 6) as usize };
        let state = match kind {
            0 => State::Codec,
            1 => {
                let pro = gen_prologue(&mut rng);
                let mk = |init: bool, rng: &mut Rng| {
                    let mut s = NoiseSession::init_session(init, &pro, keypair(&gen_priv(rng)));
                    s.set_ephemeral_keypair(keypair(&gen_priv(rng)));
                    s
                };
                let (i, r) = (mk(true, &mut rng), mk(false, &mut rng));
                State::Noise { i, r, n: 0, last: vec![] }
            }
            2 => State::Cert { issued: None },
            3 => State::Keys,
            4 => State::Conn { o: ConnectionEncryptor::new_outbound(), n: ConnectionEncryptor::new_inbound(Some(keypair(&gen_priv(&mut rng)))), wire: vec![], n_step: 0 },
            _ => State::Queue { p: Peer::new(Plain(id)), next: 0 },
        };
        Job { id, kind, rng, left: steps, state, out: Fnv::new(), trace: vec![] }
    }
    fn note(&mut self, parts: &[&[u8]]) {
        self.out.mix(hash(parts));
    }
    pub fn step(&mut self) -> bool {
        if self.left == 0 {
            return false;
        }
        self.left -= 1;
        match guard(|| self.step_()) {
            Ok(()) => {}
            Err(Caught::Subject(s)) => {
                self.out.mix(hash(&[b"panic", s.as_bytes()]));
                self.left = 0;
            }
            Err(Caught::Harness(s)) => panic!("{s}"),
        }
        self.trace.push(self.out.0);
        self.left > 0
    }
    fn step_(&mut self) {
        let mut rng = self.rng.clone();
        let mut outs: Vec<Vec<u8>> = Vec::new();
        match &mut self.state {
            State::Codec => {
                let s: &Subject = &subjects()[rng.below(subjects().len())];
                let v = gen(&mut rng, &s.kind);
                let mut e = Vec::new();
                match (s.encode_to)(&v, &mut e) {
                    Ok(Ok(n)) => outs.push((n as u64).to_le_bytes().to_vec()),
                    Ok(Err(x)) => outs.push(x.to_string().into_bytes()),
                    Err(x) => outs.push(x.to_string().into_bytes()),
                }
                outs.push(e.clone());
                let mut inputs = vec![e, hostile(&mut rng, &s.kind)];
                let mut m = inputs[0].clone();
                mutate(&mut rng, &mut m);
                inputs.push(m);
                for b in inputs {
                    match (s.decode_at)(&b, 0) {
                        Ok((v, n)) => {
                            outs.push(format!("{v:?}").into_bytes());
                            outs.push((n as u64).to_le_bytes().to_vec());
                        }
                        Err(x) => outs.push(x.to_string().into_bytes()),
                    }
                    outs.push((s.reencode)(&b).unwrap_or_else(|x| format!("{x:?}").into_bytes()));
                }
                if let (Some(f), Some(u)) = (s.frame, s.unframe) {
                    match f(&v) {
                        Ok(m) => {
                            outs.push(m.payload.clone());
                            outs.push(format!("{:?}", m.message_type).into_bytes());
                            outs.push(format!("{:?}", u(&m)).into_bytes());
                        }
                        Err(x) => outs.push(x.to_string().into_bytes()),
                    }
                }
            }
            State::Noise { i, r, n, last } => {
                let len = match rng.below(6) {
                    0 => rng.below(40),
                    _ => 96 + rng.below(300),
                };
                let mut buf = rng.bytes(len);
                let flip = rng.chance(1, 6);
                let (from, to): (&mut NoiseSession, &mut NoiseSession) = match *n {
                    0 => (i, r),
                    1 => (r, i),
                    _ => {
                        if rng.bool() {
                            (i, r)
                        } else {
                            (r, i)
                        }
                    }
                };
                let s = from.send_message(&mut buf);
                outs.push(format!("{s:?}").into_bytes());
                if s.is_ok() {
                    outs.push(buf.clone());
                    if *n >= 2 && flip {
                        let mut x = buf.clone();
                        let at = rng.below(x.len());
                        x[at] ^= 1 << rng.below(8);
                        outs.push(format!("{:?}", to.recv_message(&mut x)).into_bytes());
                        if !last.is_empty() {
                            outs.push(format!("{:?}", to.recv_message(&mut last.clone())).into_bytes());
                        }
                    }
                    let mut x = buf.clone();
                    let q = to.recv_message(&mut x);
                    outs.push(format!("{q:?}").into_bytes());
                    if q.is_ok() {
                        *n += 1;
                        outs.push(if *n == 2 { x[80..x.len() - 16].to_vec() } else { x[..x.len() - 16].to_vec() });
                    }
                    *last = buf;
                }
                if *n >= 2 && rng.chance(1, 8) {
                    if rng.bool() {
                        i.rekey_local_cipherstate();
                        r.rekey_local_cipherstate();
                    } else {
                        i.rekey_remote_cipherstate();
                        r.rekey_remote_cipherstate();
                    }
                }
                for s in [i, r] {
                    outs.push(format!("{:?} {:?} {}", s.get_handshake_hash(), s.get_remote_static_public_key().map(|k| k.as_bytes()), s.is_transport()).into_bytes());
                }
            }
            State::Cert { issued } => {
                let x = crate::p_cert::issue(&mut rng);
                // verify this and the previous certificate at a time of this job's own
                let t = (rng.u32() as i64, 0);
                let mut all = vec![&x];
                if let Some(p) = issued.as_ref() {
                    all.push(p);
                }
                for y in all {
                    for key in [&x.text, &y.text] {
                        let verify = |t: (i64, i64)| {
                            crate::vclock::set(Some(t));
                            let v = CertificateFormat::new(key, &y.pk, &y.msg).and_then(|f| f.verify());
                            crate::vclock::set(None);
                            format!("{:?}", v.map_err(|e| e.to_string())).into_bytes()
                        };
                        outs.push(verify(t));
                        outs.push(verify((y.msg.valid_from as i64, 5)));
                    }
                    outs.push(stratumv2::codec::serialize(&y.msg).unwrap_or_default());
                }
                // issuing is deterministic, too
                crate::vclock::set(Some(t));
                let cert = SignedCertificate::new(x.msg.version, x.msg.valid_from, x.msg.not_valid_after, &x.pk);
                crate::vclock::set(None);
                outs.push(match cert {
                    Ok(s) => match SignatureNoiseMessage::from_auth_key(&x.kp, &s) {
                        Ok(m) => stratumv2::codec::serialize(&m).unwrap_or_default(),
                        Err(e) => e.to_string().into_bytes(),
                    },
                    Err(e) => e.to_string().into_bytes(),
                });
                *issued = Some(x);
            }
            State::Keys => {
                let k = gen_priv(&mut rng);
                let mut t = hex(&k);
                if rng.chance(1, 4) {
                    t = crate::model::near_text(&mut rng, &t);
                }
                outs.push(Key::generate_public_key(&k).as_bytes().to_vec());
                match PrivateKey::from_str(&t) {
                    Ok(p) => {
                        let kp = Keypair::from_private_key(p.clone());
                        outs.push(format!("{:?}", kp.map(|k| k.get_public_key().as_bytes()).ok()).into_bytes());
                        outs.push(vec![p.is_empty() as u8]);
                    }
                    Err(e) => outs.push(e.to_string().into_bytes()),
                }
                outs.push(format!("{:?}", PublicKey::from_str(&t).map(|k| k.as_bytes()).ok()).into_bytes());
                outs.push(format!("{:?}", PublicKey::from_bytes(k).map(|k| k.as_bytes()).ok()).into_bytes());
            }
            State::Conn { o, n, wire, n_step } => {
                // keys are random here: only outcomes are compared
                let r = match *n_step {
                    0 => o.init_handshake(),
                    1 => n.recv_handshake(&mut wire.clone()),
                    2 => {
                        let mut w = wire.clone();
                        o.recv_handshake(&mut w)
                    }
                    _ => {
                        let m = rng.below(200);
                        let mut w = rng.bytes(m);
                        if rng.bool() {
                            o.recv_handshake(&mut w)
                        } else {
                            n.recv_handshake(&mut w)
                        }
                    }
                };
                outs.push(format!("{:?} {} {}", r.as_ref().map(|b| b.len()).map_err(|e| e.to_string()), o.is_handshake_complete(), n.is_handshake_complete()).into_bytes());
                if let Ok(b) = r {
                    *wire = b;
                }
                // the static key is given, so the reported key is deterministic
                outs.push(format!("{:?}", o.get_remote_pubkey().map(|k| k.as_bytes())).into_bytes());
                *n_step += 1;
                if *n_step > 6 {
                    *o = ConnectionEncryptor::new_outbound();
                    *n = ConnectionEncryptor::new_inbound(Some(keypair(&gen_priv(&mut rng))));
                    *n_step = 0;
                }
            }
            State::Queue { p, next } => {
                for _ in 0..rng.below(6) {
                    p.pending_msg_buffer.lock().unwrap().push(message(p.encryptor.0 as usize, *next));
                    *next += 1;
                }
                if rng.bool() {
                    let got = p.get_pending_msgs();
                    outs.push((got.len() as u64).to_le_bytes().to_vec());
                    for m in got {
                        outs.push(m.payload);
                    }
                }
            }
        }
        self.rng = rng;
        for o in outs {
            self.note(&[&o]);
        }
    }
}

fn compare(c: &mut Case, alone: &[Vec<u64>], done: &[Job], how: &'static str) {
    for j in done {
        let exp = &alone[j.id as usize];
        c.obs("steps compared", exp.len() as u64);
        if !c.check(how, &j.trace == exp, || {
            let at = j.trace.iter().zip(exp).position(|(a, b)| a != b);
            format!("job {} ({}): step {:?} of {} gives another result than when run alone", j.id, JOB_KINDS[j.kind], at, exp.len())
        }) {
            return;
        }
        c.obs(JOB_KINDS[j.kind], 1);
    }
}

pub fn c25(ctx: &Ctx) {
    ctx.rule("an input is a schedule of jobs (encode and decode, noise sessions with given keys, certificates at job-specific times, keys, connections, queues), each on objects of its own. Each job runs alone, then interleaved with others in one thread, then stepwise on many threads, migrating between them, with delays injected at allocations; every step's result must be the same. Counted per job and schedule; distinct by job and the order in which threads executed steps.");
    let jobs = if cfg!(miri) { 6 } else if ctx.tiny() { 18 } else { 96 };
    let steps = if ctx.tiny() { 4 } else { 14 };
    let rounds = if cfg!(miri) { ctx.k(1) } else { ctx.n(40, 1500) };
    ctx.section_t("jobs", rounds, 1, |c| {
        let seed = c.rng.u64();
        // alone, one after another, in a thread of its own
        let alone: Vec<Vec<u64>> = std::thread::scope(|s| {
            s.spawn(|| {
                (0..jobs)
                    .map(|id| {
                        let mut j = Job::new(seed, id, steps);
                        while j.step() {}
                        j.trace
                    })
                    .collect()
            })
            .join()
            .expect("jobs alone")
        });
        // interleaved in one thread
        if c.idx % 4 == 0 {
            let mut live: Vec<Job> = (0..jobs).map(|id| Job::new(seed, id, steps)).collect();
            let mut done = Vec::new();
            let mut f = Fnv::new();
            while !live.is_empty() {
                let k = c.rng.below(live.len());
                f.mix(live[k].id);
                if !live[k].step() {
                    done.push(live.swap_remove(k));
                }
            }
            for id in 0..jobs {
                c.eval(hash(&[&f.0.to_le_bytes(), &id.to_le_bytes()]));
            }
            compare(c, &alone, &done, "interleaved jobs obtain their own results");
        }
        // on threads, jobs migrating between them
        let threads = if cfg!(miri) { 3 } else { 2 + c.rng.below(11) };
        let live: Mutex<Vec<Job>> = Mutex::new((0..jobs).map(|id| Job::new(seed, id, steps)).collect());
        let done: Mutex<Vec<Job>> = Mutex::new(Vec::new());
        let order: Mutex<Fnv> = Mutex::new(Fnv::new());
        let running = AtomicU64::new(jobs);
        let peak = AtomicU64::new(0);
        let now = AtomicU64::new(0);
        let bar = Barrier::new(threads);
        let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64() | 1).collect();
        let delays = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (live, done, order, running, peak, now, bar, delays, ws) = (&live, &done, &order, &running, &peak, &now, &bar, &delays, seeds[w]);
                s.spawn(move || {
                    let mut r = Rng::new(ws);
                    let d0 = alloc::delays();
                    bar.wait();
                    if w % 2 == 0 {
                        alloc::chaos(ws);
                    }
                    loop {
                        let j = {
                            let mut l = live.lock().unwrap();
                            let n = l.len();
                            if n == 0 {
                                None
                            } else {
                                let k = r.below(n);
                                Some(l.swap_remove(k))
                            }
                        };
                        let mut j = match j {
                            Some(j) => j,
                            None => {
                                if running.load(SeqCst) == 0 {
                                    break;
                                }
                                std::thread::yield_now();
                                continue;
                            }
                        };
                        let k = now.fetch_add(1, SeqCst) + 1;
                        peak.fetch_max(k, SeqCst);
                        let burst = 1 + r.below(3);
                        let mut more = true;
                        for _ in 0..burst {
                            more = j.step();
                            if !more {
                                break;
                            }
                        }
                        now.fetch_sub(1, SeqCst);
                        order.lock().unwrap().mix(j.id * 100 + w as u64);
                        if more {
                            live.lock().unwrap().push(j);
                        } else {
                            done.lock().unwrap().push(j);
                            running.fetch_sub(1, SeqCst);
                        }
                    }
                    alloc::chaos(0);
                    delays.fetch_add(alloc::delays() - d0, Relaxed);
                });
            }
        });
        let sched = order.lock().unwrap().0;
        for id in 0..jobs {
            c.eval(hash(&[&sched.to_le_bytes(), &id.to_le_bytes()]));
        }
        let done = done.into_inner().unwrap();
        if done.len() as u64 != jobs {
            c.ctx.error("jobs were lost".into());
        }
        if peak.load(SeqCst) > 1 {
            c.obs("rounds with operations in parallel", 1);
        }
        c.obs("delays injected", delays.load(Relaxed));
        c.sample(|| format!("{jobs} jobs on {threads} threads, up to {} operations in parallel", peak.load(SeqCst)));
        compare(c, &alone, &done, "concurrent jobs obtain their own results");
    });
    // what is made at random is not made twice, nor by two threads at once
    ctx.section_t("made-at-random", if ctx.tiny() { 1 } else { 2 * ctx.n(4, 60).min(200) }, 1, |c| {
        let threads = if cfg!(miri) { 3 } else { 2 + c.rng.below(8) };
        let n = if cfg!(miri) { 2 } else if cfg!(vp_tsan) { 20 } else { 150 };
        let bar = Barrier::new(threads);
        let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64() | 1).collect();
        let conns = c.idx % 2 == 1;
        let all: Mutex<Vec<Vec<u8>>> = Mutex::new(Vec::new());
        let wrong = AtomicU64::new(0);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (bar, all, seeds, wrong) = (&bar, &all, &seeds, &wrong);
                s.spawn(move || {
                    let mut mine = Vec::new();
                    bar.wait();
                    if w % 2 == 0 {
                        alloc::chaos(seeds[w]);
                    }
                    for _ in 0..n {
                        if conns {
                            let (mut o, mut n) = (ConnectionEncryptor::new_outbound(), ConnectionEncryptor::new_inbound(None));
                            let done = o.init_handshake().and_then(|mut a| {
                                mine.push(a[..32].to_vec());
                                n.recv_handshake(&mut a)
                            });
                            match done.and_then(|mut b| {
                                mine.push(b[..32].to_vec());
                                o.recv_handshake(&mut b)
                            }) {
                                Ok(_) => mine.push(o.get_remote_pubkey().map(|k| k.as_bytes().to_vec()).unwrap_or_default()),
                                Err(_) => drop(wrong.fetch_add(1, SeqCst)),
                            }
                        } else {
                            mine.push(noiseexplorer_nx::types::Keypair::default().get_public_key().as_bytes().to_vec());
                        }
                    }
                    alloc::chaos(0);
                    all.lock().unwrap().append(&mut mine);
                });
            }
        });
        let mut all = all.into_inner().unwrap();
        let made = all.len();
        all.sort();
        let twice = all.windows(2).find(|w| w[0] == w[1]).map(|w| hex(&w[0]));
        all.dedup();
        let x = c.rng.u64();
        c.eval(hash(&[b"random", &c.idx.to_le_bytes(), &x.to_le_bytes()]));
        c.obs("keys made concurrently", made as u64);
        c.check("no interference in what is random", twice.is_none() && wrong.load(SeqCst) == 0, || {
            format!("{threads} threads made {made} keys, {} different ones; {twice:?} was made twice, {} handshakes failed", all.len(), wrong.load(SeqCst))
        });
    });
    if !cfg!(miri) {
        ctx.require(&JOB_KINDS);
    }
    ctx.require(&["no interference in what is random"]);
    ctx.require(&["concurrent jobs obtain their own results", "interleaved jobs obtain their own results", "rounds with operations in parallel"]);
}
