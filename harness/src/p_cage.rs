//! Monitors for hidden effects and disclosed secrets (C36).
//!
//! The library's operations run in a thread whose system calls are filtered: what
//! memory management, locks, clocks and randomness need goes through, everything
//! else is trapped, recorded and answered with a refusal. (Calls made while signals
//! are blocked, as when a thread is started, end the process with SIGSYS instead;
//! that is reported as well.)

use crate::ctx::{guard, Case, Caught, Ctx};
use crate::model::{gen, valid};
use crate::p_cert::issue;
use crate::p_codec::hostile_input;
use crate::p_codec2::auth_key;
use crate::p_noise::{gen_priv, gen_prologue, keypair};
use crate::p_peer::{Job, JOB_KINDS};
use crate::p_world::{life, setup_exchange, LIVES};
use crate::subjects::subjects;
use crate::util::{base58, hash, hex, hexs, Rng};
use crate::vclock;
use noiseexplorer_nx::noisesession::NoiseSession;
use noiseexplorer_nx::types::{Key, Keypair, PrivateKey, Psk};
use std::cell::Cell;
use std::fmt::{Debug, Display};
use std::io::Write;
use std::str::FromStr;
use stratumv2::codec::serialize;
use stratumv2::network::{ConnectionEncryptor, Encryptor, NoiseConfig};
use stratumv2::noise::{CertificateFormat, SignatureNoiseMessage, SignedCertificate};

// ---------------------------------------------------------------- the cage

#[derive(Clone, Copy)]
struct Trap {
    nr: i64,
    a: [u64; 3],
    text: [u8; 48],
}
thread_local! {
    static TRAPS: Cell<[Option<Trap>; 4]> = const { Cell::new([None; 4]) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

#[cfg(all(target_arch = "x86_64", not(miri)))]
mod cage {
    use super::*;

    /// What memory, locks, clocks, randomness and the end of a thread need.
    const FREE: [i64; 27] = [
        libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_mprotect, libc::SYS_madvise, libc::SYS_brk, libc::SYS_futex,
        libc::SYS_getrandom, libc::SYS_clock_gettime, libc::SYS_clock_getres, libc::SYS_gettimeofday, libc::SYS_time,
        libc::SYS_sched_yield, libc::SYS_rt_sigreturn, libc::SYS_rt_sigprocmask, libc::SYS_sigaltstack, libc::SYS_set_robust_list, libc::SYS_rseq,
        libc::SYS_exit, libc::SYS_exit_group, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_restart_syscall, libc::SYS_getrusage,
        libc::SYS_membarrier, libc::SYS_sched_getaffinity, libc::SYS_arch_prctl,
    ];

    extern "C" fn trapped(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
        unsafe {
            let g = &mut (*(uc as *mut libc::ucontext_t)).uc_mcontext.gregs;
            let nr = g[libc::REG_RAX as usize];
            let a = [g[libc::REG_RDI as usize] as u64, g[libc::REG_RSI as usize] as u64, g[libc::REG_RDX as usize] as u64];
            let mut text = [0u8; 48];
            let mut take = |p: *const u8, n: usize| {
                for (i, t) in text.iter_mut().take(n).enumerate() {
                    *t = *p.add(i);
                    if *t == 0 {
                        break;
                    }
                }
            };
            let mut ret = -(libc::EPERM as i64);
            match nr {
                libc::SYS_write => {
                    take(a[1] as *const u8, a[2] as usize);
                    ret = a[2] as i64;
                }
                libc::SYS_writev => {
                    let v = std::slice::from_raw_parts(a[1] as *const libc::iovec, a[2] as usize);
                    ret = v.iter().map(|x| x.iov_len as i64).sum();
                    if let Some(x) = v.iter().find(|x| x.iov_len > 0) {
                        take(x.iov_base as *const u8, x.iov_len);
                    }
                }
                libc::SYS_open | libc::SYS_unlink | libc::SYS_mkdir | libc::SYS_chdir | libc::SYS_execve | libc::SYS_stat if a[0] != 0 => take(a[0] as *const u8, 48),
                libc::SYS_openat | libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_newfstatat if a[1] != 0 => take(a[1] as *const u8, 48),
                _ => {}
            }
            g[libc::REG_RAX as usize] = ret;
            // (the C library's allocator asks for these)
            if [&b"/proc/sys/vm/"[..], b"/sys/devices/system/cpu", b"/sys/kernel/mm/", b"/proc/cpuinfo", b"/proc/stat"].iter().any(|p| text.starts_with(p)) {
                return;
            }
            let mut t = TRAPS.get();
            if let Some(x) = t.iter_mut().find(|x| x.is_none()) {
                *x = Some(Trap { nr, a, text });
            }
            TRAPS.set(t);
            COUNT.set(COUNT.get() + 1);
        }
    }

    pub fn prepare() {
        unsafe {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = trapped as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
            libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
        }
    }

    /// Closes the cage around this thread, for its remaining life.
    pub fn close() -> bool {
        let st = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
        let ld = libc::BPF_LD | libc::BPF_W | libc::BPF_ABS;
        let jeq = libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K;
        let ret = libc::BPF_RET | libc::BPF_K;
        let mut p = vec![st(ld, 4), libc::sock_filter { jt: 1, ..st(jeq, 0xC000_003E) }, st(ret, libc::SECCOMP_RET_ALLOW), st(ld, 0)];
        for (i, nr) in FREE.iter().enumerate() {
            p.push(libc::sock_filter { jt: (FREE.len() - i) as u8, ..st(jeq, *nr as u32) });
        }
        p.push(st(ret, libc::SECCOMP_RET_TRAP));
        p.push(st(ret, libc::SECCOMP_RET_ALLOW));
        let prog = libc::sock_fprog { len: p.len() as u16, filter: p.as_mut_ptr() };
        unsafe {
            libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0
                && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER as libc::c_ulong, &prog as *const _ as libc::c_ulong, 0, 0) == 0
        }
    }

    pub fn name(nr: i64) -> String {
        let n = match nr {
            libc::SYS_write | libc::SYS_writev | libc::SYS_pwrite64 => "write",
            libc::SYS_open | libc::SYS_openat | libc::SYS_creat => "open",
            libc::SYS_read | libc::SYS_readv | libc::SYS_pread64 => "read",
            libc::SYS_socket => "socket",
            libc::SYS_clone | libc::SYS_clone3 | libc::SYS_fork | libc::SYS_vfork => "start of a thread or process",
            libc::SYS_nanosleep | libc::SYS_clock_nanosleep => "sleep",
            libc::SYS_rt_sigaction => "sigaction",
            libc::SYS_newfstatat | libc::SYS_stat | libc::SYS_statx => "stat",
            _ => return format!("number {nr}"),
        };
        n.into()
    }
}

/// Runs something in a thread of its own with a closed cage; what was trapped there.
/// None when the kernel offers no filters.
fn caged<T: Send>(f: impl FnOnce() -> T + Send) -> Option<(std::thread::Result<T>, Seen)> {
    #[cfg(all(target_arch = "x86_64", not(miri)))]
    {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    if !cage::close() {
                        return None;
                    }
                    let before = local_state();
                    vclock::watch_env(true);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    // what was printed and not yet written
                    let _ = std::io::stdout().flush();
                    let env = vclock::watch_env(false);
                    let after = local_state();
                    let traps = TRAPS.get();
                    let calls = traps.iter().flatten().map(|t| {
                        let n = t.text.iter().position(|b| *b == 0).unwrap_or(48);
                        format!("system call {} ({:#x}, {:#x}, {:#x}) {:?}", cage::name(t.nr), t.a[0], t.a[1], t.a[2], String::from_utf8_lossy(&t.text[..n]))
                    });
                    let seen = Seen { calls: calls.collect(), env, moved: (before != after).then(|| format!("{before:?} became {after:?}")) };
                    Some((r, seen))
                })
                .ok()?
                .join()
                .ok()?
        })
    }
    #[cfg(not(all(target_arch = "x86_64", not(miri))))]
    {
        let _ = f;
        None
    }
}

struct Seen {
    calls: Vec<String>,
    env: Vec<String>,
    moved: Option<String>,
}

/// What belongs to a thread and is not its memory: rounding and traps of floating
/// point arithmetic, blocked signals.
#[cfg(all(target_arch = "x86_64", not(miri)))]
fn local_state() -> (u32, u64) {
    unsafe {
        let mut csr = 0u32;
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut csr);
        let mut m: libc::sigset_t = std::mem::zeroed();
        libc::pthread_sigmask(libc::SIG_BLOCK, std::ptr::null(), &mut m);
        (csr & 0xffc0, *(&m as *const _ as *const u64))
    }
}

/// What belongs to the process: its environment, directory and panic hook.
fn process_state() -> u64 {
    let mut all: Vec<Vec<u8>> = Vec::new();
    for (k, v) in std::env::vars_os() {
        all.push([k.as_encoded_bytes(), b"=", v.as_encoded_bytes()].concat());
    }
    all.sort();
    all.push(std::env::current_dir().map(|d| d.into_os_string().into_encoded_bytes()).unwrap_or_default());
    // a panic still reaches the hook that is set
    let hook = matches!(guard(|| panic!("probe of the hook")), Err(Caught::Harness(s)) if s.contains("probe of the hook"));
    all.push(vec![hook as u8]);
    hash(&all.iter().map(|x| &x[..]).collect::<Vec<_>>())
}

fn confined(c: &mut Case, what: &str, n: u64, f: impl FnOnce() + Send) {
    let before = process_state();
    match caged(f) {
        None => c.obs("runs without a cage", 1),
        Some((r, seen)) => {
            if let Err(e) = r {
                let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned());
                // a panic of the library is judged elsewhere
                c.sample(|| format!("{what}: a panic: {m:?}"));
            }
            c.obs("operations in the cage", n);
            c.check("no system calls of their own", seen.calls.is_empty(), || format!("{what}: {}", seen.calls.join("; ")));
            c.check("the environment is not read", seen.env.is_empty(), || format!("{what}: variables {:?}", seen.env));
            c.check("the thread stays as it was", seen.moved.is_none(), || format!("{what}: rounding or signals {:?}", seen.moved));
        }
    }
    let after = process_state();
    c.check("the process stays as it was", before == after, || format!("{what}: environment, directory or panic hook changed"));
}

// ---------------------------------------------------------------- secrets

/// Shows what there is to show.
struct W<'a, T>(&'a T);
trait Silent {
    fn debug(&self) -> Option<String> {
        None
    }
    fn display(&self) -> Option<String> {
        None
    }
}
impl<T> Silent for W<'_, T> {}
impl<T: Debug> W<'_, T> {
    fn debug(&self) -> Option<String> {
        Some(format!("{:?} {:#?} {:x?}", self.0, self.0, self.0))
    }
}
impl<T: Display> W<'_, T> {
    fn display(&self) -> Option<String> {
        Some(format!("{}", self.0))
    }
}
macro_rules! shown {
    ($x:expr) => {{
        let x = $x;
        let w = W(&x);
        format!("{} {}", w.debug().unwrap_or_default(), w.display().unwrap_or_default())
    }};
}

/// Does a text contain `n` successive bytes of a secret, in hexadecimal, in decimal
/// (as arrays are shown), in base58 or raw?
fn tells(text: &str, secret: &[u8], n: usize) -> bool {
    let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != '_').collect::<String>().to_lowercase();
    let t = squeeze(text);
    let h = hex(secret);
    (0..=secret.len() - n).any(|i| {
        let w = &secret[i..i + n];
        let dec = |w: &mut dyn Iterator<Item = &u8>| w.map(|b| b.to_string()).collect::<Vec<_>>().join(",");
        let hx = |w: &mut dyn Iterator<Item = &u8>| w.map(|b| format!("{b:x}")).collect::<Vec<_>>().join(",");
        let rev: Vec<u8> = w.iter().rev().copied().collect();
        t.contains(&h[2 * i..2 * (i + n)])
            || t.contains(&dec(&mut w.iter()))
            || t.contains(&hx(&mut w.iter()))
            || t.contains(&hex(&rev))
            || n >= 8 && text.as_bytes().windows(n).any(|x| x == w)
    }) || text.contains(&base58(secret))
}

/// Does a text repeat eight characters of a refused one?
fn repeats(text: &str, secret: &str) -> bool {
    let (t, s): (Vec<char>, Vec<char>) = (text.to_lowercase().chars().collect(), secret.to_lowercase().chars().collect());
    s.windows(8).any(|w| t.windows(8).any(|x| x == w))
}

fn said<T, E: Debug + Display>(r: Result<Result<T, E>, Caught>) -> Option<String> {
    match r {
        Ok(Ok(_)) => None,
        Ok(Err(e)) => Some(format!("{e} {e:?} {e:#?}")),
        Err(Caught::Subject(s)) | Err(Caught::Harness(s)) => Some(s),
    }
}

/// The text of a private key with something wrong in it.
fn wrong_text(r: &mut Rng) -> String {
    let mut t: Vec<char> = hex(&r.arr32()).chars().collect();
    if r.bool() {
        t = t.iter().map(|c| c.to_ascii_uppercase()).collect();
    }
    match r.below(7) {
        0 => t.truncate(20 + r.below(44)),
        1 => t.extend(hex(&r.arr32()).chars().take(1 + r.below(20))),
        2 => t[r.below(64)] = *r.pick(&['g', 'x', ' ', '-', ':', 'O', '\n', '\0']),
        3 => t[r.below(64)] = *r.pick(&['é', '√', '😀']),
        4 => t.insert(0, '0'),
        5 => t.insert(r.below(65), *r.pick(&[' ', '"', '\\', '\t'])),
        _ => t[63] = 'z',
    }
    t.into_iter().collect()
}

fn secrets(c: &mut Case) {
    let r = &mut Rng::new(c.rng.u64());
    // refused texts
    let t = wrong_text(r);
    c.eval(hash(&[b"text", t.as_bytes()]));
    for (what, e) in [
        ("PrivateKey", said(guard(|| PrivateKey::from_str(&t)))),
        ("PrivateKey (a slice)", said(guard(|| PrivateKey::from_str(&format!("  {t}")[2..])))),
        ("Psk", said(guard(|| Psk::from_str(&t)))),
        ("Key", said(guard(|| Key::from_str(&t)))),
    ] {
        if let Some(e) = e {
            c.check("refusals keep the text to themselves", !repeats(&e, &t), || format!("{what}::from_str({t:?}) says {e}"));
        }
    }
    // objects that hold secrets
    let (k, eph, auth) = (gen_secret(r), gen_secret(r), r.arr32());
    c.eval(hash(&[b"keys", &k, &eph, &auth]));
    let mut texts: Vec<(&'static str, String)> = vec![
        ("a key pair", shown!(keypair(&k))),
        ("a private key", shown!(PrivateKey::from_bytes(k))),
        ("a pre-shared key", shown!(Psk::from_bytes(k))),
        ("a key", shown!(Key::from_bytes(k))),
        ("a result of a key pair", {
            let x: Result<Keypair, _> = PrivateKey::from_str(&hex(&k)).and_then(Keypair::from_private_key);
            x.err().map(|e| format!("{e} {e:?}")).unwrap_or_default()
        }),
    ];
    let pro = gen_prologue(r);
    let mut i = NoiseSession::init_session(true, &pro, keypair(&k));
    let mut s = NoiseSession::init_session(false, &pro, keypair(&k));
    i.set_ephemeral_keypair(keypair(&eph));
    s.set_ephemeral_keypair(keypair(&eph));
    let mut n = ConnectionEncryptor::new_inbound(Some(keypair(&k)));
    let mut o = ConnectionEncryptor::new_outbound();
    let stop = r.below(4);
    let mut b = r.bytes(120);
    let mut errors = String::new();
    let mut hear = |e: Option<String>| {
        errors.push_str(&e.unwrap_or_default());
        errors.push(' ');
    };
    if stop > 0 {
        hear(said(guard(|| i.send_message(&mut b))));
        hear(said(guard(|| s.recv_message(&mut b))));
        hear(said(guard(|| n.recv_handshake(&mut o.init_handshake().unwrap_or_default()))));
    }
    if stop > 1 {
        hear(said(guard(|| s.send_message(&mut b))));
        if r.bool() {
            let at = r.below(b.len());
            b[at] ^= 1;
        }
        hear(said(guard(|| i.recv_message(&mut b))));
    }
    for _ in 0..2 {
        let len = r.below(150);
        let mut x = r.bytes(len);
        hear(said(guard(|| i.recv_message(&mut x.clone()))));
        hear(said(guard(|| s.recv_message(&mut x.clone()))));
        hear(said(guard(|| s.send_message(&mut x.clone()))));
        hear(said(guard(|| n.recv_handshake(&mut x.clone()))));
        hear(said(guard(|| o.recv_handshake(&mut x))));
    }
    texts.push(("a session", shown!(i)));
    texts.push(("a session", shown!(s)));
    texts.push(("a connection", shown!(n)));
    // the authority's secret
    let kp = auth_key(&auth);
    let pk = keypair(&k).get_public_key();
    let cert = SignedCertificate::new(r.u32() as u16, r.u32(), r.u32(), &pk);
    match cert {
        Ok(cert) => {
            let m = guard(|| SignatureNoiseMessage::from_auth_key(&kp, &cert));
            if let Ok(Ok(m)) = &m {
                texts.push(("a signature message", shown!(m.clone())));
                texts.push(("a configuration", shown!(NoiseConfig::new(m.clone(), keypair(&k)))));
                let wire = serialize(m).unwrap_or_default();
                let leak = [&k, &auth].iter().any(|s| s.windows(8).any(|w| wire.windows(8).any(|x| x == w)));
                c.check("objects keep their secrets", !leak, || format!("the signature message {} contains a part of a secret", hexs(&wire)));
                let text = base58(&kp.public.to_bytes());
                let f = guard(|| CertificateFormat::new(&text, &pk, m).and_then(|f| f.verify()));
                hear(said(f));
            }
            hear(said(m));
        }
        Err(e) => hear(Some(format!("{e} {e:?}"))),
    }
    for (what, t) in &texts {
        for x in [&k, &eph, &auth] {
            c.check("objects keep their secrets", !tells(t, x, 8), || format!("what {what} shows contains a part of {}: {t}", hexs(x)));
        }
    }
    for x in [&k, &eph, &auth] {
        c.check("errors keep secrets", !tells(&errors, x, 4), || format!("an error contains a part of {}: {errors}", hexs(x)));
    }
    c.obs("texts searched for secrets", texts.len() as u64 + 1);
}

fn gen_secret(r: &mut Rng) -> [u8; 32] {
    // (no repeated bytes: their decimal forms would occur by chance)
    r.arr32()
}

/// Encodings, decodings and connection setups with hostile contents.
fn codec(r: &mut Rng) {
    let s = *r.pick(&subjects().iter().collect::<Vec<_>>());
    let v = gen(r, &s.kind);
    let mut e = Vec::new();
    let _ = (s.encode_to)(&v, &mut e).is_ok();
    let _ = valid(&s.kind, &v);
    for b in [e, hostile_input(r, &s.kind)] {
        if let Err(e) = (s.decode_at)(&b, 0) {
            let _ = format!("{e} {e:?}");
        }
        let _ = (s.reencode)(&b).is_ok();
    }
}

pub fn c36(ctx: &Ctx) {
    ctx.rule("an input is a whole life of an object, a step of a computation, a value, a hostile encoding or a connection setup, run in a thread whose system calls are filtered; or a set of secrets with operations that fail on them. Observed are every system call other than those of memory, locks, clocks and randomness, every variable of the environment asked for, the state of thread and process, and every text the library shows. Distinct by kind and contents.");
    // the harness's own files are read now
    let _ = (crate::dict::dict().ints.len(), subjects().len());
    if !cfg!(any(miri, vp_san, vp_tsan)) {
        #[cfg(all(target_arch = "x86_64", not(miri)))]
        cage::prepare();
        // the monitor notices what it is there for
        ctx.section_t("control", 1, 1, |c| {
            let acts: [(&str, fn()); 5] = [
                ("standard error", || eprint!("x")),
                ("buffered output", || print!("x")),
                ("a file", || drop(std::fs::read("/nonexistent"))),
                ("a sleep", || std::thread::sleep(std::time::Duration::from_millis(1))),
                ("a socket", || drop(std::net::UdpSocket::bind("127.0.0.1:0"))),
            ];
            for (what, f) in acts {
                match caged(f) {
                    None => c.obs("runs without a cage", 1),
                    Some((_, seen)) if seen.calls.is_empty() => c.ctx.error(format!("the cage did not notice {what}")),
                    Some(_) => c.obs("control: effects noticed", 1),
                }
            }
            if let Some((_, seen)) = caged(|| drop(std::env::var("VP_PROBE"))) {
                c.obs("control: variables noticed", seen.env.len() as u64);
            }
        });
        ctx.section("lives", LIVES.len() as u64 * ctx.n(4, 200), |c| {
            let kind = c.idx as usize % LIVES.len();
            let mut r = Rng::new(c.rng.u64());
            let n = 1 + r.below(12) as u64;
            c.eval(hash(&[b"life", &[kind as u8], &r.clone().u64().to_le_bytes()]));
            confined(c, LIVES[kind], n, move || {
                for _ in 0..n {
                    if let Err(Caught::Harness(e)) = guard(|| life(&mut r, kind)) {
                        panic!("{e}");
                    }
                }
            });
        });
        // many of a kind in one thread
        ctx.section("long-lives", LIVES.len() as u64 * ctx.n(1, 12).min(40), |c| {
            let kind = c.idx as usize % LIVES.len();
            let mut r = Rng::new(c.rng.u64());
            c.eval(hash(&[b"long", &[kind as u8], &r.clone().u64().to_le_bytes()]));
            confined(c, LIVES[kind], 1200, move || {
                for _ in 0..1200 {
                    if let Err(Caught::Harness(e)) = guard(|| life(&mut r, kind)) {
                        panic!("{e}");
                    }
                }
            });
        });
        ctx.section("computations", JOB_KINDS.len() as u64 * ctx.n(10, 500), |c| {
            let (seed, id) = (c.rng.u64(), c.idx);
            c.eval(hash(&[b"job", &seed.to_le_bytes(), &id.to_le_bytes()]));
            confined(c, JOB_KINDS[id as usize % JOB_KINDS.len()], 10, move || {
                let mut j = Job::new(seed, id, 10);
                while j.step() {}
            });
        });
        ctx.section("values", ctx.n(60, 4000), |c| {
            let mut r = Rng::new(c.rng.u64());
            c.eval(hash(&[b"values", &r.clone().u64().to_le_bytes()]));
            confined(c, "encoding and decoding", 100, move || {
                for _ in 0..100 {
                    if let Err(Caught::Harness(e)) = guard(|| codec(&mut r)) {
                        panic!("{e}");
                    }
                }
            });
        });
        ctx.section("setups", ctx.n(30, 2000), |c| {
            let mut r = Rng::new(c.rng.u64());
            c.eval(hash(&[b"setups", &r.clone().u64().to_le_bytes()]));
            confined(c, "connection setups", 50, move || {
                for _ in 0..50 {
                    if let Err(Caught::Harness(e)) = guard(|| setup_exchange(&mut r)) {
                        panic!("{e}");
                    }
                }
            });
        });
        ctx.require(&["the process stays as it was"]);
        if ctx.counter("runs without a cage") == 0 {
            ctx.require(&["no system calls of their own", "the environment is not read", "the thread stays as it was", "control: effects noticed"]);
        } else {
            ctx.assume("system calls could not be filtered here: hidden effects were not observed");
        }
    }
    ctx.section("secrets", if ctx.tiny() { 3 } else { ctx.n(600, 40_000) }, secrets);
    ctx.require(&["refusals keep the text to themselves", "objects keep their secrets", "errors keep secrets"]);
}
