//! Monitors for the wire format: C01 to C08 and C10.

use crate::ctx::{Case, Ctx};
use crate::dict::dict;
use crate::model::{self, decode, enc, gen, gen_bytes_len, gen_len, gen_str_len, invalid_enc, unreduced, Kind, Rule, Val, TYPES};
use crate::subjects::*;
use crate::util::{hash, hexs, Rng};
use std::convert::TryFrom;
use std::io::Write;
use std::str::FromStr;
use std::sync::atomic::Ordering::Relaxed;
use stratumv2::codec::{deserialize, serialize, ByteParser, Message, Serializable};
use stratumv2::common::{Protocol, SetupConnectionErrorCode};
use stratumv2::error::Error;
use stratumv2::types::{MessageType, B0_16M, B0_255, B0_31, B0_32, B0_64K, STR0_255, STR0_32, U24, U256};
use stratumv2::{job_negotiation as jn, mining};

/// A hostile input for a subject: near-valid, invalid in one field, or noise.
pub fn hostile_input(r: &mut Rng, k: &Kind) -> Vec<u8> {
    match r.below(10) {
        0..=3 => model::hostile(r, k),
        4..=6 => {
            let mut o = Vec::new();
            invalid_enc(r, k, &mut o, true);
            o
        }
        7 => {
            let mut o = Vec::new();
            invalid_enc(r, k, &mut o, true);
            model::mutate(r, &mut o);
            o
        }
        8 => {
            let v = gen(r, k);
            let mut b = enc(k, &v);
            let n = r.below(9);
            let t = r.bytes(n);
            b.extend_from_slice(&t);
            b
        }
        _ => {
            let n = r.below(120);
            gen_bytes_len(r, n)
        }
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(ctx: &Ctx) {
    ctx.rule("an input is a byte string offered to the decoder of one type: mutated, truncated, wrongly announced, one-field-invalid or random bytes, all strings of 1 and 2 bytes; parser cases are random walks of read sizes over a buffer. Distinct by type and bytes.");
    let subs = subjects();
    let per = ctx.n(12_000, 400_000);
    ctx.section("decode-hostile", per * subs.len() as u64 / 16, |c| {
        for _ in 0..16 {
            let s = &subs[c.rng.below(subs.len())];
            let b = hostile_input(&mut c.rng, &s.kind);
            try_decode(c, s, &b);
        }
    });
    ctx.section("decode-prefixes", subs.len() as u64 * ctx.n(40, 400), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let v = gen(&mut c.rng, &s.kind);
        let b = enc(&s.kind, &v);
        let step = 1 + b.len() / 600;
        let mut n = 0;
        while n <= b.len() {
            try_decode(c, s, &b[..n]);
            n += step;
        }
    });
    // every byte of an encoding replaced by the extreme values
    ctx.section("decode-byte-extremes", subs.len() as u64 * ctx.n(6, 60), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let v = gen(&mut c.rng, &s.kind);
        let b = enc(&s.kind, &v);
        for i in 0..b.len().min(500) {
            for x in [0u8, 1, 0x10, 0x1f, 0x20, 0x7f, 0x80, 0xe0, 0xfe, 0xff] {
                let mut t = b.clone();
                t[i] = x;
                try_decode(c, s, &t);
            }
        }
    });
    ctx.section("decode-all-short", subs.len() as u64, |c| {
        let s = &subs[c.idx as usize];
        try_decode(c, s, &[]);
        for x in 0..=255u8 {
            try_decode(c, s, &[x]);
        }
        if !c.ctx.tiny() {
            for x in 0..=65535u16 {
                let b = x.to_le_bytes();
                let r = c.run("decoding returns", || format!("{} from {}", s.name, hexs(&b)), || (s.decode_drop)(&b));
                if r.is_none() {
                    return;
                }
            }
            c.eval_enum(65536);
        }
    });
    // announced lengths far beyond the data, for every length-prefixed type
    ctx.section("announced-lengths", ctx.n(2000, 40_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let v = gen(&mut c.rng, &s.kind);
        let mut b = enc(&s.kind, &v);
        let n = b.len().max(1);
        for _ in 0..1 + c.rng.below(3) {
            if b.is_empty() {
                b.push(0);
            }
            let k = c.rng.below(n);
            let w = c.rng.range(1, 4);
            for j in 0..w {
                if k + j < b.len() {
                    b[k + j] = 0xff;
                }
            }
        }
        try_decode(c, s, &b);
    });
    // unframing frames whose payload is hostile, or belongs to another type
    let msgs = messages();
    ctx.section("unframe-hostile", ctx.n(60_000, 2_000_000), |c| {
        let s = msgs[c.rng.below(msgs.len())];
        let f = s.unframe.unwrap();
        let k = if c.rng.chance(1, 4) { &msgs[c.rng.below(msgs.len())].kind } else { &s.kind };
        let p = hostile_input(&mut c.rng, k);
        let t = if c.rng.chance(1, 5) { c.rng.below(29) } else { s.ftype.unwrap() };
        c.eval(hash(&[s.name.as_bytes(), &[t as u8], &p]));
        let m = Message::new(MT_V[t], p.clone());
        c.run("unframing returns", || format!("{} payload {}", s.name, hexs(&p)), || f(&m).is_ok());
        c.obs("unframing returns", 1);
    });
    ctx.section("parser-walk", ctx.n(30_000, 600_000), |c| parser_walk(c));
    ctx.require(&["decoding returns", "unframing returns", "parser reads"]);
}

fn try_decode(c: &mut Case, s: &Subject, b: &[u8]) {
    c.eval(hash(&[s.name.as_bytes(), b]));
    c.obs("decoding returns", 1);
    let r = c.run("decoding returns", || format!("{} from {}", s.name, hexs(b)), || s.decode(b));
    if c.idx == 3 {
        c.sample(|| format!("{} from {} -> {}", s.name, hexs(b), match &r { Some(Ok(_)) => "value", Some(Err(_)) => "error", None => "panic" }));
    }
}

fn parser_walk(c: &mut Case) {
    let n = if c.rng.chance(1, 10) { 0 } else { c.rng.below(300) };
    let b = c.rng.bytes(n);
    let start = match c.rng.below(6) {
        0 => c.rng.below(n + 1),
        1 => n,
        2 => n + 1 + c.rng.below(4),
        3 => usize::MAX - c.rng.below(3),
        _ => 0,
    };
    let mut steps = Vec::new();
    let mut p = ByteParser::new(&b, start);
    let mut pos = start;
    let count = c.rng.range(1, 24);
    for _ in 0..count {
        let step = match c.rng.below(12) {
            0 => 0,
            1 => usize::MAX - c.rng.below(4),
            2 => usize::MAX.wrapping_sub(pos).wrapping_add(c.rng.below(5)).wrapping_sub(2),
            3 => n.saturating_sub(pos.min(n)),
            4 => n.saturating_sub(pos.min(n)) + 1,
            5 => n + 1 + c.rng.below(10),
            6 => 1usize << c.rng.below(64),
            7 => *c.rng.pick(&dict().ints) as usize,
            8 => isize::MAX as usize + c.rng.below(3),
            _ => c.rng.below(20),
        };
        steps.push(step);
        let expect = pos.checked_add(step).filter(|e| *e <= n).map(|e| (pos, e));
        let got = match c.run("parser reads", || format!("buffer {} bytes, start {start}, steps {steps:?}", n), || p.next_by(step).map(|s| s.to_vec()).map_err(|_| ())) {
            Some(g) => g,
            None => return,
        };
        let ok = match (expect, &got) {
            (Some((a, e)), Ok(s)) => &b[a..e] == s.as_slice(),
            (None, Err(())) => true,
            _ => false,
        };
        c.check("parser reads", ok, || {
            format!(
                "buffer of {n} bytes, start {start}, steps {steps:?}: last read returned {}, expected {}",
                match &got {
                    Ok(s) => format!("{} bytes {}", s.len(), hexs(s)),
                    Err(_) => "an error".into(),
                },
                match expect {
                    Some((a, e)) => format!("bytes {a}..{e}"),
                    None => "an error that leaves the position at ".to_string() + &pos.to_string(),
                }
            )
        });
        if let Some((_, e)) = expect {
            pos = e;
        }
        if c.failed() {
            return;
        }
    }
    c.eval(hash(&[&(n as u64).to_le_bytes(), &start.to_le_bytes(), format!("{steps:?}").as_bytes()]));
}

// ---------------------------------------------------------------- C02, C03

/// Runs `f` on systematic variations of every type, on random values of every
/// type, and on values at the limits of the large types.
fn for_values(ctx: &Ctx, tag: &str, random: u64, f: impl Fn(&mut Case, &'static Subject, &Val) + Sync) {
    let subs = subjects();
    let deep = ctx.tier == crate::ctx::Tier::Thorough;
    ctx.section(&format!("{tag}-fields"), subs.len() as u64 * 8, |c| {
        // eight slices per type, for balance
        let s = &subs[c.idx as usize / 8];
        let slice = c.idx as usize % 8;
        let mut r = Rng::of(c.ctx.seed, "variations", c.idx / 8);
        let vs = model::variations(&s.kind, &mut r, deep);
        let step = if c.ctx.tiny() { 97 } else { 8 };
        for v in vs.iter().skip(slice).step_by(step) {
            f(c, s, v);
            if c.ctx.stopped() {
                return;
            }
        }
    });
    ctx.section(&format!("{tag}-random"), random / 8, |c| {
        for _ in 0..8 {
            let s = &subs[c.rng.below(subs.len())];
            let v = gen(&mut c.rng, &s.kind);
            f(c, s, &v);
        }
    });
    if ctx.tiny() {
        return;
    }
    // pairs of fields at their limits
    let msgs: Vec<&'static Subject> = subs.iter().filter(|s| matches!(s.kind, Kind::Msg(..) | Kind::Setup(..))).collect();
    ctx.section(&format!("{tag}-extremes"), msgs.len() as u64 * ctx.n(300, 6000), |c| {
        let s = msgs[c.idx as usize % msgs.len()];
        let v = extreme(&mut c.rng, &s.kind);
        if model::valid(&s.kind, &v) {
            f(c, s, &v);
        }
    });
    let big: Vec<(&'static str, usize)> = vec![
        ("B0_64K", 65533),
        ("B0_64K", 65534),
        ("B0_64K", 65535),
        ("B0_64K", 32767),
        ("B0_64K", 32768),
        ("B0_16M", 65535),
        ("B0_16M", 65536),
        ("B0_16M", 65537),
        ("B0_16M", (1 << 23) - 1),
        ("B0_16M", 1 << 23),
        ("B0_16M", (1 << 24) - 2),
        ("B0_16M", (1 << 24) - 1),
        ("Message", 65535),
        ("Message", 65536),
        ("Message", 1 << 23),
        ("Message", (1 << 24) - 2),
        ("Message", (1 << 24) - 1),
    ];
    ctx.section_t(&format!("{tag}-large"), big.len() as u64, 4, |c| {
        let (name, n) = big[c.idx as usize];
        let b = c.rng.bytes(n);
        let s = by_name(name);
        let v = if name == "Message" { Val::Frame(c.rng.below(29), b) } else { Val::B(b) };
        f(c, s, &v);
    });
}

/// A message all of whose fields are at an extreme.
fn extreme(r: &mut Rng, k: &Kind) -> Val {
    match k {
        Kind::Msg(_, f) => Val::M(f.iter().map(|(_, k)| extreme(r, k)).collect()),
        Kind::Setup(a, b) => {
            if r.bool() {
                Val::Setup(0, Box::new(extreme(r, a)))
            } else {
                Val::Setup(1, Box::new(extreme(r, b)))
            }
        }
        Kind::Str(m) => {
            let n = *r.pick(&[0, 1, *m, m - 1, m / 2]);
            Val::S(gen_str_len(r, n))
        }
        Kind::Bytes(_, m) => {
            let n = *r.pick(&[0, 1, *m, m - 1]);
            Val::B(gen_bytes_len(r, n))
        }
        Kind::U16 => Val::U(*r.pick(&[0u64, 1, 2, 3, 255, 256, 0x7fff, 0x8000, 0xffff])),
        Kind::U32 => Val::U(*r.pick(&[0u64, 1, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff])),
        Kind::U256 => Val::A(vec![*r.pick(&[0u8, 0xff, 0x80, 1]); 32]),
        Kind::Flags(m) => {
            let x = r.u32();
            Val::U(*r.pick(&[0, *m as u64, (m & x) as u64]))
        }
        _ => gen(r, k),
    }
}

fn vhash(s: &Subject, b: &[u8]) -> u64 {
    hash(&[s.name.as_bytes(), b])
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("a case is a constructor-accepted value of one type: every field in turn at its corner values and lengths, random combinations, limits of the large types; encoded, decoded alone and with bytes after it, framed and unframed. Distinct by type and encoding.");
    for_values(ctx, "roundtrip", ctx.n(300_000, 12_000_000), |c, s, v| roundtrip(c, s, v));
    // unequal values must not become equal on the wire
    let subs = subjects();
    ctx.section("distinct-values", ctx.n(60_000, 1_500_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let a = gen(&mut c.rng, &s.kind);
        let b = gen(&mut c.rng, &s.kind);
        if a == b {
            return;
        }
        if let (Ok(Ok((ea, _))), Ok(Ok((eb, _)))) = (s.encode(&a), s.encode(&b)) {
            c.check("different values have different encodings", ea != eb, || {
                format!("{}: {} and {} both encode to {}", s.name, a.show(), b.show(), hexs(&ea))
            });
        }
        if let Ok(Some(eq)) = (s.equal)(&a, &b) {
            let expect = false;
            c.check("equality", eq == expect || float_equal(&a, &b), || {
                format!("{}: {} == {} is {eq}", s.name, a.show(), b.show())
            });
        }
    });
    ctx.require(&["encoding accepted", "decoded equals original", "frame round trip"]);
}

/// 0.0 and -0.0 are equal as floats though their bits differ.
fn float_equal(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::F(x), Val::F(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        (Val::M(x), Val::M(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a == b || float_equal(a, b)),
        _ => false,
    }
}

fn roundtrip(c: &mut Case, s: &'static Subject, v: &Val) {
    let (b, n) = match s.encode(v) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return c.fail("encoding accepted", format!("{}: encoding of {} failed: {e}", s.name, v.show())),
        Err(e) => return c.fail("constructor accepts", format!("{}: constructor refused {}: {e}", s.name, v.show())),
    };
    c.eval(vhash(s, &b));
    c.check("encoding accepted", true, String::new);
    c.check("reported length", n == b.len(), || {
        format!("{}: encoding {} reported {n} bytes but wrote {}", s.name, v.show(), b.len())
    });
    if c.idx == 5 {
        c.sample(|| format!("{} {} <-> {}", s.name, v.show(), hexs(&b)));
    }
    let tails: [&[u8]; 3] = [&[], &[0], &[0xff, 0x00, 0x01, 0xff, 0xff, 0xff, 0xff]];
    for t in tails {
        let mut x = b.clone();
        x.extend_from_slice(t);
        match s.decode(&x) {
            Ok((w, used)) => {
                c.check("decoded equals original", w == *v, || {
                    format!("{}: {} encodes to {} which decodes to {}", s.name, v.show(), hexs(&b), w.show())
                });
                c.check("consumed exactly", used == b.len(), || {
                    format!("{}: decoding {} (+{} bytes) consumed {used} of {}", s.name, hexs(&b), t.len(), b.len())
                });
            }
            Err(e) => c.fail("decoded equals original", format!("{}: encoding {} of {} does not decode: {e}", s.name, hexs(&b), v.show())),
        }
    }
    if let Ok(Some(eq)) = (s.equal)(v, v) {
        c.check("equality", eq || v.has_nan(), || format!("{}: {} is not equal to itself", s.name, v.show()));
    }
    if let (Some(fr), Some(un)) = (s.frame, s.unframe) {
        let r = (|| -> Result<(), String> {
            let m = fr(v).map_err(|e| format!("framing fails: {e}"))?;
            if m.payload != b {
                return Err(format!("frame payload {} differs from encoding {}", hexs(&m.payload), hexs(&b)));
            }
            let w = un(&m).map_err(|e| format!("unframing fails: {e}"))?;
            if w != *v {
                return Err(format!("unframing yields {}", w.show()));
            }
            let wire = serialize(&m).map_err(|e| format!("frame encoding fails: {e}"))?;
            let m2: Message = deserialize(&wire).map_err(|e| format!("frame decoding fails: {e}"))?;
            if m2 != m {
                return Err("frame differs after a round trip".into());
            }
            let w = un(&m2).map_err(|e| format!("unframing after transport fails: {e}"))?;
            if w != *v {
                return Err(format!("unframing after transport yields {}", w.show()));
            }
            Ok(())
        })();
        c.check("frame round trip", r.is_ok(), || format!("{} {}: {}", s.name, v.show(), r.clone().unwrap_err()));
    }
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("a case is a constructor-accepted value of one type, encoded by the library and by the reference encoder written from the specification; corner values of every field in turn, random combinations, limits of the large types. Distinct by type and encoding.");
    for_values(ctx, "layout", ctx.n(500_000, 20_000_000), |c, s, v| {
        let expect = enc(&s.kind, v);
        c.eval(vhash(s, &expect));
        match s.encode(v) {
            Ok(Ok((b, n))) => {
                if c.idx == 5 {
                    c.sample(|| format!("{} {} = {}", s.name, v.show(), hexs(&b)));
                }
                c.check("layout equals reference", b == expect, || {
                    format!("{}: {} encodes to {}, specification says {}", s.name, v.show(), hexs(&b), hexs(&expect))
                });
                c.check("reported length", n == expect.len(), || {
                    format!("{}: {} reported {n} bytes, layout has {}", s.name, v.show(), expect.len())
                });
            }
            Ok(Err(e)) => c.fail("layout equals reference", format!("{}: {} fails to encode: {e}", s.name, v.show())),
            Err(e) => c.fail("layout equals reference", format!("{}: constructor refused {}: {e}", s.name, v.show())),
        }
        // and the reverse direction: the specified bytes are read as that value
        match s.decode(&expect) {
            Ok((w, n)) => {
                c.check("layout read as specified", w == *v && n == expect.len(), || {
                    format!("{}: {} decodes to {} ({n} bytes), specification says {}", s.name, hexs(&expect), w.show(), v.show())
                });
            }
            Err(e) => c.fail("layout read as specified", format!("{}: {} does not decode: {e}", s.name, hexs(&expect))),
        }
        if let Some(fr) = s.frame {
            match fr(v).and_then(|m| serialize(&m)) {
                Ok(b) => {
                    let x = enc(&Kind::Frame, &Val::Frame(s.ftype.unwrap(), expect.clone()));
                    c.check("framed layout", b == x, || {
                        format!("{} {}: frame {}, specification says {}", s.name, v.show(), hexs(&b), hexs(&x))
                    });
                }
                Err(e) => c.fail("framed layout", format!("{} {} cannot be framed: {e}", s.name, v.show())),
            }
        }
    });
    // all values of the small integers
    let all16 = ctx.n(65536, 65536);
    ctx.section("all-u16", if ctx.tiny() { 16 } else { 256 }, |c| {
        for lo in 0..all16 / 256 {
            let x = (c.idx * 256 + lo) as u16;
            let b = serialize(&x).unwrap_or_default();
            c.check("layout equals reference", b == [x as u8, (x >> 8) as u8], || format!("u16 {x} encodes to {}", hexs(&b)));
        }
        c.eval_enum(256);
    });
    ctx.require(&["layout equals reference", "framed layout", "layout read as specified"]);
}

// ---------------------------------------------------------------- C04

fn strict(c: &mut Case, s: &'static Subject, b: &[u8]) {
    c.eval(vhash(s, b));
    let expect = decode(&s.kind, b);
    strict_with(c, s, b, expect)
}
fn strict_with(c: &mut Case, s: &'static Subject, b: &[u8], expect: Option<(Val, usize)>) {
    let got = s.decode(b);
    match (&expect, &got) {
        (None, Err(_)) => {
            c.obs("rejected as required", 1);
        }
        (Some((v, _)), Err(_)) if unreduced(&s.kind, v) => {}
        (Some((v, n)), Ok((w, m))) => {
            c.check("accepted value", v == w && n == m, || {
                format!(
                    "{}: {} decodes to {} consuming {m}, should be {} consuming {n}",
                    s.name, hexs(b), w.show(), v.show()
                )
            });
            if s.name != "bool" {
                match (s.reencode)(b) {
                    Ok(x) => {
                        c.check("canonical", x == b[..*n], || {
                            format!("{}: {} is accepted but re-encodes to {}", s.name, hexs(&b[..*n]), hexs(&x))
                        });
                    }
                    Err(e) => c.fail("canonical", format!("{}: value of {} cannot be re-encoded: {e}", s.name, hexs(b))),
                }
            }
        }
        (None, Ok((w, m))) => c.fail(
            "rejected as required",
            format!("{}: {} must be rejected but decodes to {} ({m} bytes)", s.name, hexs(b), w.show()),
        ),
        (Some((v, _)), Err(e)) => c.fail(
            "accepted value",
            format!("{}: {} must decode to {} but is rejected: {e}", s.name, hexs(b), v.show()),
        ),
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("an input is a byte string offered to one type's decoder and to the reference decoder: near-valid mutations, one invalid field inside a whole message, all truncations, single-bit flips, all strings of 1 and 2 bytes (thorough: 3), UTF-8 boundary sequences. Distinct by type and bytes.");
    let subs = subjects();
    ctx.section("hostile", ctx.n(700_000, 24_000_000) / 8, |c| {
        for _ in 0..8 {
            let s = &subs[c.rng.below(subs.len())];
            let b = hostile_input(&mut c.rng, &s.kind);
            if c.idx < 40 {
                c.sample(|| format!("{} <- {} : {}", s.name, hexs(&b), if decode(&s.kind, &b).is_some() { "value" } else { "reject" }));
            }
            strict(c, s, &b);
        }
    });
    ctx.section("truncations", subs.len() as u64 * ctx.n(40, 600), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let b = enc(&s.kind, &gen(&mut c.rng, &s.kind));
        let step = 1 + b.len() / 600;
        let mut n = 0;
        while n < b.len() {
            strict(c, s, &b[..n]);
            n += step;
        }
    });
    ctx.section("bit-flips", subs.len() as u64 * ctx.n(10, 200), |c| {
        let s = &subs[c.idx as usize % subs.len()];
        let v = if c.rng.bool() { model::plain(&s.kind) } else { gen(&mut c.rng, &s.kind) };
        let b = enc(&s.kind, &v);
        for i in 0..(b.len() * 8).min(6000) {
            let mut t = b.clone();
            t[i / 8] ^= 1 << (i % 8);
            strict(c, s, &t);
        }
    });
    if !ctx.tiny() {
        ctx.section("all-short", subs.len() as u64 * 16, |c| {
            let s = &subs[c.idx as usize / 16];
            let hi = c.idx as u16 % 16;
            if hi == 0 {
                strict(c, s, &[]);
                for x in 0..=255u8 {
                    strict(c, s, &[x]);
                }
            }
            for x in 0..4096u16 {
                let b = (hi << 12 | x).to_be_bytes();
                let e = decode(&s.kind, &b);
                strict_with(c, s, &b, e);
            }
            c.eval_enum(4096);
        });
        // text: all 2-byte contents; boundary bytes for longer sequences
        let s = by_name("STR0_255");
        let edge: &[u8] = &[
            0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1,
            0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff,
        ];
        ctx.section("utf8", 256, |c| {
            let a = c.idx as u8;
            for x in 0..=255u8 {
                strict(c, s, &[2, a, x]);
            }
            if edge.contains(&a) {
                for &x in edge {
                    for &y in edge {
                        strict(c, s, &[3, a, x, y]);
                        for &z in edge {
                            strict(c, s, &[4, a, x, y, z]);
                        }
                    }
                }
            }
        });
        // every Unicode scalar value as text
        ctx.section("all-scalars", 0x1100, |c| {
            for lo in 0..256u32 {
                if let Some(ch) = char::from_u32(c.idx as u32 * 256 + lo) {
                    let v = Val::S(ch.to_string());
                    let b = enc(&s.kind, &v);
                    strict_with(c, s, &b, Some((v, b.len())));
                    c.eval_enum(1);
                }
            }
        });
    }
    if ctx.tier == crate::ctx::Tier::Thorough {
        ctx.section("all-3-bytes", subs.len() as u64 * 256, |c| {
            let s = &subs[c.idx as usize / 256];
            let a = c.idx as u8;
            for x in 0..65536u32 {
                let b = [a, (x >> 8) as u8, x as u8];
                let e = decode(&s.kind, &b);
                strict_with(c, s, &b, e);
            }
            c.eval_enum(65536);
        });
    }
    ctx.require(&["rejected as required", "accepted value", "canonical"]);
}

// ---------------------------------------------------------------- C05

macro_rules! bounded_bytes {
    ($c:expr, $t:ident, $max:expr, $data:expr, $len:expr) => {{
        let data: Vec<u8> = $data;
        let fits = data.len() <= $max;
        $c.eval(hash(&[stringify!($t).as_bytes(), &data]));
        // from an owned vector and from a slice
        for slice in [false, true] {
            let r = if slice { $t::new(data.as_slice()) } else { $t::new(data.clone()) };
            match r {
                Ok(x) => {
                    $c.check("limit", fits, || format!("{} accepts {} bytes", stringify!($t), data.len()));
                    let f: fn(&$t) -> usize = $len;
                    $c.check("recorded length", f(&x) == data.len(), || format!("{} of {} bytes records length {}", stringify!($t), data.len(), f(&x)));
                    $c.check("content", x.data == data, || format!("{} of {} holds {}", stringify!($t), hexs(&data), hexs(&x.data)));
                    $c.check("comparison", x == data && data == x, || format!("{} of {} differs from its content", stringify!($t), hexs(&data)));
                    let mut other = data.clone();
                    if !other.is_empty() {
                        let k = $c.rng.below(other.len());
                        other[k] ^= 1 << $c.rng.below(8);
                        $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {} equals {}", stringify!($t), hexs(&data), hexs(&other)));
                        other = data[..data.len() - 1].to_vec();
                        $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {} equals its prefix", stringify!($t), hexs(&data)));
                    }
                    other = data.clone();
                    other.push(0);
                    $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {} equals an extension", stringify!($t), hexs(&data)));
                    let y = x.clone();
                    $c.check("comparison", y == x, || format!("clone of {} of {} differs", stringify!($t), hexs(&data)));
                    let v: Vec<u8> = x.into();
                    $c.check("conversion", v == data, || format!("{} of {} converts to {}", stringify!($t), hexs(&data), hexs(&v)));
                }
                Err(e) => {
                    $c.check("limit", !fits, || format!("{} refuses {} bytes: {e}", stringify!($t), data.len()));
                }
            }
        }
    }};
}
macro_rules! bounded_str {
    ($c:expr, $t:ident, $max:expr, $data:expr) => {{
        let data: String = $data;
        let fits = data.len() <= $max;
        $c.eval(hash(&[stringify!($t).as_bytes(), data.as_bytes()]));
        for slice in [false, true] {
            let r = if slice { $t::new(data.as_str()) } else { $t::new(data.clone()) };
            match r {
                Ok(x) => {
                    $c.check("limit", fits, || format!("{} accepts {} bytes", stringify!($t), data.len()));
                    $c.check("recorded length", x.length as usize == data.len(), || format!("{} of {} bytes records length {}", stringify!($t), data.len(), x.length));
                    $c.check("content", x.data == data, || format!("{} of {data:?} holds {:?}", stringify!($t), x.data));
                    $c.check("comparison", x == data && data == x, || format!("{} of {data:?} differs from its content", stringify!($t)));
                    let other = format!("{data}x");
                    $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {data:?} equals an extension", stringify!($t)));
                    if let Some((k, ch)) = data.char_indices().last() {
                        let other = data[..k].to_string();
                        $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {data:?} equals its prefix", stringify!($t)));
                        let repl = if ch == 'q' { 'r' } else { 'q' };
                        let other = format!("{}{repl}", &data[..k]);
                        $c.check("comparison", !(x == other) && !(other == x), || format!("{} of {data:?} equals {other:?}", stringify!($t)));
                        let upper = data.to_uppercase();
                        if upper != data {
                            $c.check("comparison", !(x == upper) && !(upper == x), || format!("{} of {data:?} equals {upper:?}", stringify!($t)));
                        }
                    }
                    let y = x.clone();
                    $c.check("comparison", y == x, || format!("clone of {} of {data:?} differs", stringify!($t)));
                    let v: String = x.into();
                    $c.check("conversion", v == data, || format!("{} of {data:?} converts to {v:?}", stringify!($t)));
                }
                Err(e) => {
                    $c.check("limit", !fits, || format!("{} refuses {} bytes: {e}", stringify!($t), data.len()));
                }
            }
        }
    }};
}

pub fn c05(ctx: &Ctx) {
    ctx.rule("a case is a content offered to one bounded type (or to a message with a bounded field): every length from 0 to beyond each small limit, lengths around 2^15, 2^16, 2^23 and 2^24 for the large ones, with ASCII, multi-byte, zero and random contents; every 24-bit integer. Distinct by type and content.");
    ctx.section("bytes-small", if ctx.tiny() { 40 } else { 600 }, |c| {
        let n = c.idx as usize;
        for _ in 0..c.ctx.n(6, 60) {
            let d = gen_bytes_len(&mut c.rng, n);
            bounded_bytes!(c, B0_31, 31, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_32, 32, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_255, 255, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_64K, 65535, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_16M, (1 << 24) - 1, d, |x| x.length.0 as usize);
        }
    });
    ctx.section("strings", if ctx.tiny() { 40 } else { 600 }, |c| {
        let n = c.idx as usize;
        for _ in 0..c.ctx.n(24, 400) {
            let d = gen_str_len(&mut c.rng, n);
            bounded_str!(c, STR0_32, 32, d.clone());
            bounded_str!(c, STR0_255, 255, d);
        }
        // n characters of each width: bytes count, not characters
        for ch in ['a', 'é', '€', '\u{1f600}', '\0', ' '] {
            let d: String = std::iter::repeat(ch).take(n).collect();
            bounded_str!(c, STR0_32, 32, d.clone());
            bounded_str!(c, STR0_255, 255, d);
        }
    });
    ctx.section("string-contents", ctx.n(4000, 100_000), |c| {
        let n = c.rng.below(40);
        let d = gen_str_len(&mut c.rng, n);
        bounded_str!(c, STR0_32, 32, d.clone());
        bounded_str!(c, STR0_255, 255, d);
        let ds = &dict().strs;
        if !ds.is_empty() {
            let d = ds[c.idx as usize % ds.len()].clone();
            bounded_str!(c, STR0_32, 32, d.clone());
            bounded_str!(c, STR0_255, 255, d);
        }
    });
    if !ctx.tiny() {
        let mut lens: Vec<usize> = vec![];
        for k in [15u32, 16, 17] {
            for d in -3i64..=3 {
                lens.push(((1i64 << k) + d) as usize);
            }
        }
        for k in [10u32, 12, 14, 18, 20] {
            for d in -1i64..=1 {
                lens.push(((1i64 << k) + d) as usize);
            }
        }
        lens.extend(dict().upto(200_000).iter().filter(|v| **v > 600).map(|v| *v as usize));
        ctx.section("bytes-large", lens.len() as u64, |c| {
            let d = gen_bytes_len(&mut c.rng, lens[c.idx as usize]);
            bounded_bytes!(c, B0_31, 31, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_32, 32, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_255, 255, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_64K, 65535, d.clone(), |x| x.length as usize);
            bounded_bytes!(c, B0_16M, (1 << 24) - 1, d, |x| x.length.0 as usize);
        });
        let huge = [(1usize << 23) - 1, 1 << 23, (1 << 24) - 2, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 1 << 25];
        ctx.section_t("bytes-huge", huge.len() as u64, 3, |c| {
            let d = c.rng.bytes(huge[c.idx as usize]);
            bounded_bytes!(c, B0_16M, (1 << 24) - 1, d.clone(), |x| x.length.0 as usize);
            bounded_bytes!(c, B0_64K, 65535, d, |x| x.length as usize);
        });
    }
    // bounded fields of messages: through constructors, and through decoding
    let subs = messages();
    ctx.section("message-fields", ctx.n(60_000, 1_500_000), |c| {
        let s = subs[c.rng.below(subs.len())];
        let mut v = gen(&mut c.rng, &s.kind);
        let fields = match (&s.kind, &v) {
            (Kind::Msg(_, f), _) => f.clone(),
            (Kind::Setup(a, b), Val::Setup(p, _)) => match if *p == 0 { &**a } else { &**b } {
                Kind::Msg(_, f) => f.clone(),
                _ => return,
            },
            _ => return,
        };
        let m = match &mut v {
            Val::M(m) => m,
            Val::Setup(_, x) => match &mut **x {
                Val::M(m) => m,
                _ => return,
            },
            _ => return,
        };
        let idx: Vec<usize> = (0..fields.len()).filter(|i| matches!(fields[*i].1, Kind::Str(_) | Kind::Bytes(..))).collect();
        if idx.is_empty() {
            return;
        }
        let i = *c.rng.pick(&idx);
        let (max, is_str) = match fields[i].1 {
            Kind::Str(m) => (m, true),
            Kind::Bytes(_, m) => (m, false),
            _ => return,
        };
        let n = match c.rng.below(5) {
            0 => max,
            1 => max + 1,
            2 => max - c.rng.below(3),
            3 => max + 1 + c.rng.below(300),
            _ => c.rng.below(max + 40),
        };
        m[i] = if is_str { Val::S(gen_str_len(&mut c.rng, n)) } else { Val::B(gen_bytes_len(&mut c.rng, n)) };
        let ok = model::valid(&s.kind, &v);
        c.eval(hash(&[s.name.as_bytes(), format!("{v:?}").as_bytes()]));
        match (s.lens_ok)(&v) {
            Ok(l) => {
                c.check("limit", ok, || format!("{} accepts {} with field {} of {n} bytes", s.name, v.show(), fields[i].0));
                c.check("recorded length", l, || format!("{} {}: a recorded length differs from its content", s.name, v.show()));
                if let Ok(Ok((b, _))) = s.encode(&v) {
                    if let Ok((w, _)) = s.decode(&b) {
                        c.check("content", w == v, || format!("{}: {} became {}", s.name, v.show(), w.show()));
                    }
                }
            }
            Err(e) => {
                c.check("limit", !ok, || format!("{} refuses {} with field {} of {n} bytes: {e}", s.name, v.show(), fields[i].0));
            }
        }
    });
    // decoded bounded values
    let simple: Vec<&'static Subject> = subjects().iter().filter(|s| matches!(s.kind, Kind::Str(_) | Kind::Bytes(..))).collect();
    ctx.section("decoded", simple.len() as u64 * if ctx.tiny() { 8 } else { 300 }, |c| {
        let s = simple[c.idx as usize % simple.len()];
        let n = c.idx as usize / simple.len();
        let (lw, lim) = match s.kind {
            Kind::Str(_) => (1, 255),
            Kind::Bytes(w, _) => (w, 300),
            _ => return,
        };
        if n > lim {
            return;
        }
        for _ in 0..4 {
            let body = if matches!(s.kind, Kind::Str(_)) { gen_str_len(&mut c.rng, n).into_bytes() } else { gen_bytes_len(&mut c.rng, n) };
            let mut b: Vec<u8> = (0..lw).map(|i| (n >> (8 * i)) as u8).collect();
            b.extend_from_slice(&body);
            strict(c, s, &b);
        }
    });
    // U24 and U256
    ctx.section("u24", if ctx.tiny() { 2 } else { 256 }, |c| {
        for lo in 0..65536u32 {
            if c.ctx.tiny() && lo % 997 != 0 {
                continue;
            }
            let v = (c.idx as u32) << 16 | lo;
            u24_case(c, v as u64, true);
        }
        c.eval_enum(65536);
    });
    ctx.section("u24-over", ctx.n(20_000, 2_000_000), |c| {
        let v = match c.rng.below(5) {
            0 => (1u64 << 24) + c.rng.below(70_000) as u64,
            1 => u32::MAX as u64 - c.rng.below(300) as u64,
            2 => (1u64 << c.rng.range(24, 63)) + (c.rng.u64() & 0xffff),
            3 => *c.rng.pick(&dict().ints),
            _ => c.rng.u64() >> c.rng.below(40),
        };
        c.eval(v);
        u24_case(c, v, v < 1 << 24);
    });
    ctx.section("u256", ctx.n(4000, 100_000), |c| {
        let b = gen_bytes_len(&mut c.rng, 32);
        let mut a = [0u8; 32];
        a.copy_from_slice(&b);
        let x = U256::from(a);
        let mut o = a;
        o[c.rng.below(32)] ^= 1 << c.rng.below(8);
        c.check("comparison", x == a && a == x && !(x == o) && !(o == x) && x == U256(a) && x != U256(o), || format!("U256 {} comparison", hexs(&a)));
        let y: [u8; 32] = x.clone().into();
        c.check("conversion", y == a && x.0 == a, || format!("U256 {} converts to {}", hexs(&a), hexs(&y)));
        c.eval(hash(&[b"u256", &a]));
    });
    ctx.require(&["limit", "recorded length", "content", "comparison", "conversion", "u24 range"]);
}

fn u24_case(c: &mut Case, v: u64, fits: bool) {
    // every bit of the native value counts in a comparison
    let full = v % 61 == 0;
    let mut all: Vec<(&str, Result<U24, Error>)> = Vec::with_capacity(3);
    if v <= u32::MAX as u64 {
        all.push(("new", U24::new(v as u32)));
        all.push(("try_from u32", U24::try_from(v as u32)));
    }
    all.push(("try_from usize", U24::try_from(v as usize)));
    for (how, r) in all {
        match r {
            Ok(x) => {
                let ok = fits
                    && x.0 as u64 == v
                    && x == v as u32
                    && v as u32 == x
                    && !(x == (v as u32) ^ 1)
                    && (8..32).step_by(if full { 1 } else { 5 }).all(|k| !(x == (v as u32) ^ 1 << k) && !((v as u32) ^ 1 << k == x))
                    && u32::from(x.clone()) as u64 == v
                    && usize::from(x.clone()) as u64 == v;
                c.check("u24 range", ok, || format!("U24 {how} of {v} gives {:?}", x));
            }
            Err(e) => {
                c.check("u24 range", !fits, || format!("U24 {how} refuses {v}: {e}"));
            }
        }
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(ctx: &Ctx) {
    ctx.rule("a case is a combination of field values offered to the constructor, and as wire bytes to decoding and unframing, of the setup messages of both sub protocols and the setup error; grids over empty/non-empty texts and versions, all 65536 versions, all flag sets and codes; certificates over a grid of periods. Distinct by message and values.");
    let setups: Vec<&'static Subject> = subjects()
        .iter()
        .filter(|s| s.name.ends_with("SetupConnection"))
        .collect();
    let grid_v: &[u64] = &[0, 1, 2, 3, 4, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff];
    let texts = ["", "a", " ", "\0", "é", "\u{feff}", "Braiins", "0"];
    ctx.section("setup-grid", (setups.len() * grid_v.len() * grid_v.len()) as u64, |c| {
        let s = setups[c.idx as usize % setups.len()];
        let k = c.idx as usize / setups.len();
        for vendor in texts.iter().chain(&["L255", "L256"]) {
            for fw in texts.iter().chain(&["L255", "L256"]) {
                for hw in ["", "x"] {
                    let t = |s: &str| match s {
                        "L255" => "v".repeat(255),
                        "L256" => "v".repeat(256),
                        s => s.to_string(),
                    };
                    let host = if c.rng.bool() { "" } else { "h.example" };
                    let dev = if c.rng.bool() { "" } else { "d" };
                    let p = c.rng.below(2) as u8;
                    let v = setup_val(
                        s,
                        p,
                        grid_v[k % grid_v.len()],
                        grid_v[k / grid_v.len()],
                        c.rng.u32(),
                        host,
                        c.rng.u32() as u16,
                        &t(vendor),
                        hw,
                        &t(fw),
                        dev,
                    );
                    requirement(c, s, &v);
                }
            }
        }
    });
    ctx.section("setup-versions", if ctx.tiny() { 4 } else { setups.len() as u64 * 64 }, |c| {
        let s = setups[c.idx as usize % setups.len()];
        let hi = c.idx / setups.len() as u64;
        for lo in 0..if c.ctx.tiny() { 8 } else { 1024 } {
            let x = hi * 1024 + lo;
            let p = (lo & 1) as u8;
            let v = setup_val(s, p, x, 2, 0, "h", 1, "v", "", "f", "");
            requirement(c, s, &v);
            let v = setup_val(s, p, 2, x, 0, "h", 1, "v", "", "f", "");
            requirement(c, s, &v);
        }
    });
    ctx.section("setup-random", ctx.n(60_000, 2_000_000), |c| {
        let s = setups[c.rng.below(setups.len())];
        let mut v = gen(&mut c.rng, &s.kind);
        if c.rng.chance(2, 3) {
            let m = match &mut v {
                Val::M(m) => m,
                Val::Setup(_, x) => match &mut **x {
                    Val::M(m) => m,
                    _ => return,
                },
                _ => return,
            };
            for _ in 0..c.rng.range(1, 3) {
                match c.rng.below(7) {
                    0 => m[0] = Val::U(c.rng.below(4) as u64),
                    1 => m[1] = Val::U(c.rng.below(4) as u64),
                    2 => m[5] = Val::S(String::new()),
                    3 => m[7] = Val::S(String::new()),
                    4 => {
                        let k = *c.rng.pick(&[3usize, 6, 8]);
                        m[k] = Val::S(String::new());
                    }
                    5 => {
                        let k = *c.rng.pick(&[3usize, 5, 6, 7, 8]);
                        let n = 254 + c.rng.below(4);
                        m[k] = Val::S(gen_str_len(&mut c.rng, n));
                    }
                    _ => m.swap(0, 1),
                }
            }
        }
        requirement(c, s, &v);
    });
    let errs: Vec<&'static Subject> = subjects().iter().filter(|s| s.name.ends_with("::SetupConnectionError")).collect();
    ctx.section("setup-error", errs.len() as u64, |c| {
        let s = errs[c.idx as usize];
        let mask = if s.name.starts_with("mining") { M_FLAGS } else { J_FLAGS };
        for f in 0..=mask {
            for code in 0..3 {
                requirement(c, s, &Val::M(vec![Val::U(f as u64), Val::Code(code)]));
            }
        }
    });
    // everything else is unrestricted
    let rest: Vec<&'static Subject> = messages().into_iter().filter(|s| !s.name.contains("SetupConnection")).collect();
    ctx.section("unrestricted", ctx.n(40_000, 600_000), |c| {
        let s = rest[c.rng.below(rest.len())];
        let v = if c.rng.bool() { gen(&mut c.rng, &s.kind) } else { extreme(&mut c.rng, &s.kind) };
        requirement(c, s, &v);
    });
    // certificates
    let ts: &[u32] = &[0, 1, 2, 255, 256, 65535, 65536, 1_000_000_000, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff];
    let pk = noiseexplorer_nx::types::PublicKey::from_bytes([9; 32]).ok();
    ctx.section("certificate", ctx.n(40_000, 1_000_000), |c| {
        let pk = match &pk {
            Some(p) => p,
            None => return,
        };
        let g = (ts.len() * ts.len()) as u64;
        let (a, b) = if c.idx < g {
            (ts[c.idx as usize / ts.len()], ts[c.idx as usize % ts.len()])
        } else {
            let a = model::gen_int(&mut c.rng, 32) as u32;
            let b = match c.rng.below(4) {
                0 => a,
                1 => a.wrapping_add(1),
                2 => a.wrapping_sub(1),
                _ => model::gen_int(&mut c.rng, 32) as u32,
            };
            (a, b)
        };
        let ver = model::gen_int(&mut c.rng, 16) as u16;
        c.eval(hash(&[&a.to_le_bytes(), &b.to_le_bytes(), &ver.to_le_bytes()]));
        match stratumv2::noise::SignedCertificate::new(ver, a, b, pk) {
            Ok(x) => {
                c.check("certificate period", a < b, || format!("certificate with valid_from {a} and not_valid_after {b} is accepted"));
                c.check("certificate fields", x.version == ver && x.valid_from == a && x.not_valid_after == b && *x.public_key == *pk, || {
                    format!("certificate ({ver}, {a}, {b}) holds ({}, {}, {})", x.version, x.valid_from, x.not_valid_after)
                });
            }
            Err(e) => {
                c.check("certificate period", a >= b, || format!("certificate with valid_from {a} and not_valid_after {b} is refused: {e}"));
            }
        }
    });
    ctx.require(&["constructor verdict", "decoder verdict", "unframe verdict", "certificate period"]);
}

#[allow(clippy::too_many_arguments)]
fn setup_val(s: &Subject, p: u8, min: u64, max: u64, flags: u32, host: &str, port: u16, vendor: &str, hw: &str, fw: &str, dev: &str) -> Val {
    let job = match s.name {
        "common::SetupConnection" => p == 1,
        n => n.starts_with("job"),
    };
    let mask = if job { J_FLAGS } else { M_FLAGS };
    let m = Val::M(vec![
        Val::U(min),
        Val::U(max),
        Val::U((flags & mask) as u64),
        Val::S(host.into()),
        Val::U(port as u64),
        Val::S(vendor.into()),
        Val::S(hw.into()),
        Val::S(fw.into()),
        Val::S(dev.into()),
    ]);
    if s.name == "common::SetupConnection" {
        Val::Setup(p, Box::new(m))
    } else {
        m
    }
}

fn no_rules(k: &Kind) -> Kind {
    match k {
        Kind::Msg(_, f) => Kind::Msg(Rule::None, f.clone()),
        Kind::Setup(a, b) => Kind::Setup(Box::new(no_rules(a)), Box::new(no_rules(b))),
        k => k.clone(),
    }
}

fn requirement(c: &mut Case, s: &'static Subject, v: &Val) {
    let ok = model::valid(&s.kind, v);
    let loose = no_rules(&s.kind);
    c.eval(hash(&[s.name.as_bytes(), format!("{v:?}").as_bytes()]));
    if c.idx == 7 {
        c.sample(|| format!("{} {} must be {}", s.name, v.show(), if ok { "accepted" } else { "refused" }));
    }
    let r = (s.build)(v);
    c.check("constructor verdict", r.is_ok() == ok, || {
        format!(
            "{}: constructor {} {}",
            s.name,
            match &r {
                Ok(()) => "accepts".to_string(),
                Err(e) => format!("refuses ({e})"),
            },
            v.show()
        )
    });
    // on the wire, if the sizes permit writing it down at all
    if model::valid(&loose, v) {
        let b = enc(&loose, v);
        let r = s.decode(&b);
        c.check("decoder verdict", r.is_ok() == ok, || {
            format!(
                "{}: decoding {} of {}",
                s.name,
                match &r {
                    Ok(_) => "yields a value".to_string(),
                    Err(e) => format!("fails ({e})"),
                },
                v.show()
            )
        });
        let m = Message::new(MT_V[s.ftype.unwrap()], b);
        let r = (s.unframe.unwrap())(&m);
        c.check("unframe verdict", r.is_ok() == ok, || {
            format!(
                "{}: unframing {} of {}",
                s.name,
                match &r {
                    Ok(_) => "yields a value".to_string(),
                    Err(e) => format!("fails ({e})"),
                },
                v.show()
            )
        });
    }
}

// ---------------------------------------------------------------- C07

/// Counts what it is given and keeps nothing.
struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn c07(ctx: &Ctx) {
    ctx.rule("a case is a frame header (all 2^24 combinations of the 16-bit extension word and type byte, with matching, short and long payloads), a frame to encode, an unframe request for each pair of frame type and message type, or an oversize payload. Distinct by construction or by bytes.");
    if !ctx.tiny() {
        ctx.section("all-headers", 65536, |c| {
            let ext = (c.idx as u16).to_le_bytes();
            for t in 0..=255u8 {
                let h = [ext[0], ext[1], t, 2, 0, 0, 0xaa, 0xbb, 0xcc];
                header_case(c, &h, 2);
            }
            c.eval_enum(256);
        });
    }
    // known types, all payload lengths up to 300, with too few / exactly / too many bytes
    ctx.section("payload-lengths", 29 * if ctx.tiny() { 2 } else { 64 }, |c| {
        let t = c.idx as usize % 29;
        let n = match c.idx as usize / 29 {
            k if k < 40 => k * 8 + c.rng.below(8),
            k if k < 52 => (1 << (k - 40)) + c.rng.below(3),
            _ => c.rng.below(70_000),
        };
        let body = gen_bytes_len(&mut c.rng, n + 3);
        for have in [n.saturating_sub(1), n, n + 1, n / 2, 0, n + 3] {
            let mut b = vec![0, if TYPES[t].2 { 0x80 } else { 0 }, TYPES[t].1, n as u8, (n >> 8) as u8, (n >> 16) as u8];
            b.extend_from_slice(&body[..have]);
            header_case(c, &b, n);
            c.eval(hash(&[&b]));
        }
        for cut in 0..6 {
            header_case(c, &[0, 0, 0, 0, 0, 0][..cut], 0);
        }
    });
    // encoding: header bytes
    ctx.section("encode", ctx.n(60_000, 1_500_000), |c| {
        let t = c.rng.below(29);
        let n = gen_len(&mut c.rng, 400);
        let p = gen_bytes_len(&mut c.rng, n);
        encode_case(c, t, p);
    });
    ctx.section("encode-lengths", 29, |c| {
        for n in 0..if c.ctx.tiny() { 4 } else { 1100 } {
            encode_case(c, c.idx as usize, vec![n as u8; n]);
        }
        if !c.ctx.tiny() {
            for k in [65535usize, 65536, 65537, 0x10203, 0x30201] {
                encode_case(c, c.idx as usize, vec![7; k]);
            }
            for v in dict().upto(30_000) {
                encode_case(c, c.idx as usize, vec![9; *v as usize]);
            }
        }
    });
    // a frame is unframed only as the type it carries
    let msgs = messages();
    ctx.section("cross-unframe", (msgs.len() * 29) as u64, |c| {
        let s = msgs[c.idx as usize / 29];
        let t = c.idx as usize % 29;
        for _ in 0..c.ctx.n(20, 400) {
            let v = gen(&mut c.rng, &s.kind);
            let p = enc(&s.kind, &v);
            c.eval(hash(&[s.name.as_bytes(), &[t as u8], &p]));
            let r = (s.unframe.unwrap())(&Message::new(MT_V[t], p.clone()));
            let ok = t == s.ftype.unwrap();
            c.check("unframe type", r.is_ok() == ok, || {
                format!("frame of type {} with a {} payload {} unframed as {}", TYPES[t].0, s.name, if r.is_ok() { "is" } else { "is not" }, s.name)
            });
            // and through the wire
            let wire = enc(&Kind::Frame, &Val::Frame(t, p));
            match deserialize::<Message>(&wire) {
                Ok(m) => {
                    let r = (s.unframe.unwrap())(&m);
                    c.check("unframe type", r.is_ok() == ok, || format!("received frame of type {} unframed as {}: {}", TYPES[t].0, s.name, r.is_ok()));
                }
                Err(e) => c.fail("known header accepted", format!("frame of type {} rejected: {e}", TYPES[t].0)),
            }
        }
    });
    // an empty or foreign payload does not make a frame acceptable as another type
    ctx.section("cross-unframe-any", ctx.n(60_000, 1_000_000), |c| {
        let s = msgs[c.rng.below(msgs.len())];
        let t = c.rng.below(29);
        if t == s.ftype.unwrap() {
            return;
        }
        let p = match c.rng.below(4) {
            0 => vec![],
            1 => vec![0; c.rng.below(200)],
            _ => {
                let o = msgs[c.rng.below(msgs.len())];
                enc(&o.kind, &gen(&mut c.rng, &o.kind))
            }
        };
        c.eval(hash(&[s.name.as_bytes(), &[t as u8], &p]));
        let r = (s.unframe.unwrap())(&Message::new(MT_V[t], p.clone()));
        c.check("unframe type", r.is_err(), || format!("frame of type {} with payload {} unframed as {}", TYPES[t].0, hexs(&p), s.name));
    });
    // framing uses the right type
    ctx.section("frame-type", msgs.len() as u64, |c| {
        let s = msgs[c.idx as usize];
        for _ in 0..c.ctx.n(200, 2000) {
            let v = gen(&mut c.rng, &s.kind);
            match (s.frame.unwrap())(&v) {
                Ok(m) => {
                    c.check("frame type", m.message_type == MT_V[s.ftype.unwrap()], || format!("{} framed as {:?}", s.name, m.message_type));
                }
                Err(e) => c.fail("frame type", format!("{} {} cannot be framed: {e}", s.name, v.show())),
            }
        }
    });
    // the number table itself, against the specification
    ctx.section("table", 1, |c| {
        for (i, t) in MT_V.iter().enumerate() {
            let (name, n, ch) = TYPES[i];
            c.check("type table", t.ext_type() == 0 && t.msg_type() == n && t.channel_bit() == ch, || {
                format!("{name}: ext {:#x} type {:#x} channel {}", t.ext_type(), t.msg_type(), t.channel_bit())
            });
        }
    });
    if !ctx.tiny() {
        // oversize payloads: refused without output
        let sizes: Vec<usize> = vec![
            (1 << 24) - 1,
            1 << 24,
            (1 << 24) + 1,
            (1 << 24) + 77,
            1 << 25,
            (1 << 25) - 1,
            (1 << 31) + 5,
            (1usize << 32) - 1,
            1usize << 32,
            (1usize << 32) + 1,
            (1usize << 32) + (1 << 24) - 1,
            (1usize << 32) + 300,
        ];
        ctx.section_t("oversize", sizes.len() as u64, 1, |c| {
            let n = sizes[c.idx as usize];
            let t = c.rng.below(29);
            let m = Message::new(MT_V[t], vec![0u8; n]);
            let mut w = Count(0);
            let r = m.serialize(&mut w);
            c.eval(n as u64);
            if n < 1 << 24 {
                c.check("maximal payload", matches!(&r, Ok(k) if *k == n + 6) && w.0 == n + 6, || format!("payload of {n} bytes: {:?}, {} bytes written", r.as_ref().ok(), w.0));
            } else {
                c.check("oversize refused", r.is_err(), || format!("payload of {n} bytes is framed, {} bytes written", w.0));
                c.check("oversize silent", w.0 == 0, || format!("payload of {n} bytes: {} bytes written before the refusal", w.0));
            }
        });
        ctx.require(&["oversize refused", "unknown header rejected", "known header accepted"]);
    }
    ctx.require(&["unframe type", "type table", "header encoding"]);
}

fn header_case(c: &mut Case, b: &[u8], _n: usize) {
    let expect = decode(&Kind::Frame, b);
    let got = deserialize::<Message>(b);
    match (expect, got) {
        (None, Err(_)) => c.obs("unknown header rejected", 1),
        (Some((Val::Frame(t, p), _)), Ok(m)) => {
            c.check("known header accepted", m.message_type == MT_V[t] && m.payload == p, || {
                format!("{} decodes to {:?} with payload {}", hexs(b), m.message_type, hexs(&m.payload))
            });
        }
        (None, Ok(m)) => c.fail("unknown header rejected", format!("{} must be rejected but decodes to {:?} with {} payload bytes", hexs(b), m.message_type, m.payload.len())),
        (_, Err(e)) => c.fail("known header accepted", format!("{} is rejected: {e}", hexs(b))),
        _ => {}
    }
}

fn encode_case(c: &mut Case, t: usize, p: Vec<u8>) {
    let v = Val::Frame(t, p.clone());
    let x = enc(&Kind::Frame, &v);
    c.eval(hash(&[&x]));
    match serialize(&Message::new(MT_V[t], p)) {
        Ok(b) => {
            c.check("header encoding", b == x, || format!("{} frame: {} instead of {}", TYPES[t].0, hexs(&b), hexs(&x)));
        }
        Err(e) => c.fail("header encoding", format!("{} frame with {} bytes fails: {e}", TYPES[t].0, x.len() - 6)),
    }
}

// ---------------------------------------------------------------- C08

pub fn c08(ctx: &Ctx) {
    ctx.rule("a case is a sequence of 0 to 40 frames (random types and payloads, real messages, empty and large payloads), concatenated, read back with one parser, and cut at every byte (large streams: at sampled bytes). Distinct by stream.");
    let s = by_name("Message");
    let msgs = messages();
    let mk = |r: &mut Rng| -> Val {
        match r.below(8) {
            0 => Val::Frame(r.below(29), vec![]),
            1 | 2 => {
                let m = msgs[r.below(msgs.len())];
                Val::Frame(m.ftype.unwrap(), enc(&m.kind, &gen(r, &m.kind)))
            }
            3 => {
                // a payload that looks like frames
                let mut p = Vec::new();
                for _ in 0..r.below(4) {
                    let f = Val::Frame(r.below(29), r.bytes(3));
                    p.extend_from_slice(&enc(&Kind::Frame, &f));
                }
                Val::Frame(r.below(29), p)
            }
            _ => gen(r, &Kind::Frame),
        }
    };
    ctx.section("streams", ctx.n(6000, 150_000), |c| {
        let n = match c.rng.below(4) {
            0 => c.rng.below(3),
            1 => c.rng.below(40),
            _ => c.rng.below(7),
        };
        let frames: Vec<Val> = (0..n).map(|_| mk(&mut c.rng)).collect();
        stream_case(c, s, &frames);
    });
    // many frames of one kind after another
    ctx.section("long-streams", ctx.n(40, 400), |c| {
        let n = c.rng.range(200, 1500);
        let frames: Vec<Val> = (0..n).map(|_| Val::Frame(c.rng.below(29), { let k = c.rng.below(12); c.rng.bytes(k) })).collect();
        stream_case(c, s, &frames);
    });
    if !ctx.tiny() {
        ctx.section_t("large-frames", ctx.n(12, 60), 4, |c| {
            let mut frames = Vec::new();
            for _ in 0..c.rng.range(2, 4) {
                let n = *c.rng.pick(&[0usize, 5, 65534, 65535, 65536, 65537, 131_072, 1 << 20, (1 << 24) - 1]);
                frames.push(Val::Frame(c.rng.below(29), c.rng.bytes(n)));
            }
            stream_case(c, s, &frames);
        });
    }
    // messages (not only frames) are self-delimiting as well
    let subs = subjects();
    ctx.section("value-sequences", ctx.n(20_000, 400_000), |c| {
        let s = &subs[c.rng.below(subs.len())];
        let n = c.rng.range(2, 6);
        let vs: Vec<Val> = (0..n).map(|_| gen(&mut c.rng, &s.kind)).collect();
        let mut b = Vec::new();
        for v in &vs {
            model::encode(&s.kind, v, &mut b);
        }
        let (got, end) = (s.decode_seq)(&b, n);
        c.check("sequence of values", got == vs && matches!(end, Ok(e) if e == b.len()), || format!("{} x{n}: {} values read back from {}", s.name, got.len(), hexs(&b)));
    });
    ctx.require(&["whole stream", "cut stream"]);
}

fn stream_case(c: &mut Case, s: &'static Subject, frames: &[Val]) {
    let mut b = Vec::new();
    let mut ends = vec![0usize];
    for f in frames {
        match s.encode(f) {
            Ok(Ok((e, _))) => b.extend_from_slice(&e),
            Ok(Err(e)) | Err(e) => return c.fail("whole stream", format!("frame {} cannot be encoded: {e}", f.show())),
        }
        ends.push(b.len());
    }
    c.eval(hash(&[&b]));
    let (got, end) = (s.decode_seq)(&b, frames.len());
    c.check("whole stream", got == frames && matches!(&end, Ok(e) if *e == b.len()), || {
        let k = got.iter().zip(frames).take_while(|(a, b)| a == b).count();
        format!("stream of {} frames {}: frame {k} read back as {}", frames.len(), hexs(&b), got.get(k).map_or("error".into(), |v| v.show()))
    });
    // one read too many is an error, not a frame
    let (got, end) = (s.decode_seq)(&b, frames.len() + 1);
    c.check("whole stream", got.len() == frames.len() && end.is_err(), || format!("a read after the last of {} frames returns a frame", frames.len()));
    // cuts
    let cuts: Vec<usize> = if b.len() <= 1500 {
        (0..b.len()).collect()
    } else {
        let mut v: Vec<usize> = (0..40).map(|_| c.rng.below(b.len())).collect();
        for e in ends.iter().take(60) {
            for d in 0..8usize {
                v.push((e + d).min(b.len() - 1));
                v.push(e.saturating_sub(d).min(b.len() - 1));
            }
        }
        if b.len() > 1 << 20 {
            v.truncate(60);
        }
        v
    };
    let ctxt = c.ctx.tiny();
    for cut in cuts.into_iter().step_by(if ctxt { 7 } else { 1 }) {
        let complete = ends.iter().filter(|e| **e <= cut).count() - 1;
        let (got, end) = (s.decode_seq)(&b[..cut], frames.len() + 1);
        let ok = got.len() == complete && got[..] == frames[..complete] && end.is_err();
        if !c.check("cut stream", ok, || {
            format!("stream {} cut at byte {cut}: {} frames read, {complete} complete ones, {}", hexs(&b), got.len(), if end.is_err() { "then an error" } else { "no error" })
        }) {
            return;
        }
    }
    // reading from a position inside a buffer, as after earlier reads
    if !frames.is_empty() && b.len() < 100_000 {
        let k = c.rng.below(frames.len());
        match (s.decode_at)(&b, ends[k]) {
            Ok((v, e)) => {
                c.check("read at a position", v == frames[k] && e == ends[k + 1], || format!("frame {k} at byte {} reads as {} ending at {e}", ends[k], v.show()));
            }
            Err(e) => c.fail("read at a position", format!("frame {k} at byte {} is rejected: {e}", ends[k])),
        }
    }
}

// ---------------------------------------------------------------- C10

pub fn c10(ctx: &Ctx) {
    ctx.rule("a case is a number or text offered to a conversion: every byte as protocol, every (extension, type) pair, flag words (quick: all words of up to 3 bits, their complements, constants, random; thorough: all 2^32), every text within one edit of a code plus random near texts. Distinct by construction or value.");
    ctx.section("protocol", 1, |c| {
        for b in 0..=255u8 {
            let r = Protocol::try_from(b);
            c.check("protocol numbers", matches!(&r, Ok(p) if (b as usize) < 4 && *p == PROTO_V[b as usize]) || (r.is_err() && b > 3), || format!("protocol byte {b} is {r:?}"));
            let r = deserialize::<Protocol>(&[b]);
            c.check("protocol numbers", matches!(&r, Ok(p) if (b as usize) < 4 && *p == PROTO_V[b as usize]) || (r.is_err() && b > 3), || format!("protocol byte {b} decodes to {r:?}"));
        }
        for (i, p) in PROTO_V.iter().enumerate() {
            let s = serialize(p).unwrap_or_default();
            c.check("protocol numbers", u8::from(p) == i as u8 && u8::from(*p) == i as u8 && s == [i as u8], || format!("{p:?} converts to {} / {} / {}", u8::from(p), u8::from(*p), hexs(&s)));
        }
        c.eval_enum(256);
    });
    ctx.section("message-types", if ctx.tiny() { 3 } else { 65536 }, |c| {
        let ext = c.idx as u16;
        for t in 0..=255u8 {
            let r = MessageType::new(ext, t);
            let e = if ext == 0 { TYPES.iter().position(|x| x.1 == t) } else { None };
            let ok = match (&r, e) {
                (Ok(m), Some(k)) => *m == MT_V[k],
                (Err(_), None) => true,
                _ => false,
            };
            c.check("message type numbers", ok, || format!("message type ({ext:#x}, {t:#x}) is {r:?}"));
        }
        c.eval_enum(256);
    });
    ctx.section("message-type-back", 29, |c| {
        let m = MT_V[c.idx as usize];
        let (name, n, ch) = TYPES[c.idx as usize];
        c.check("message type numbers", m.msg_type() == n && m.ext_type() == 0 && m.channel_bit() == ch, || format!("{name}: {:#x}/{:#x}/{}", m.ext_type(), m.msg_type(), m.channel_bit()));
        let back = MessageType::new(m.ext_type(), m.msg_type());
        c.check("message type numbers", matches!(back, Ok(x) if x == m), || format!("{name} converts back to {back:?}"));
    });
    // named flag bits
    ctx.section("flag-names", 1, |c| {
        use mining::SetupConnectionFlags as M;
        use mining::SetupConnectionSuccessFlags as MS;
        let rows: [(&str, u32, u32); 11] = [
            ("REQUIRES_STANDARD_JOBS", M::REQUIRES_STANDARD_JOBS.bits(), 1),
            ("REQUIRES_WORK_SELECTION", M::REQUIRES_WORK_SELECTION.bits(), 2),
            ("REQUIRES_VERSION_ROLLING", M::REQUIRES_VERSION_ROLLING.bits(), 4),
            ("mining all", M::all().bits(), M_FLAGS),
            ("success NONE", MS::NONE.bits(), 0),
            ("REQUIRES_FIXED_VERSION", MS::REQUIRES_FIXED_VERSION.bits(), 1),
            ("REQUIRES_EXTENDED_CHANNELS", MS::REQUIRES_EXTENDED_CHANNELS.bits(), 2),
            ("success all", MS::all().bits(), M_SUCC),
            ("REQUIRES_ASYNC_JOB_MINING", jn::SetupConnectionFlags::REQUIRES_ASYNC_JOB_MINING.bits(), 1),
            ("job all", jn::SetupConnectionFlags::all().bits(), J_FLAGS),
            ("job success all", jn::SetupConnectionSuccessFlags::all().bits(), J_SUCC),
        ];
        for (n, got, want) in rows {
            c.check("flag numbers", got == want, || format!("flag {n} is {got:#x}, specification says {want:#x}"));
        }
    });
    let words = flag_words(ctx);
    ctx.section("flag-words", (words.len() as u64).div_ceil(4096), |c| {
        let a = c.idx as usize * 4096;
        for w in &words[a..(a + 4096).min(words.len())] {
            flag_case(c, *w);
        }
        c.eval_enum(words.len().min(a + 4096) as u64 - a as u64);
    });
    if ctx.tier == crate::ctx::Tier::Thorough {
        ctx.section("all-flag-words", 65536, |c| {
            for lo in 0..65536u32 {
                flag_case(c, (c.idx as u32) << 16 | lo);
            }
            c.eval_enum(65536);
        });
    }
    // error codes
    ctx.section("codes", 5, |c| code_symbol(c));
    ctx.section("near-codes", 5, |c| {
        let all: Vec<&str> = SETUP_CODES.iter().chain(OPEN_CODES).copied().collect();
        let s = all[c.idx as usize];
        // all single-character deletions, substitutions, insertions over a wide alphabet
        let alpha: Vec<char> = (0u8..=127).map(|x| x as char).chain(['é', '\u{212a}', '\u{17f}', '\u{130}', '\u{131}', '\u{fb01}', '\u{430}', '‐', '–', '\u{200b}', '\u{feff}', 'ｕ']).collect();
        let ch: Vec<char> = s.chars().collect();
        for i in 0..ch.len() {
            let mut t = ch.clone();
            t.remove(i);
            code_text(c, &t.iter().collect::<String>());
            for &a in &alpha {
                let mut t = ch.clone();
                t[i] = a;
                code_text(c, &t.iter().collect::<String>());
            }
        }
        for i in 0..=ch.len() {
            for &a in &alpha {
                let mut t = ch.clone();
                t.insert(i, a);
                code_text(c, &t.iter().collect::<String>());
            }
        }
        // letters that become the right one when letter case, width or accents are ignored
        for i in 0..ch.len() {
            for x in model::lookalikes(ch[i]) {
                let mut t = ch.clone();
                t[i] = x;
                code_text(c, &t.iter().collect::<String>());
            }
        }
        for n in 0..ch.len() {
            code_text(c, &s[..n]);
            code_text(c, &s[n..]);
        }
        for t in &all {
            code_text(c, t);
            code_text(c, &format!("{s}{t}"));
            code_text(c, &format!("{s},{t}"));
            code_text(c, &t.to_uppercase());
            code_text(c, &t.replace('-', "_"));
            code_text(c, &t.replace('-', " "));
            code_text(c, &t.replace('-', ""));
            for n in 1..40 {
                code_text(c, &format!("{t}{}", " ".repeat(n)));
                code_text(c, &format!("{}{t}", " ".repeat(n)));
                code_text(c, &format!("{t}{}", "\0".repeat(n)));
            }
        }
    });
    // every character around and inside a code
    ctx.section("code-scalars", if ctx.tiny() { 2 } else { 0x1100 }, |c| {
        let all: Vec<&str> = SETUP_CODES.iter().chain(OPEN_CODES).copied().collect();
        for ch in model::scalars(c.idx) {
            let s = *c.rng.pick(&all);
            let k = c.rng.below(s.len());
            for t in [format!("{ch}{s}"), format!("{s}{ch}"), format!("{}{ch}{}", &s[..k], &s[k..]), format!("{}{ch}{}", &s[..k], &s[k + 1..])] {
                code_text(c, &t);
            }
        }
    });
    ctx.section("near-codes-random", ctx.n(60_000, 2_000_000), |c| {
        let all: Vec<&str> = SETUP_CODES.iter().chain(OPEN_CODES).copied().collect();
        let mut t = c.rng.pick(&all).to_string();
        for _ in 0..c.rng.range(1, 2) {
            if t.is_empty() {
                break;
            }
            t = model::near_text(&mut c.rng, &t);
        }
        let ds = &dict().strs;
        if c.rng.chance(1, 4) && !ds.is_empty() {
            t = c.rng.pick(ds).clone();
        }
        code_text(c, &t);
    });
    // every string that the sources mention, in front of a code, behind it and instead of it
    ctx.section("affixed-codes", if ctx.tiny() { 1 } else { 5 }, |c| {
        let s = SETUP_CODES.iter().chain(OPEN_CODES).nth(c.idx as usize).unwrap();
        for d in &dict().strs {
            for t in [d.clone(), format!("{d}{s}"), format!("{s}{d}"), format!("{d}{s}{d}"), d.replace("{}", s), d.to_lowercase(), format!("{d}-{s}"), format!("{s}-{d}")] {
                code_text(c, &t);
            }
        }
    });
    if ctx.tier == crate::ctx::Tier::Thorough {
        ctx.exhaustive.store(false, Relaxed);
    }
    ctx.require(&["protocol numbers", "message type numbers", "flag numbers", "code texts", "code symbols"]);
}

fn flag_words(ctx: &Ctx) -> Vec<u32> {
    let mut s = std::collections::BTreeSet::new();
    let lim = if ctx.tiny() { 8 } else { 32 };
    for i in 0..lim {
        for j in 0..lim {
            for k in 0..lim {
                let w = 1u32 << i | 1 << j | 1 << k;
                for x in [w, !w, w | 7, w & !7, w | 1, w | 3] {
                    s.insert(x);
                }
            }
        }
    }
    for w in 0..if ctx.tiny() { 64u32 } else { 65536 } {
        s.insert(w);
        s.insert(w << 16);
    }
    for v in dict().upto(u32::MAX as u64) {
        s.insert(*v as u32);
    }
    let mut r = Rng::of(ctx.seed, "flags", 0);
    for _ in 0..ctx.n(500_000, 500_000) {
        s.insert(r.u32());
    }
    s.into_iter().collect()
}

fn flag_case(c: &mut Case, w: u32) {
    macro_rules! one {
        ($t:ty, $mask:expr) => {{
            let known = w & !$mask == 0;
            let a = <$t>::from_bits(w);
            let b = deserialize::<$t>(&w.to_le_bytes());
            let ok = match (&a, &b) {
                (Some(x), Ok(y)) => known && x.bits() == w && y.bits() == w && x == y && serialize(y).map_or(false, |s| s == w.to_le_bytes()),
                (None, Err(_)) => !known,
                _ => false,
            };
            c.check("flag numbers", ok, || format!("{} word {w:#x}: from_bits {a:?}, decoded {:?}", stringify!($t), b.as_ref().ok()));
        }};
    }
    one!(mining::SetupConnectionFlags, M_FLAGS);
    one!(mining::SetupConnectionSuccessFlags, M_SUCC);
    one!(jn::SetupConnectionFlags, J_FLAGS);
    one!(jn::SetupConnectionSuccessFlags, J_SUCC);
}

fn code_symbol(c: &mut Case) {
    let i = c.idx as usize;
    macro_rules! sym {
        ($t:ty, $v:expr, $s:expr) => {{
            let v: $t = $v;
            let s: &str = $s;
            let mut e = vec![s.len() as u8];
            e.extend_from_slice(s.as_bytes());
            let st = STR0_255::from(&v);
            let rows: Vec<(&str, bool)> = vec![
                ("Display", v.to_string() == s),
                ("Display with width", format!("{:.3}|{:60}", v, v).contains(&s[..3])),
                ("String::from", String::from(&v) == s),
                ("STR0_255 text", st.data == s),
                ("STR0_255 length", st.length as usize == s.len()),
                ("from_str", <$t>::from_str(s).map_or(false, |x| x == v)),
                ("try_from String", <$t>::try_from(s.to_string()).map_or(false, |x| x == v)),
                ("try_from STR0_255", <$t>::try_from(st).map_or(false, |x| x == v)),
                ("encoding", serialize(&v).map_or(false, |x| x == e)),
                ("decoding", deserialize::<$t>(&e).map_or(false, |x| x == v)),
            ];
            for (n, ok) in rows {
                c.check("code symbols", ok, || format!("{v:?} ({s}): conversion {n} disagrees"));
            }
            c.eval_enum(10);
        }};
    }
    if i < 3 {
        sym!(SetupConnectionErrorCode, SETUP_CODE_V[i], SETUP_CODES[i]);
    } else {
        sym!(mining::OpenMiningChannelErrorCode, open_code_v()[i - 3].clone(), OPEN_CODES[i - 3]);
    }
}

fn code_text(c: &mut Case, t: &str) {
    c.eval(hash(&[b"code", t.as_bytes()]));
    macro_rules! one {
        ($t:ty, $codes:expr) => {{
            let known = $codes.contains(&t);
            let mut rs: Vec<(&str, Option<String>)> = vec![
                ("from_str", <$t>::from_str(t).ok().map(|x| x.to_string())),
                ("try_from String", <$t>::try_from(t.to_string()).ok().map(|x| x.to_string())),
            ];
            if let Ok(s) = STR0_255::new(t) {
                rs.push(("try_from STR0_255", <$t>::try_from(s).ok().map(|x| x.to_string())));
                let mut e = vec![t.len() as u8];
                e.extend_from_slice(t.as_bytes());
                rs.push(("decoding", deserialize::<$t>(&e).ok().map(|x| x.to_string())));
            }
            for (how, r) in rs {
                let ok = if known { r.as_deref() == Some(t) } else { r.is_none() };
                c.check("code texts", ok, || format!("{} {how} of {t:?} gives {r:?}", stringify!($t)));
            }
        }};
    }
    one!(SetupConnectionErrorCode, SETUP_CODES);
    one!(mining::OpenMiningChannelErrorCode, OPEN_CODES);
}
