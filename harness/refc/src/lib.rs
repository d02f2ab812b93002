//! Independent reference implementations, written from RFC 7748 (X25519),
//! RFC 8439 (ChaCha20-Poly1305), RFC 7693 (BLAKE2s) and RFC 2104 (HMAC), and
//! checked against the test vectors of these documents by `selftest`.

// ---- X25519 ---------------------------------------------------------------

#[derive(Clone, Copy)]
struct Fe([u64; 5]);
const M51: u64 = (1 << 51) - 1;

impl Fe {
    fn from_bytes(b: &[u8; 32]) -> Fe {
        let ld = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
        Fe([
            ld(0) & M51,
            (ld(6) >> 3) & M51,
            (ld(12) >> 6) & M51,
            (ld(19) >> 1) & M51,
            (ld(24) >> 12) & M51, // drops the top bit
        ])
    }
    fn carry(mut t: [u128; 5]) -> Fe {
        let mut r = [0u64; 5];
        let mut c: u128 = 0;
        for i in 0..5 {
            t[i] += c;
            r[i] = (t[i] as u64) & M51;
            c = t[i] >> 51;
        }
        let x = r[0] as u128 + c * 19;
        r[0] = (x as u64) & M51;
        r[1] += (x >> 51) as u64;
        Fe(r)
    }
    fn add(self, o: Fe) -> Fe {
        let mut r = [0u64; 5];
        for i in 0..5 {
            r[i] = self.0[i] + o.0[i];
        }
        Fe(r)
    }
    fn sub(self, o: Fe) -> Fe {
        // add 16p to stay positive
        const P16: [u64; 5] = [
            16 * ((1 << 51) - 19),
            16 * ((1 << 51) - 1),
            16 * ((1 << 51) - 1),
            16 * ((1 << 51) - 1),
            16 * ((1 << 51) - 1),
        ];
        let mut t = [0u128; 5];
        for i in 0..5 {
            t[i] = (self.0[i] + P16[i] - o.0[i]) as u128;
        }
        Fe::carry(t)
    }
    fn mul(self, o: Fe) -> Fe {
        let a = self.0.map(|x| x as u128);
        let b = o.0.map(|x| x as u128);
        let mut t = [0u128; 5];
        for i in 0..5 {
            for j in 0..5 {
                let k = i + j;
                if k < 5 {
                    t[k] += a[i] * b[j];
                } else {
                    t[k - 5] += 19 * a[i] * b[j];
                }
            }
        }
        Fe::carry(t)
    }
    fn small(self, n: u64) -> Fe {
        Fe::carry(self.0.map(|x| x as u128 * n as u128))
    }
    fn invert(self) -> Fe {
        // self^(p-2), p-2 = 2^255 - 21
        let mut r = Fe([1, 0, 0, 0, 0]);
        let mut e = [0xffu8; 32];
        e[0] = 0xeb;
        e[31] = 0x7f;
        for i in (0..255).rev() {
            r = r.mul(r);
            if e[i / 8] >> (i % 8) & 1 == 1 {
                r = r.mul(self);
            }
        }
        r
    }
    fn to_bytes(self) -> [u8; 32] {
        let mut r = Fe::carry(Fe::carry(self.0.map(|x| x as u128)).0.map(|x| x as u128)).0;
        // r < 2^255 + small; subtract p if needed, twice to be safe
        for _ in 0..2 {
            let mut t = r;
            t[0] += 19;
            for i in 0..4 {
                t[i + 1] += t[i] >> 51;
                t[i] &= M51;
            }
            if t[4] >> 51 != 0 {
                t[4] &= M51;
                r = t;
            }
        }
        let mut out = [0u8; 32];
        let mut acc: u128 = 0;
        let mut bits = 0;
        let mut o = 0;
        for limb in r {
            acc |= (limb as u128) << bits;
            bits += 51;
            while bits >= 8 && o < 32 {
                out[o] = acc as u8;
                acc >>= 8;
                bits -= 8;
                o += 1;
            }
        }
        if o < 32 {
            out[o] = acc as u8;
        }
        out
    }
}

pub fn x25519(k: &[u8; 32], u: &[u8; 32]) -> [u8; 32] {
    let mut e = *k;
    e[0] &= 248;
    e[31] &= 127;
    e[31] |= 64;
    let x1 = Fe::from_bytes(u);
    let one = Fe([1, 0, 0, 0, 0]);
    let zero = Fe([0; 5]);
    let (mut x2, mut z2, mut x3, mut z3) = (one, zero, x1, one);
    let mut swap = 0;
    for t in (0..255).rev() {
        let kt = e[t / 8] >> (t % 8) & 1;
        if swap ^ kt == 1 {
            std::mem::swap(&mut x2, &mut x3);
            std::mem::swap(&mut z2, &mut z3);
        }
        swap = kt;
        let a = x2.add(z2);
        let aa = a.mul(a);
        let b = x2.sub(z2);
        let bb = b.mul(b);
        let ee = aa.sub(bb);
        let c = x3.add(z3);
        let d = x3.sub(z3);
        let da = d.mul(a);
        let cb = c.mul(b);
        let s = da.add(cb);
        x3 = s.mul(s);
        let s = da.sub(cb);
        z3 = x1.mul(s.mul(s));
        x2 = aa.mul(bb);
        z2 = ee.mul(aa.add(ee.small(121665)));
    }
    if swap == 1 {
        std::mem::swap(&mut x2, &mut x3);
        std::mem::swap(&mut z2, &mut z3);
    }
    x2.mul(z2.invert()).to_bytes()
}
pub fn x25519_base(k: &[u8; 32]) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[0] = 9;
    x25519(k, &b)
}

// ---- ChaCha20-Poly1305 ----------------------------------------------------

fn chacha_block(key: &[u8; 32], ctr: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    s[..4].copy_from_slice(&[0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]);
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut w = s;
    let qr = |w: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize| {
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(16);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(12);
        w[a] = w[a].wrapping_add(w[b]);
        w[d] = (w[d] ^ w[a]).rotate_left(8);
        w[c] = w[c].wrapping_add(w[d]);
        w[b] = (w[b] ^ w[c]).rotate_left(7);
    };
    for _ in 0..10 {
        qr(&mut w, 0, 4, 8, 12);
        qr(&mut w, 1, 5, 9, 13);
        qr(&mut w, 2, 6, 10, 14);
        qr(&mut w, 3, 7, 11, 15);
        qr(&mut w, 0, 5, 10, 15);
        qr(&mut w, 1, 6, 11, 12);
        qr(&mut w, 2, 7, 8, 13);
        qr(&mut w, 3, 4, 9, 14);
    }
    let mut o = [0u8; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&w[i].wrapping_add(s[i]).to_le_bytes());
    }
    o
}

fn chacha_xor(key: &[u8; 32], mut ctr: u32, nonce: &[u8; 12], data: &mut [u8]) {
    for ch in data.chunks_mut(64) {
        let b = chacha_block(key, ctr, nonce);
        for (x, y) in ch.iter_mut().zip(b) {
            *x ^= y;
        }
        ctr = ctr.wrapping_add(1);
    }
}

/// Poly1305 with 26-bit limbs.
fn poly1305(key: &[u8; 32], msg: &[&[u8]]) -> [u8; 16] {
    let ld = |i: usize| u32::from_le_bytes(key[i..i + 4].try_into().unwrap()) as u64;
    let r = [
        ld(0) & 0x3ffffff,
        (ld(3) >> 2) & 0x3ffff03,
        (ld(6) >> 4) & 0x3ffc0ff,
        (ld(9) >> 6) & 0x3f03fff,
        (ld(12) >> 8) & 0x00fffff,
    ];
    let mut h = [0u64; 5];
    for part in msg {
        for ch in part.chunks(16) {
            let mut blk = [0u8; 17];
            blk[..ch.len()].copy_from_slice(ch);
            blk[ch.len()] = 1;
            let l = |i: usize| u32::from_le_bytes(blk[i..i + 4].try_into().unwrap()) as u64;
            h[0] += l(0) & 0x3ffffff;
            h[1] += (l(3) >> 2) & 0x3ffffff;
            h[2] += (l(6) >> 4) & 0x3ffffff;
            h[3] += (l(9) >> 6) & 0x3ffffff;
            h[4] += (l(12) >> 8) | (blk[16] as u64) << 24;
            let mut t = [0u64; 5];
            for i in 0..5 {
                for j in 0..5 {
                    let k = i + j;
                    if k < 5 {
                        t[k] += h[i] * r[j];
                    } else {
                        t[k - 5] += 5 * h[i] * r[j];
                    }
                }
            }
            let mut c = 0;
            for i in 0..5 {
                t[i] += c;
                h[i] = t[i] & 0x3ffffff;
                c = t[i] >> 26;
            }
            h[0] += c * 5;
            h[1] += h[0] >> 26;
            h[0] &= 0x3ffffff;
        }
    }
    // full carry
    for _ in 0..2 {
        let mut c = 0;
        for i in 0..5 {
            h[i] += c;
            c = h[i] >> 26;
            h[i] &= 0x3ffffff;
        }
        h[0] += c * 5;
    }
    h[1] += h[0] >> 26;
    h[0] &= 0x3ffffff;
    // reduce mod 2^130-5
    let mut g = h;
    g[0] += 5;
    for i in 0..4 {
        g[i + 1] += g[i] >> 26;
        g[i] &= 0x3ffffff;
    }
    if g[4] >> 26 != 0 {
        g[4] &= 0x3ffffff;
        h = g;
    }
    let n = h[0] as u128 | (h[1] as u128) << 26 | (h[2] as u128) << 52 | (h[3] as u128) << 78 | (h[4] as u128) << 104;
    let s = u128::from_le_bytes(key[16..32].try_into().unwrap());
    n.wrapping_add(s).to_le_bytes()
}

fn aead_tag(key: &[u8; 32], nonce: &[u8; 12], ad: &[u8], ct: &[u8]) -> [u8; 16] {
    let otk: [u8; 32] = chacha_block(key, 0, nonce)[..32].try_into().unwrap();
    let pad = |x: &[u8]| {
        let mut v = x.to_vec();
        v.resize(x.len().div_ceil(16) * 16, 0);
        v
    };
    let mut lens = [0u8; 16];
    lens[..8].copy_from_slice(&(ad.len() as u64).to_le_bytes());
    lens[8..].copy_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(&otk, &[&pad(ad), &pad(ct), &lens])
}
pub fn noise_nonce(n: u64) -> [u8; 12] {
    let mut o = [0u8; 12];
    o[4..].copy_from_slice(&n.to_le_bytes());
    o
}
/// Encrypts in place and returns the tag.
pub fn seal(key: &[u8; 32], n: u64, ad: &[u8], data: &mut [u8]) -> [u8; 16] {
    let nonce = noise_nonce(n);
    chacha_xor(key, 1, &nonce, data);
    aead_tag(key, &nonce, ad, data)
}
/// Decrypts in place if the tag is right.
pub fn open(key: &[u8; 32], n: u64, ad: &[u8], data: &mut [u8], tag: &[u8]) -> bool {
    let nonce = noise_nonce(n);
    if aead_tag(key, &nonce, ad, data) != tag {
        return false;
    }
    chacha_xor(key, 1, &nonce, data);
    true
}

// ---- BLAKE2s, HMAC, HKDF ---------------------------------------------------

const IV: [u32; 8] = [
    0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
];
const SIGMA: [[usize; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

pub fn blake2s(parts: &[&[u8]]) -> [u8; 32] {
    let data: Vec<u8> = parts.concat();
    let mut h = IV;
    h[0] ^= 0x01010000 ^ 32;
    let blocks = data.len().div_ceil(64).max(1);
    for i in 0..blocks {
        let mut blk = [0u8; 64];
        let end = data.len().min(64 * (i + 1));
        blk[..end - 64 * i].copy_from_slice(&data[64 * i..end]);
        let last = i + 1 == blocks;
        let t: u64 = if last { data.len() as u64 } else { 64 * (i as u64 + 1) };
        let mut m = [0u32; 16];
        for j in 0..16 {
            m[j] = u32::from_le_bytes(blk[4 * j..4 * j + 4].try_into().unwrap());
        }
        let mut v = [0u32; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= t as u32;
        v[13] ^= (t >> 32) as u32;
        if last {
            v[14] = !v[14];
        }
        let mut g = |a: usize, b: usize, c: usize, d: usize, x: u32, y: u32| {
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
            v[d] = (v[d] ^ v[a]).rotate_right(16);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(12);
            v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
            v[d] = (v[d] ^ v[a]).rotate_right(8);
            v[c] = v[c].wrapping_add(v[d]);
            v[b] = (v[b] ^ v[c]).rotate_right(7);
        };
        for s in &SIGMA {
            g(0, 4, 8, 12, m[s[0]], m[s[1]]);
            g(1, 5, 9, 13, m[s[2]], m[s[3]]);
            g(2, 6, 10, 14, m[s[4]], m[s[5]]);
            g(3, 7, 11, 15, m[s[6]], m[s[7]]);
            g(0, 5, 10, 15, m[s[8]], m[s[9]]);
            g(1, 6, 11, 12, m[s[10]], m[s[11]]);
            g(2, 7, 8, 13, m[s[12]], m[s[13]]);
            g(3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for j in 0..8 {
            h[j] ^= v[j] ^ v[j + 8];
        }
    }
    let mut o = [0u8; 32];
    for j in 0..8 {
        o[4 * j..4 * j + 4].copy_from_slice(&h[j].to_le_bytes());
    }
    o
}
fn hmac(key: &[u8], data: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    k[..key.len()].copy_from_slice(key);
    let ip: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
    let op: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
    let mut v: Vec<&[u8]> = vec![&ip];
    v.extend_from_slice(data);
    blake2s(&[&op, &blake2s(&v)])
}
pub fn hkdf2(ck: &[u8; 32], ikm: &[u8]) -> ([u8; 32], [u8; 32]) {
    let t = hmac(ck, &[ikm]);
    let a = hmac(&t, &[&[1]]);
    let b = hmac(&t, &[&a, &[2]]);
    (a, b)
}

// ---- test vectors ----------------------------------------------------------

pub fn selftest() -> Result<(), String> {
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    fn unhex(s: &str) -> Vec<u8> {
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
    }
    fn unhex32(s: &str) -> [u8; 32] {
        unhex(s).try_into().unwrap()
    }
    let want = |name: &str, got: &[u8], exp: &str| {
        if hex(got) == exp {
            Ok(())
        } else {
            Err(format!("reference {name}: {} != {exp}", hex(got)))
        }
    };
    // RFC 7748 5.2 and 6.1
    want(
        "x25519 1",
        &x25519(
            &unhex32("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
            &unhex32("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c"),
        ),
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552",
    )?;
    want(
        "x25519 2",
        &x25519(
            &unhex32("4b66e9d4d1b4673c5ad22691957d6af5c11b6421e0ea01d42ca4169e7918ba0d"),
            &unhex32("e5210f12786811d3f4b7959d0538ae2c31dbe7106fc03c3efc4cd549c715a493"),
        ),
        "95cbde9476e8907d7aade45cb4b873f88b595a68799fa152e6f8f7647aac7957",
    )?;
    // iterated, 1 round (RFC 7748 5.2)
    let mut nine = [0u8; 32];
    nine[0] = 9;
    want("x25519 iter 1", &x25519(&nine, &nine), "422c8e7a6227d7bca1350b3e2bb7279f7897b87bb6854b783c60e80311ae3079")?;
    if !cfg!(miri) {
        let (mut k, mut u) = (nine, nine);
        for _ in 0..1000 {
            let r = x25519(&k, &u);
            u = k;
            k = r;
        }
        want("x25519 iter 1000", &k, "684cf59ba83309552800ef566f2f4d3c1c3887c49360e3875f2eb94d99532c51")?;
    }
    // RFC 8439 2.5.2
    let k: [u8; 32] = unhex32("85d6be7857556d337f4452fe42d506a80103808afb0db2fd4abff6af4149f51b");
    want("poly1305", &poly1305(&k, &[b"Cryptographic Forum Research Group"]), "a8061dc1305136c6c22b8baf0c0127a9")?;
    // RFC 8439 2.8.2 (its nonce has a constant part, so the parts are used directly)
    let key: Vec<u8> = (0x80..0xa0).collect();
    let key: [u8; 32] = key.try_into().unwrap();
    let nonce: [u8; 12] = unhex("070000004041424344454647").try_into().unwrap();
    let ad = unhex("50515253c0c1c2c3c4c5c6c7");
    let mut pt = b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.".to_vec();
    chacha_xor(&key, 1, &nonce, &mut pt);
    want("chacha20", &pt[..16], "d31a8d34648e60db7b86afbc53ef7ec2")?;
    want("aead tag", &aead_tag(&key, &nonce, &ad, &pt), "1ae10b594f09e26a7e902ecbd0600691")?;
    // RFC 7693 appendix B
    want("blake2s", &blake2s(&[b"abc"]), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982")?;
    // more than one block, and the empty string
    want("blake2s empty", &blake2s(&[]), "69217a3079908094e11121d042354a7c1f55b6482ca1a51e1b250dfd1ed0eef9")?;
    let long: Vec<u8> = (0..200).collect();
    want("blake2s long", &blake2s(&[&long[..70], &long[70..]]), "6d244e1a06ce4ef578dd0f63aff0936706735119ca9c8d22d86c801414ab9741")?;
    want("hmac", &hmac(&[b'k'; 32], &[b"data"]), "1b3b81abdc97a097da15fce4e261a1199ad81f9aa193a97a3eaeb4d770bbf6dd")?;
    Ok(())
}
