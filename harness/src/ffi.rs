//! Stand-ins for the native functions, for the interpreter only. They read and
//! write exactly the bytes that the C functions' contracts name, so that a wrong
//! length, pointer or aliasing handed over by the Rust side is an error the
//! interpreter reports. They are toys, not cryptography (real curve arithmetic is
//! too slow to interpret): a commutative "Diffie-Hellman" and a keyed stream with
//! a checksum, so that handshakes still complete and tampering is still refused.

use std::slice::{from_raw_parts, from_raw_parts_mut};

const P: u128 = (1 << 61) - 1;

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
fn sum(b: &[u8], seed: u64) -> u64 {
    let mut h = mix(seed ^ b.len() as u64);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(w));
    }
    h
}
fn element(b: &[u8]) -> u128 {
    u128::from(u64::from_le_bytes(b[..8].try_into().unwrap())) % P
}

#[no_mangle]
pub unsafe extern "C" fn Hacl_Curve25519_crypto_scalarmult(out: *mut u8, secret: *mut u8, base: *mut u8) {
    let s = u128::from(sum(from_raw_parts(secret, 32), 1)) % P;
    let b = from_raw_parts(base, 32);
    let r = (s * element(b) % P) as u64;
    let o = from_raw_parts_mut(out, 32);
    o[..8].copy_from_slice(&r.to_le_bytes());
    for i in 1..4u64 {
        o[8 * i as usize..][..8].copy_from_slice(&mix(r ^ (i << 62)).to_le_bytes());
    }
    o[31] &= 0x7f;
}

fn stream(k: &[u8], n: &[u8], b: &mut [u8]) {
    let mut s = sum(k, sum(n, 2));
    for c in b.chunks_mut(8) {
        s = mix(s);
        for (x, y) in c.iter_mut().zip(s.to_le_bytes()) {
            *x ^= y;
        }
    }
}
fn tag(k: &[u8], n: &[u8], aad: &[u8], c: &[u8]) -> [u8; 16] {
    let h = sum(k, sum(n, sum(aad, sum(c, 3))));
    let mut t = [0u8; 16];
    t[..8].copy_from_slice(&h.to_le_bytes());
    t[8..].copy_from_slice(&mix(h).to_le_bytes());
    t
}

#[no_mangle]
pub unsafe extern "C" fn Hacl_Chacha20Poly1305_aead_encrypt(c: *mut u8, mac: *mut u8, m: *mut u8, mlen: u32, aad: *mut u8, aadlen: u32, k: *mut u8, n: *mut u8) -> u32 {
    let mut b = from_raw_parts(m as *const u8, mlen as usize).to_vec();
    let a = from_raw_parts(aad as *const u8, aadlen as usize).to_vec();
    let (k, n) = (from_raw_parts(k, 32).to_vec(), from_raw_parts(n, 12).to_vec());
    stream(&k, &n, &mut b);
    let t = tag(&k, &n, &a, &b);
    std::ptr::copy_nonoverlapping(b.as_ptr(), c, b.len());
    std::ptr::copy_nonoverlapping(t.as_ptr(), mac, 16);
    0
}

#[no_mangle]
pub unsafe extern "C" fn Hacl_Chacha20Poly1305_aead_decrypt(m: *mut u8, c: *mut u8, mlen: u32, mac: *mut u8, aad: *mut u8, aadlen: u32, k: *mut u8, n: *mut u8) -> u32 {
    let mut b = from_raw_parts(c as *const u8, mlen as usize).to_vec();
    let a = from_raw_parts(aad as *const u8, aadlen as usize).to_vec();
    let (k, n) = (from_raw_parts(k, 32).to_vec(), from_raw_parts(n, 12).to_vec());
    if tag(&k, &n, &a, &b)[..] != *from_raw_parts(mac, 16) {
        return 1;
    }
    stream(&k, &n, &mut b);
    std::ptr::copy_nonoverlapping(b.as_ptr(), m, b.len());
    0
}
