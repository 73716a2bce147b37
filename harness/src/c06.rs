//! C06: ChaCha20.
use crate::{spec::chacha, vf};
use crylib::aead::chacha::chacha20;

entries! {
/// in place: every length 0..=200, symbolic key, nonce, counter
fn c06_inline() {
    let n = vf::pick(201, "len");
    let key: [u8; 32] = vf::arr("key");
    let nonce: [u8; 12] = vf::arr("nonce");
    let c = vf::u32_("counter");
    vf::assume(c <= u32::MAX - 3);
    let mut m = [0u8; 204];
    vf::sym(&mut m[..n + 4], "msg");
    let mut e = m;
    chacha20::encrypt_inline(&mut m[2..2 + n], &key, &nonce, c);
    chacha::xor(&key, c, &nonce, &mut e[2..2 + n]);
    vf::check_eq(&m, &e, "C06.inline");
    chacha20::encrypt_inline(&mut m[2..2 + n], &key, &nonce, c);
    chacha::xor(&key, c, &nonce, &mut e[2..2 + n]);
    vf::check_eq(&m, &e, "C06.roundtrip");
}
/// a message as long as the longest record a TLS connection may receive (2^14 + 256 bytes): every block of it
fn c06_long() {
    const N: usize = (1 << 14) + 256;
    let mut key = *b"a fixed key, and sixteen bytes..";
    vf::sym(&mut key[..8], "key");
    let nonce: [u8; 12] = vf::arr("nonce");
    let mut m = [0u8; N];
    chacha20::encrypt_inline(&mut m, &key, &nonce, 1);
    for i in 0..N / 64 {
        let e = chacha::block(&key, 1 + i as u32, &nonce);
        vf::check_eq(&m[64 * i..64 * i + 64], &e, "C06.long");
    }
}
/// the counter may go up to its last value, and the documented panic is the only one
fn c06_last_counter() {
    let n = [0usize, 1, 64, 65, 128][vf::pick(5, "len")];
    let key: [u8; 32] = vf::arr("key");
    let nonce: [u8; 12] = vf::arr("nonce");
    let mut m: [u8; 128] = vf::arr("msg");
    let mut e = m;
    let blocks = ((n + 63) / 64) as u32;
    let c = if blocks == 0 { u32::MAX } else { u32::MAX - (blocks - 1) };
    chacha20::encrypt_inline(&mut m[..n], &key, &nonce, c);
    chacha::xor(&key, c, &nonce, &mut e[..n]);
    vf::check_eq(&m, &e, "C06.last_counter");
}
/// into a separate buffer that is at least as long as the message
fn c06_separate() {
    let n = [0usize, 1, 16, 63, 64, 65, 100, 128, 130][vf::pick(9, "len")];
    let extra = [0usize, 1, 5, 64][vf::pick(4, "extra")];
    let key: [u8; 32] = vf::arr("key");
    let nonce: [u8; 12] = vf::arr("nonce");
    let c = vf::u32_("counter");
    vf::assume(c <= u32::MAX - 4);
    let mut m = [0u8; 130];
    vf::sym(&mut m[..n], "msg");
    let m0 = m;
    let mut b: [u8; 200] = vf::arr("old");
    let mut e = b;
    chacha20::encrypt(&m[..n], &key, &nonce, c, &mut b[..n + extra]);
    e[..n].copy_from_slice(&m0[..n]);
    chacha::xor(&key, c, &nonce, &mut e[..n]);
    vf::check_eq(&b, &e, "C06.separate");
    vf::check_eq(&m, &m0, "C06.source");
}
}
