//! C10: what is decrypted is what was encrypted, and forgeries fail without output.
use crate::{spec::aes::{gcm, gf_mul, Aes}, vf};
use crylib::aead::{gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm}, Aead};

const LENS: [(usize, usize); 12] = [(0, 0), (0, 1), (5, 0), (5, 13), (13, 16), (16, 17), (20, 31), (0, 32), (33, 33), (5, 47), (3, 48), (5, 64)];
fn roundtrip<C: Aead>(c: &C, a: usize, n: usize) {
    let iv: [u8; 12] = vf::arr("iv");
    let (mut m, mut aad) = ([0u8; 68], [0u8; 40]);
    vf::sym(&mut m, "msg");
    vf::sym(&mut aad[..a], "aad");
    let p = m;
    let t = c.encrypt_inline(&mut m[2..2 + n], &aad[..a], &iv);
    // the form with separate buffers agrees, and keeps to its part of the buffer
    let mut b = [0xa5u8; 70];
    let u = c.encrypt(&mut b[..n + 3], &p[2..2 + n], &aad[..a], &iv);
    vf::check_eq(&u, &t, "C10.encrypt.tag");
    vf::check_eq(&b[..n], &m[2..2 + n], "C10.encrypt.text");
    vf::check_eq(&b[n..], &[0xa5u8; 70][n..], "C10.encrypt.outside");
    let mut b = [0xa5u8; 70];
    vf::check(c.decrypt(&mut b[..n + 3], &m[2..2 + n], &aad[..a], &iv, &t).is_ok(), "C10.decrypt.accepts");
    vf::check_eq(&b[..n], &p[2..2 + n], "C10.decrypt.text");
    vf::check_eq(&b[n..], &[0xa5u8; 70][n..], "C10.decrypt.outside");
    vf::check(c.decrypt_inline(&mut m[2..2 + n], &aad[..a], &iv, &t).is_ok(), "C10.accepts");
    vf::check_eq(&m, &p, "C10.text");
}
/// any received ciphertext and associated data, and the right tag for them with any change: accepted exactly
/// when nothing is changed (that encryption produces the right tag is C09's and C07's business)
fn forgery<C: Aead>(c: &C, a: usize, n: usize) {
    let iv: [u8; 12] = vf::arr("iv");
    let (mut m, mut aad) = ([0u8; 68], [0u8; 40]);
    vf::sym(&mut m, "msg");
    vf::sym(&mut aad[..a], "aad");
    let delta: [u8; 16] = vf::arr("delta");
    let received = m;
    // a stream cipher: encrypting the ciphertext gives the plaintext
    let mut p = m;
    c.encrypt_inline(&mut p[..n], &aad[..a], &iv);
    let mut e = p;
    let mut tag = c.encrypt_inline(&mut e[..n], &aad[..a], &iv);
    vf::check_eq(&e, &m, "C10.stream");
    for i in 0..16 { tag[i] ^= delta[i] }
    let ok = c.decrypt_inline(&mut m[..n], &aad[..a], &iv, &tag).is_ok();
    vf::check(ok == (delta == [0; 16]), "C10.forgery.verdict");
    if !ok { vf::check_eq(&m, &received, "C10.forgery.released"); vf::reach("C10.rejected") }
    else { vf::check_eq(&m, &p, "C10.accepted.text"); vf::reach("C10.accepted") }
    let mut b = [0xa5u8; 70];
    let ok = c.decrypt(&mut b, &received[..n], &aad[..a], &iv, &tag).is_ok();
    vf::check(ok == (delta == [0; 16]), "C10.forgery.decrypt.verdict");
    if !ok { for i in 0..n { vf::check(b[i] == received[i] || b[i] == 0xa5 || b[i] == 0, "C10.forgery.decrypt.released") } }
}
/// GCM is generic in its block cipher: a keyed permutation that is linear
struct Toy([u8; 16]);
impl AesCipher for Toy {
    const KEY_SIZE: usize = 16;
    const NUM_ROUNDS: usize = 1;
    type Key = [u8; 16];
    #[inline(never)]
    fn encrypt_inline(&self, block: &mut [u8; 16]) {
        for i in 0..16 { block[i] ^= self.0[i] }
        block.rotate_left(5);
    }
    fn new(key: [u8; 16]) -> Self { Toy(key) }
}
entries! {
fn c10_gcm_roundtrip() {
    let (a, n) = LENS[vf::pick(12, "lens")];
    roundtrip(&Gcm::<Aes128>::new(vf::arr("key")), a, n)
}
fn c10_gcm192_roundtrip() {
    let (a, n) = LENS[3 + vf::pick(3, "lens")];
    roundtrip(&Gcm::<Aes192>::new(vf::arr("key")), a, n)
}
fn c10_gcm256_roundtrip() {
    let (a, n) = LENS[3 + vf::pick(3, "lens")];
    roundtrip(&Gcm::<Aes256>::new(vf::arr("key")), a, n)
}
fn c10_gcm_forgery() {
    let (a, n) = LENS[vf::pick(12, "lens")];
    forgery(&Gcm::<Toy>::new(*b"not quite a key!"), a, n)
}
}
