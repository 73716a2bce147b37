//! C09: AES-GCM.
use crate::{spec::aes::{gcm, gf_mul, Aes}, vf};
use crylib::aead::{gcm::{Aes128, Aes192, Aes256, AesCipher, Gcm}, Aead};

const LENS: [usize; 14] = [0, 1, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 64, 65];
entries! {
/// the cipher itself symbolic in everything (key, IV, data, associated data), a grid of lengths
fn c09_ctr_all_lengths() {
    let n = vf::pick(66, "len");
    let k: [u8; 16] = vf::arr("key");
    let iv: [u8; 12] = vf::arr("iv");
    let mut m = [0u8; 70];
    vf::sym(&mut m[..n + 4], "msg");
    let mut e = m;
    gcm(&Aes::new(&k), &iv, &[], &mut e[2..2 + n], true, |a, _| a);
    Gcm::<Aes128>::new(k).encrypt_inline(&mut m[2..2 + n], &[], &iv);
    vf::check_eq(&m, &e, "C09.ciphertext");
}
/// messages of more than 255 and more than 1024 blocks (the longest TLS record): fixed key and IV, the last bytes symbolic
fn c09_ctr_long() {
    const N: usize = (1 << 14) + 256;
    let k = *b"fixed key 128bit";
    let iv = *b"fixed iv 12b";
    let mut m = [0u8; N];
    vf::sym(&mut m[N - 8..], "msg");
    let mut e = m;
    gcm(&Aes::new(&k), &iv, &[], &mut e, true, |a, _| a);
    Gcm::<Aes128>::new(k).encrypt_inline(&mut m, &[], &iv);
    vf::check_eq(&m, &e, "C09.ciphertext.long");
}
fn c09_tag_lengths() {
    let a = LENS[vf::pick(14, "aad_len")];
    let n = LENS[vf::pick(14, "len")];
    let k = *b"fixed key 128bit";
    let iv: [u8; 12] = vf::arr("iv");
    let (mut m, mut aad) = ([0u8; 65], [0u8; 65]);
    vf::sym(&mut m[..n], "msg");
    vf::sym(&mut aad[..a], "aad");
    let mut e = m;
    let t = gcm(&Aes::new(&k), &iv, &aad[..a], &mut e[..n], true, gf_mul);
    let u = Gcm::<Aes128>::new(k).encrypt_inline(&mut m[..n], &aad[..a], &iv);
    vf::check_eq(&u, &t, "C09.tag");
    vf::check_eq(&m, &e, "C09.text");
}
fn c09_tag_symbolic_key() {
    let (a, n) = [(0usize, 0usize), (5, 0), (16, 0), (20, 0)][vf::pick(4, "lens")];
    let k: [u8; 16] = vf::arr("key");
    let iv: [u8; 12] = vf::arr("iv");
    let (mut m, mut aad) = ([0u8; 65], [0u8; 65]);
    vf::sym(&mut m[..n], "msg");
    vf::sym(&mut aad[..a], "aad");
    let mut e = m;
    let t = gcm(&Aes::new(&k), &iv, &aad[..a], &mut e[..n], true, gf_mul);
    let u = Gcm::<Aes128>::new(k).encrypt_inline(&mut m[..n], &aad[..a], &iv);
    vf::check_eq(&u, &t, "C09.tag");
    vf::check_eq(&m, &e, "C09.text");
}
}
