//! C08: AES block encryption.
use crate::{spec::aes::Aes, vf};
use crylib::aead::gcm::{Aes128, Aes192, Aes256, AesCipher};

entries! {
fn c08_aes128() {
    let k: [u8; 16] = vf::arr("key");
    let mut b: [u8; 16] = vf::arr("block");
    let e = Aes::new(&k).encrypt(&b);
    let c = Aes128::new(k);
    vf::check_eq(&c.encrypt(&b), &e, "C08.aes128");
    c.encrypt_inline(&mut b);
    vf::check_eq(&b, &e, "C08.aes128.inline");
}
fn c08_aes192() {
    let k: [u8; 24] = vf::arr("key");
    let mut b: [u8; 16] = vf::arr("block");
    let e = Aes::new(&k).encrypt(&b);
    let c = Aes192::new(k);
    vf::check_eq(&c.encrypt(&b), &e, "C08.aes192");
    c.encrypt_inline(&mut b);
    vf::check_eq(&b, &e, "C08.aes192.inline");
}
fn c08_aes256() {
    let k: [u8; 32] = vf::arr("key");
    let mut b: [u8; 16] = vf::arr("block");
    let e = Aes::new(&k).encrypt(&b);
    let c = Aes256::new(k);
    vf::check_eq(&c.encrypt(&b), &e, "C08.aes256");
    c.encrypt_inline(&mut b);
    vf::check_eq(&b, &e, "C08.aes256.inline");
}
}
