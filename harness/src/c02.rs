//! C02: SHA-512 equals FIPS 180-4.
use crate::{spec::sha::*, vf};
use crylib::hash::{Hasher, Sha512, BlockHasher};

const MAX: usize = 288;
entries! {
fn c02_hash_all_lengths() {
    let n = vf::pick(MAX + 1, "len");
    let mut m = [0u8; MAX];
    vf::sym(&mut m[..n], "msg");
    let a = Sha512::hash(&m[..n]);
    let b = sha512(&[&m[..n]]);
    vf::check_eq(&a, &b, "C02.hash");
}
fn c02_blocks() {
    let k = vf::pick(3, "blocks");
    let n = vf::pick(131, "tail");
    let mut m = [0u8; 386];
    vf::sym(&mut m[..128 * k + n], "msg");
    let mut h = Sha512::new();
    for i in 0..k { h.update(m[128 * i..][..128].try_into().unwrap()); }
    let a = if n == 130 { h.finish() } else { h.finish_with(&m[128 * k..][..n]) };
    let n = if n == 130 { 0 } else { n };
    let b = sha512(&[&m[..128 * k + n]]);
    vf::check_eq(&a, &b, "C02.blocks");
}
}
