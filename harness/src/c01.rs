//! C01: SHA-256 equals FIPS 180-4 for every message (per length).
use crate::{spec::sha::*, vf};
use crylib::hash::{Hasher, Sha256, BlockHasher};

const MAX: usize = 192;
entries! {
fn c01_hash_all_lengths() {
    let n = vf::pick(MAX + 1, "len");
    let mut m = [0u8; MAX];
    vf::sym(&mut m[..n], "msg");
    let a = Sha256::hash(&m[..n]);
    let b = sha256(&[&m[..n]]);
    vf::check_eq(&a, &b, "C01.hash");
}
/// block-wise interface: k whole blocks by update, then finish / finish_with a tail of every length
fn c01_blocks() {
    let k = vf::pick(3, "blocks");
    let n = vf::pick(130, "tail");
    let mut m = [0u8; 258];
    vf::sym(&mut m[..64 * k + n], "msg");
    let mut h = Sha256::new();
    for i in 0..k { h.update(m[64 * i..][..64].try_into().unwrap()); }
    let a = if n == 129 { h.finish() } else { h.finish_with(&m[64 * k..][..n]) };
    let n = if n == 129 { 0 } else { n };
    let b = sha256(&[&m[..64 * k + n]]);
    vf::check_eq(&a, &b, "C01.blocks");
}
}
