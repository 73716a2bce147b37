//! C04: HMAC equals RFC 2104.
use crate::{spec::{hm, sha::*}, vf};
use crylib::{hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512}, hmac::Hmac};

entries! {
/// every key length 0..=200
fn c04_sha256_keys() { keys(&[5]) }
fn c04_sha256_keys_more() { keys(&[0, 64]) }
/// every message length 0..=140
fn c04_sha256_msgs() { msgs(&[32, 65]) }
fn c04_sha256_msgs_more() { msgs(&[0, 63, 64, 129]) }
/// the incremental interfaces: whole blocks, buffered updates, both finishes
fn c04_sha256_incremental() {
    let k = [0usize, 20, 64, 65, 128, 129][vf::pick(6, "klen")];
    let (mut key, mut m) = ([0u8; 129], [0u8; 256]);
    vf::sym(&mut key[..k], "key");
    let mode = vf::pick(4, "mode");
    let n = [0usize, 1, 63, 64, 65, 100][vf::pick(6, "n")];
    vf::sym(&mut m[..n + 128], "msg");
    let key = &key[..k];
    let (a, len) = match mode {
        0 => { let mut h = Hmac::<32, 64, Sha256>::new(key); h.update(m[..64].try_into().unwrap()); h.update(m[64..128].try_into().unwrap()); (h.finish_with(&m[128..][..n]), 128 + n) }
        1 => { let mut h = Hmac::<32, 64, Sha256>::new(key); h.update(m[..64].try_into().unwrap()); (h.finish(), 64) }
        2 => { let mut h = Hmac::<32, 64, BufHasher<32, 64, Sha256>>::new(key); h.update_with(&m[..n]); h.update_with(&m[n..n + 70]); (h.finish_with(&m[n + 70..n + 75]), n + 75) }
        _ => { let mut h = Hmac::<32, 64, BufHasher<32, 64, Sha256>>::new(key); h.update_with(&m[..3]); h.update_with(&m[3..3 + n]); h.update(m[3 + n..67 + n].try_into().unwrap()); (h.finish(), 67 + n) }
    };
    vf::check_eq(&a, &hm::hmac::<32, 64>(sha256, key, &[&m[..len]]), "C04.incremental");
}
fn c04_sha512() {
    let k = [0usize, 1, 64, 127, 128, 129, 200, 256, 257][vf::pick(9, "klen")];
    let n = [0usize, 1, 111, 112, 127, 128, 130][vf::pick(7, "mlen")];
    let (mut key, mut m) = ([0u8; 257], [0u8; 130]);
    vf::sym(&mut key[..k], "key");
    vf::sym(&mut m[..n], "msg");
    let a = Hmac::<64, 128, Sha512>::auth(&key[..k], &m[..n]);
    vf::check_eq(&a, &hm::hmac::<64, 128>(sha512, &key[..k], &[&m[..n]]), "C04.sha512");
}
}
fn keys(ns: &[usize]) {
    let k = vf::pick(201, "klen");
    let n = ns[vf::pick(ns.len(), "mlen")];
    let (mut key, mut m) = ([0u8; 200], [0u8; 64]);
    vf::sym(&mut key[..k], "key");
    vf::sym(&mut m[..n], "msg");
    let a = Hmac::<32, 64, Sha256>::auth(&key[..k], &m[..n]);
    vf::check_eq(&a, &hm::hmac::<32, 64>(sha256, &key[..k], &[&m[..n]]), "C04.key");
}
fn msgs(ks: &[usize]) {
    let k = ks[vf::pick(ks.len(), "klen")];
    let n = vf::pick(141, "mlen");
    let (mut key, mut m) = ([0u8; 129], [0u8; 140]);
    vf::sym(&mut key[..k], "key");
    vf::sym(&mut m[..n], "msg");
    let a = Hmac::<32, 64, Sha256>::auth(&key[..k], &m[..n]);
    vf::check_eq(&a, &hm::hmac::<32, 64>(sha256, &key[..k], &[&m[..n]]), "C04.msg");
}
