//! C03: the buffered hasher equals one-shot hashing for every way of cutting the message.
use crate::{spec::sha::*, vf};
use crylib::hash::{BlockHasher, BufHasher, Hasher, Sha256, Sha512};

/// A tiny block hasher (through the public traits) whose digest is the exact sequence of bytes it was fed, the number
/// of blocks and the final part: it makes any lost, repeated or reordered byte visible.
#[derive(Clone)]
pub struct Tape { n: usize, d: [u8; 40] }
const TB: usize = 4;
impl Hasher<44> for Tape {
    fn new() -> Self { Tape { n: 0, d: [0; 40] } }
    fn finish_with(mut self, msg: &[u8]) -> [u8; 44] {
        let whole = self.n;
        for b in msg { self.d[self.n] = *b; self.n += 1; }
        let mut o = [0; 44];
        o[..40].copy_from_slice(&self.d);
        o[40] = self.n as u8; o[41] = whole as u8 % TB as u8;
        o
    }
    fn hash(msg: &[u8]) -> [u8; 44] { Self::new().finish_with(msg) }
    fn finish(self) -> [u8; 44] { self.finish_with(&[]) }
}
impl BlockHasher<44, TB> for Tape {
    fn update(&mut self, b: &[u8; TB]) { for x in b { self.d[self.n] = *x; self.n += 1; } }
}
type BT = BufHasher<44, TB, Tape>;
type B256 = BufHasher<32, 64, Sha256>;
type B512 = BufHasher<64, 128, Sha512>;

entries! {
/// up to three updates of 0..=9 bytes each, a query after each, whole-block updates, then every kind of finish
fn c03_all_cuts_small_block() {
    let mut m = [0u8; 40];
    vf::sym(&mut m, "msg");
    let mut h = BT::new();
    let mut n = 0;
    for _ in 0..3 {
        let k = vf::pick(11, "cut");
        if k == 10 { h.update(m[n..][..TB].try_into().unwrap()); n += TB; }
        else { h.update_with(&m[n..][..k]); n += k; }
        let g = h.get();
        vf::check_eq(&g[..41], &Tape::hash(&m[..n])[..41], "C03.query");
        vf::check(g[41] == 0, "C03.block_aligned");
    }
    let k = vf::pick(11, "last");
    let r = if k == 10 { h.finish() } else { let r = h.finish_with(&m[n..][..k]); n += k; r };
    vf::check_eq(&r[..41], &Tape::hash(&m[..n])[..41], "C03.finish");
    vf::check_eq(&BT::hash(&m[..n]), &Tape::hash(&m[..n]), "C03.hash");
}
/// SHA-256: two updates of every length pair 0..=130, query in between, finish
fn c03_sha256_pairs() {
    let i = vf::pick(131, "first");
    let j = vf::pick(14, "second");
    let j = [0, 1, 2, 31, 55, 56, 62, 63, 64, 65, 66, 127, 128, 130][j];
    let mut m = [0u8; 270];
    vf::sym(&mut m[..i + j + 3], "msg");
    let mut h = B256::new();
    h.update_with(&m[..i]);
    vf::check_eq(&h.get(), &Sha256::hash(&m[..i]), "C03.sha256.query1");
    h.update_with(&m[i..][..j]);
    vf::check_eq(&h.get(), &Sha256::hash(&m[..i + j]), "C03.sha256.query2");
    let r = h.finish_with(&m[i + j..][..3]);
    vf::check_eq(&r, &Sha256::hash(&m[..i + j + 3]), "C03.sha256.finish");
}
fn c03_sha512_pairs() {
    let i = vf::pick(15, "first");
    let j = vf::pick(15, "second");
    const S: [usize; 15] = [0, 1, 2, 64, 111, 112, 126, 127, 128, 129, 130, 200, 255, 256, 257];
    let (i, j) = (S[i], S[j]);
    let mut m = [0u8; 520];
    vf::sym(&mut m[..i + j], "msg");
    let mut h = B512::new();
    h.update_with(&m[..i]);
    vf::check_eq(&h.get(), &Sha512::hash(&m[..i]), "C03.sha512.query");
    h.update_with(&m[i..][..j]);
    let r = h.finish();
    vf::check_eq(&r, &Sha512::hash(&m[..i + j]), "C03.sha512.finish");
}
}
