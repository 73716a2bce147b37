//! C05: HKDF equals RFC 5869.
use crate::{spec::{hm, sha::*}, vf};
use crylib::{hash::{BlockHasher, Hasher, Sha256, Sha512}, hkdf};

/// A cheap two-byte hash with four-byte blocks (through the public traits), so that every output length up to
/// 255 * 2 can be covered.
#[derive(Clone)]
pub struct Toy { s: u16 }
fn toy(parts: &[&[u8]]) -> [u8; 2] {
    let mut s = 0x5a17u16;
    let mut n = 0u16;
    for p in parts { for b in *p { s = s.rotate_left(3) ^ (*b as u16) ^ ((*b as u16) << 7); n = n.wrapping_add(1); } }
    s = s.rotate_left(5) ^ n;
    s.to_be_bytes()
}
#[derive(Clone)]
pub struct ToyH { s: u16, n: u16 }
impl ToyH { fn eat(&mut self, p: &[u8]) { for b in p { self.s = self.s.rotate_left(3) ^ (*b as u16) ^ ((*b as u16) << 7); self.n = self.n.wrapping_add(1); } } }
impl Hasher<2> for ToyH {
    fn new() -> Self { ToyH { s: 0x5a17, n: 0 } }
    fn finish_with(mut self, msg: &[u8]) -> [u8; 2] { self.eat(msg); (self.s.rotate_left(5) ^ self.n).to_be_bytes() }
    fn hash(msg: &[u8]) -> [u8; 2] { Self::new().finish_with(msg) }
    fn finish(self) -> [u8; 2] { self.finish_with(&[]) }
}
impl BlockHasher<2, 4> for ToyH { fn update(&mut self, b: &[u8; 4]) { self.eat(b) } }

entries! {
fn c05_extract() {
    let s = [0usize, 1, 31, 32, 33, 63, 64, 65, 100][vf::pick(9, "salt_len")];
    let n = [0usize, 1, 22, 32, 55, 56, 64, 80][vf::pick(8, "ikm_len")];
    let (mut salt, mut ikm) = ([0u8; 100], [0u8; 80]);
    vf::sym(&mut salt[..s], "salt");
    vf::sym(&mut ikm[..n], "ikm");
    let a = hkdf::extract::<32, 64, Sha256>(&ikm[..n], &salt[..s]);
    vf::check_eq(&a, &hm::hmac::<32, 64>(sha256, &salt[..s], &[&ikm[..n]]), "C05.extract256");
    if n < 33 && s != 31 && s != 33 {
        let a = hkdf::extract::<64, 128, Sha512>(&ikm[..n], &salt[..s]);
        vf::check_eq(&a, &hm::hmac::<64, 128>(sha512, &salt[..s], &[&ikm[..n]]), "C05.extract512");
    }
}
/// every output length 0..=100, guard bytes on both sides
fn c05_expand_sha256() {
    let n = vf::pick(101, "len");
    let i = [18usize, 0, 1, 60][vf::pick(if n % 32 < 2 || n == 48 { 4 } else { 1 }, "info_len")];
    let mut info = [0u8; 60];
    vf::sym(&mut info[..i], "info");
    let prk: [u8; 32] = vf::arr("prk");
    let mut out: [u8; 108] = vf::arr("old");
    let mut exp = out;
    hkdf::expand::<32, 64, Sha256>(&mut out[4..4 + n], &prk, &info[..i]);
    hm::expand::<32, 64>(sha256, &mut exp[4..4 + n], &prk, &info[..i]);
    vf::check_eq(&out, &exp, "C05.expand256");
}
fn c05_expand_sha512() {
    let n = [0usize, 1, 63, 64, 65, 128, 130][vf::pick(7, "len")];
    let info: [u8; 7] = vf::arr("info");
    let prk: [u8; 64] = vf::arr("prk");
    let (mut out, mut exp) = ([0u8; 130], [0u8; 130]);
    hkdf::expand::<64, 128, Sha512>(&mut out[..n], &prk, &info);
    hm::expand::<64, 128>(sha512, &mut exp[..n], &prk, &info);
    vf::check_eq(&out, &exp, "C05.expand512");
}
/// output lengths 0..=41 and up to 255 hash lengths (the maximum), with the toy hash
fn c05_expand_all_lengths() {
    let n = vf::pick(50, "len");
    let n = if n < 42 { n } else { [100, 254, 255, 256, 257, 300, 509, 510][n - 42] };
    let info: [u8; 3] = vf::arr("info");
    let prk = [0x9d, 0x41];
    let (mut out, mut exp) = ([7u8; 512], [7u8; 512]);
    hkdf::expand::<2, 4, ToyH>(&mut out[..n], &prk, &info);
    hm::expand::<2, 4>(toy, &mut exp[..n], &prk, &info);
    vf::check_eq(&out, &exp, "C05.expand_all");
}
}
