//! RFC 8439 sections 2.5 and 2.8, written from the standard: arithmetic on base 2^26 digits.
type D = [u64; 5];
fn digits(b: &[u8]) -> D {
    // b: up to 17 bytes, little-endian
    let mut x = [0u8; 24];
    for i in 0..b.len() { x[i] = b[i] }
    let at = |bit: usize| { let mut v = 0u64; for j in 0..5 { v |= (x[bit / 8 + j] as u64) << (8 * j) } (v >> (bit % 8)) & 0x3ffffff };
    [at(0), at(26), at(52), at(78), at(104)]
}
fn carry(a: &mut D) {
    for _ in 0..2 {
        for i in 0..4 { a[i + 1] += a[i] >> 26; a[i] &= 0x3ffffff }
        let c = a[4] >> 26;
        a[4] &= 0x3ffffff;
        a[0] += c * 5;
    }
}
fn mul(a: &D, b: &D) -> D {
    let mut t = [0u64; 9];
    for i in 0..5 { for j in 0..5 { t[i + j] += a[i] * b[j] } }
    for i in 5..9 { t[i - 5] += t[i] * 5 }
    let mut r = [t[0], t[1], t[2], t[3], t[4]];
    carry(&mut r);
    r
}
pub fn poly1305(key: &[u8; 32], parts: &[&[u8]]) -> [u8; 16] {
    let mut r = [0u8; 16];
    r.copy_from_slice(&key[..16]);
    for i in [3, 7, 11, 15] { r[i] &= 15 }
    for i in [4, 8, 12] { r[i] &= 252 }
    let r = digits(&r);
    let mut acc: D = [0; 5];
    let mut blk = [0u8; 17];
    let mut k = 0;
    let mut step = |blk: &[u8]| { let d = digits(blk); for i in 0..5 { acc[i] += d[i] } carry(&mut acc); acc = mul(&acc, &r) };
    for p in parts { for x in p.iter() { blk[k] = *x; k += 1; if k == 16 { blk[16] = 1; step(&blk); blk = [0; 17]; k = 0 } } }
    if k > 0 { blk[k] = 1; step(&blk) }
    carry(&mut acc);
    // subtract p = 2^130 - 5 once if the accumulator is at least p
    let ge = acc[0] >= 0x3fffffb && acc[1] == 0x3ffffff && acc[2] == 0x3ffffff && acc[3] == 0x3ffffff && acc[4] == 0x3ffffff;
    if ge { acc[0] -= 0x3fffffb; for i in 1..5 { acc[i] = 0 } }
    let v = acc[0] as u128 | (acc[1] as u128) << 26 | (acc[2] as u128) << 52 | (acc[3] as u128) << 78 | (acc[4] as u128) << 104;
    let mut s = [0u8; 16];
    s.copy_from_slice(&key[16..]);
    v.wrapping_add(u128::from_le_bytes(s)).to_le_bytes()
}
pub fn aead_tag(block: &[u8; 64], aad: &[u8], data: &[u8]) -> [u8; 16] {
    let mut key = [0u8; 32];
    key.copy_from_slice(&block[..32]);
    let z = [0u8; 16];
    let pad = |n: usize| &z[..(16 - n % 16) % 16];
    poly1305(&key, &[aad, pad(aad.len()), data, pad(data.len()), &(aad.len() as u64).to_le_bytes(), &(data.len() as u64).to_le_bytes()])
}
