//! FIPS 180-4, written from the standard: constants derived from primes, padding built in one buffer.
const fn is_prime(n: u64) -> bool { let mut d = 2; while d * d <= n { if n % d == 0 { return false; } d += 1; } true }
const fn primes<const N: usize>() -> [u64; N] { let mut p = [0; N]; let (mut i, mut n) = (0, 2); while i < N { if is_prime(n) { p[i] = n; i += 1; } n += 1; } p }
// 256-bit helpers for exact integer roots
const fn mul(a: [u64; 4], b: [u64; 4]) -> [u64; 8] {
    let mut r = [0u64; 8];
    let mut i = 0;
    while i < 4 {
        let mut c = 0u128;
        let mut j = 0;
        while j < 4 { let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c; r[i + j] = t as u64; c = t >> 64; j += 1; }
        r[i + 4] = c as u64;
        i += 1;
    }
    r
}
const fn le(a: [u64; 4], b: [u64; 4]) -> bool { let mut i = 4; while i > 0 { i -= 1; if a[i] < b[i] { return true; } if a[i] > b[i] { return false; } } true }
const fn lo4(a: [u64; 8]) -> [u64; 4] { [a[0], a[1], a[2], a[3]] }
/// floor(p^(1/k) * 2^64) mod 2^64, k = 2 or 3
const fn root_frac(p: u64, k: u32) -> u64 {
    // find x < 2^70 with x^k <= p * 2^(64k); x^3 < 2^216, fits 256 bits
    let mut x: u128 = 0;
    let mut bit = 70;
    let target: [u64; 4] = if k == 2 { [0, 0, p, 0] } else { [0, 0, 0, p] };
    while bit > 0 {
        bit -= 1;
        let y = x | (1u128 << bit);
        let v = [y as u64, (y >> 64) as u64, 0, 0];
        let mut r = lo4(mul(v, v));
        if k == 3 { r = lo4(mul(r, v)); }
        if le(r, target) { x = y; }
    }
    x as u64
}
const P: [u64; 80] = primes::<80>();
const fn consts<const N: usize>(k: u32) -> [u64; N] { let mut r = [0; N]; let mut i = 0; while i < N { r[i] = root_frac(P[i], k); i += 1; } r }
pub const K512: [u64; 80] = consts::<80>(3);
pub const H512: [u64; 8] = consts::<8>(2);
const fn hi32<const N: usize>(a: &[u64]) -> [u32; N] { let mut r = [0; N]; let mut i = 0; while i < N { r[i] = (a[i] >> 32) as u32; i += 1; } r }
pub const K256: [u32; 64] = hi32(&K512);
pub const H256: [u32; 8] = hi32(&H512);

macro_rules! sha { ($name:ident, $comp:ident, $w:ty, $rounds:expr, $block:expr, $out:expr, $k:expr, $h:expr, $lenb:expr, $s0:expr, $s1:expr, $g0:expr, $g1:expr) => {
    pub fn $comp(h: &mut [$w; 8], m: &[u8]) {
        let mut w: [$w; $rounds] = [0; $rounds];
        let n = size_of::<$w>();
        for t in 0..16 { let mut x: $w = 0; for j in 0..n { x = (x << 8) | m[t * n + j] as $w; } w[t] = x; }
        for t in 16..$rounds {
            let (a, b) = (w[t - 15], w[t - 2]);
            let s0 = a.rotate_right($g0.0) ^ a.rotate_right($g0.1) ^ (a >> $g0.2);
            let s1 = b.rotate_right($g1.0) ^ b.rotate_right($g1.1) ^ (b >> $g1.2);
            w[t] = s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]);
        }
        let mut v = *h;
        for t in 0..$rounds {
            let e = v[4];
            let a = v[0];
            let s1 = e.rotate_right($s1.0) ^ e.rotate_right($s1.1) ^ e.rotate_right($s1.2);
            let ch = (e & v[5]) ^ (!e & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add($k[t]).wrapping_add(w[t]);
            let s0 = a.rotate_right($s0.0) ^ a.rotate_right($s0.1) ^ a.rotate_right($s0.2);
            let mj = (a & v[1]) ^ (a & v[2]) ^ (v[1] & v[2]);
            v = [t1.wrapping_add(s0.wrapping_add(mj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]); }
    }
    /// Digest of the concatenation of the parts.
    pub fn $name(parts: &[&[u8]]) -> [u8; $out] {
        let mut h: [$w; 8] = $h;
        let mut buf = [0u8; $block];
        let mut k = 0;
        let mut total: u64 = 0;
        for p in parts { for b in p.iter() { buf[k] = *b; k += 1; total += 1; if k == $block { $comp(&mut h, &buf); k = 0; } } }
        buf[k] = 0x80;
        k += 1;
        if k > $block - $lenb { while k < $block { buf[k] = 0; k += 1; } $comp(&mut h, &buf); k = 0; }
        while k < $block { buf[k] = 0; k += 1; }
        let bits = (total as u128) * 8;
        for i in 0..8 { buf[$block - 1 - i] = (bits >> (8 * i)) as u8; }
        $comp(&mut h, &buf);
        let mut out = [0u8; $out];
        let n = size_of::<$w>();
        for i in 0..8 { for j in 0..n { out[i * n + j] = (h[i] >> (8 * (n - 1 - j))) as u8; } }
        out
    }
} }
sha!(sha256, compress256, u32, 64, 64, 32, K256, H256, 8, (2u32, 13u32, 22u32), (6u32, 11u32, 25u32), (7u32, 18u32, 3u32), (17u32, 19u32, 10u32));
sha!(sha512, compress512, u64, 80, 128, 64, K512, H512, 16, (28u32, 34u32, 39u32), (14u32, 18u32, 41u32), (1u32, 8u32, 7u32), (19u32, 61u32, 6u32));
