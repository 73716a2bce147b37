//! FIPS 197 and SP 800-38D, written from the standards (the S-box is computed from its definition).
const fn xtime(a: u8) -> u8 { (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 }) }
const fn gmul(mut a: u8, mut b: u8) -> u8 { let mut r = 0; while b != 0 { if b & 1 != 0 { r ^= a; } a = xtime(a); b >>= 1; } r }
const fn sbox_of(x: u8) -> u8 {
    // multiplicative inverse x^254, then the affine map
    let mut inv = 1u8;
    let mut i = 0;
    while i < 254 { inv = gmul(inv, x); i += 1; }
    if x == 0 { inv = 0; }
    inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63
}
const fn sbox_table() -> [u8; 256] { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = sbox_of(i as u8); i += 1; } t }
const fn mul_table(k: u8) -> [u8; 256] { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = gmul(i as u8, k); i += 1; } t }
static SBOX: [u8; 256] = sbox_table();
static M2: [u8; 256] = mul_table(2);
static M3: [u8; 256] = mul_table(3);

pub struct Aes { rk: [[u8; 4]; 60], rounds: usize }
impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let nk = key.len() / 4;
        let rounds = nk + 6;
        let mut w = [[0u8; 4]; 60];
        for i in 0..nk { for j in 0..4 { w[i][j] = key[4 * i + j]; } }
        let mut rcon = 1u8;
        for i in nk..4 * (rounds + 1) {
            let mut t = w[i - 1];
            if i % nk == 0 {
                t = [SBOX[t[1] as usize] ^ rcon, SBOX[t[2] as usize], SBOX[t[3] as usize], SBOX[t[0] as usize]];
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                for j in 0..4 { t[j] = SBOX[t[j] as usize]; }
            }
            for j in 0..4 { w[i][j] = w[i - nk][j] ^ t[j]; }
        }
        Aes { rk: w, rounds }
    }
    pub fn encrypt(&self, block: &[u8; 16]) -> [u8; 16] {
        let mut s = *block;
        for c in 0..4 { for r in 0..4 { s[4 * c + r] ^= self.rk[c][r]; } }
        for round in 1..=self.rounds {
            let mut t = [0u8; 16];
            for c in 0..4 { for r in 0..4 { t[4 * c + r] = SBOX[s[4 * ((c + r) % 4) + r] as usize]; } }
            if round != self.rounds {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for r in 0..4 { t[4 * c + r] = M2[a[r] as usize] ^ M3[a[(r + 1) % 4] as usize] ^ a[(r + 2) % 4] ^ a[(r + 3) % 4]; }
                }
            }
            for c in 0..4 { for r in 0..4 { s[4 * c + r] = t[4 * c + r] ^ self.rk[4 * round + c][r]; } }
        }
        s
    }
}
/// SP 800-38D section 6.3: bit 0 is the leftmost bit
pub fn gf_mul(x: u128, y: u128) -> u128 {
    let mut z = 0u128;
    let mut v = y;
    let mut i = 0;
    while i < 128 {
        z ^= v & 0u128.wrapping_sub(x >> (127 - i) & 1);
        let lsb = v & 1;
        v >>= 1;
        v ^= (0xe1u128 << 120) & 0u128.wrapping_sub(lsb);
        i += 1;
    }
    z
}
pub fn ghash_blocks(h: u128, mut y: u128, data: &[u8], mul: fn(u128, u128) -> u128) -> u128 {
    let mut i = 0;
    while i < data.len() {
        let mut b = 0u128;
        for j in 0..16 { b <<= 8; if i + j < data.len() { b |= data[i + j] as u128; } }
        y = mul(y ^ b, h);
        i += 16;
    }
    y
}
pub fn gcm(aes: &Aes, iv: &[u8; 12], aad: &[u8], data: &mut [u8], encrypt: bool, mul: fn(u128, u128) -> u128) -> [u8; 16] {
    let h = u128::from_be_bytes(aes.encrypt(&[0; 16]));
    let mut ctr = [0u8; 16];
    for i in 0..12 { ctr[i] = iv[i]; }
    ctr[15] = 1;
    let ek0 = aes.encrypt(&ctr);
    let mut crypt = |data: &mut [u8]| {
        let mut n = 1u32;
        let mut ks = [0u8; 16];
        for i in 0..data.len() {
            if i % 16 == 0 { n += 1; let mut c = ctr; c[12] = (n >> 24) as u8; c[13] = (n >> 16) as u8; c[14] = (n >> 8) as u8; c[15] = n as u8; ks = aes.encrypt(&c); }
            data[i] ^= ks[i % 16];
        }
    };
    if encrypt { crypt(data); }
    let mut y = ghash_blocks(h, 0, aad, mul);
    y = ghash_blocks(h, y, data, mul);
    y = mul(y ^ ((aad.len() as u128 * 8) << 64 | (data.len() as u128 * 8)), h);
    if !encrypt { crypt(data); }
    let mut tag = y.to_be_bytes();
    for i in 0..16 { tag[i] ^= ek0[i]; }
    tag
}
