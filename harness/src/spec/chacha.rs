//! RFC 8439 sections 2.1-2.4, written from the standard.
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]); s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]); s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn word(b: &[u8]) -> u32 { b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24 }
pub fn block(key: &[u8; 32], counter: u32, nonce: &[u8; 12]) -> [u8; 64] {
    let mut s = [0u32; 16];
    let c = b"expand 32-byte k";
    for i in 0..4 { s[i] = word(&c[4 * i..]); }
    for i in 0..8 { s[4 + i] = word(&key[4 * i..]); }
    s[12] = counter;
    for i in 0..3 { s[13 + i] = word(&nonce[4 * i..]); }
    let mut w = s;
    for _ in 0..10 {
        for i in 0..4 { qr(&mut w, i, i + 4, i + 8, i + 12); }
        for i in 0..4 { qr(&mut w, i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4); }
    }
    let mut out = [0u8; 64];
    for i in 0..16 { let x = w[i].wrapping_add(s[i]); for j in 0..4 { out[4 * i + j] = (x >> (8 * j)) as u8; } }
    out
}
pub fn xor(key: &[u8; 32], counter: u32, nonce: &[u8; 12], data: &mut [u8]) {
    let mut i = 0;
    let mut ks = [0u8; 64];
    while i < data.len() {
        if i % 64 == 0 { ks = block(key, counter.wrapping_add((i / 64) as u32), nonce); }
        data[i] ^= ks[i % 64];
        i += 1;
    }
}
