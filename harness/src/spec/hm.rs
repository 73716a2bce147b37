//! RFC 2104 and RFC 5869, written from the standards, over any hash given as a function of message parts.
pub fn hmac<const H: usize, const B: usize>(hash: fn(&[&[u8]]) -> [u8; H], key: &[u8], msg: &[&[u8]]) -> [u8; H] {
    let mut k = [0u8; B];
    if key.len() > B { k[..H].copy_from_slice(&hash(&[key])); } else { for i in 0..key.len() { k[i] = key[i]; } }
    let (mut ip, mut op) = ([0u8; B], [0u8; B]);
    for i in 0..B { ip[i] = k[i] ^ 0x36; op[i] = k[i] ^ 0x5c; }
    let mut parts: [&[u8]; 8] = [&[]; 8];
    parts[0] = &ip;
    for (i, m) in msg.iter().enumerate() { parts[i + 1] = m; }
    let inner = hash(&parts[..msg.len() + 1]);
    hash(&[&op, &inner])
}
pub fn expand<const H: usize, const B: usize>(hash: fn(&[&[u8]]) -> [u8; H], out: &mut [u8], prk: &[u8], info: &[u8]) {
    let mut t = [0u8; H];
    let mut pos = 0;
    let mut i = 1u32;
    while pos < out.len() {
        let ctr = [i as u8];
        t = if i == 1 { hmac::<H, B>(hash, prk, &[info, &ctr]) } else { let p = t; hmac::<H, B>(hash, prk, &[&p, info, &ctr]) };
        let n = if out.len() - pos < H { out.len() - pos } else { H };
        for j in 0..n { out[pos + j] = t[j]; }
        pos += n;
        i += 1;
    }
}
