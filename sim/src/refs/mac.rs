//! HMAC (FIPS 198-1) and CMAC (SP 800-38B).
use super::block::BlockRef;

pub fn hmac(h: &dyn Fn(&[u8]) -> Vec<u8>, block: usize, key: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > block { h(key) } else { key.to_vec() };
    k.resize(block, 0);
    let mut inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    inner.extend_from_slice(msg);
    let mut outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    outer.extend_from_slice(&h(&inner));
    h(&outer)
}

/// reduction polynomial of GF(2^n), lexicographically first irreducible with the fewest terms
pub fn rb(bs: usize) -> Option<u32> {
    let e: &[u32] = match bs {
        4 => &[7, 3, 2, 0],
        6 => &[5, 3, 2, 0],
        8 => &[4, 3, 1, 0],
        12 => &[10, 9, 6, 0],
        16 => &[7, 2, 1, 0],
        20 => &[5, 3, 2, 0],
        24 => &[7, 2, 1, 0],
        28 => &[9, 8, 3, 0],
        32 => &[10, 5, 2, 0],
        40 => &[4, 3, 1, 0],
        48 => &[12, 3, 2, 0],
        56 => &[11, 6, 4, 0],
        64 => &[8, 5, 2, 0],
        96 => &[19, 17, 4, 0],
        128 => &[19, 6, 1, 0],
        256 => &[19, 14, 13, 0],
        _ => return None,
    };
    Some(e.iter().fold(0, |a, &b| a | (1 << b)))
}

fn dbl(x: &[u8]) -> Vec<u8> {
    let n = x.len();
    let mut r = vec![0u8; n];
    for i in 0..n {
        r[i] = (x[i] << 1) | if i + 1 < n { x[i + 1] >> 7 } else { 0 };
    }
    if x[0] & 0x80 != 0 {
        for (i, b) in rb(n).unwrap().to_le_bytes().iter().enumerate() {
            if i < n {
                r[n - 1 - i] ^= b;
            }
        }
    }
    r
}

pub fn cmac<B: BlockRef>(c: &B, msg: &[u8]) -> Vec<u8> {
    let n = c.bs();
    let k1 = dbl(&c.enc(&vec![0; n]));
    let k2 = dbl(&k1);
    let mut m = msg.to_vec();
    let full = !m.is_empty() && m.len() % n == 0;
    if !full {
        m.push(0x80);
        while m.len() % n != 0 {
            m.push(0);
        }
    }
    let last = m.len() - n;
    for i in 0..n {
        m[last + i] ^= if full { k1[i] } else { k2[i] };
    }
    let mut x = vec![0u8; n];
    for b in m.chunks(n) {
        for i in 0..n {
            x[i] ^= b[i];
        }
        x = c.enc(&x);
    }
    x
}
