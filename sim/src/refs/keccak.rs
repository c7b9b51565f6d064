//! Keccak-p[b, nr], sponge and SHA-3 (FIPS 202), lane oriented, bit strings as Vec<bool>-like u8 0/1.

/// b = 25 * 2^l
pub fn keccak_p(a: &mut [u64; 25], l: u32, nr: u32) {
    let w = 1u32 << l;
    let mask: u64 = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let rotl = |x: u64, n: u32| -> u64 {
        let n = n % w;
        if n == 0 {
            x
        } else {
            ((x << n) | (x >> (w - n))) & mask
        }
    };
    // rho offsets
    let mut rho = [0u32; 25];
    let (mut x, mut y) = (1usize, 0usize);
    for t in 0..24u32 {
        rho[x + 5 * y] = (t + 1) * (t + 2) / 2;
        let nx = y;
        y = (2 * x + 3 * y) % 5;
        x = nx;
    }
    let total = (12 + 2 * l) as i64;
    for ir in (total - nr as i64)..total {
        let mut c = [0u64; 5];
        for x in 0..5 {
            c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
        }
        for x in 0..5 {
            let d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1);
            for y in 0..5 {
                a[x + 5 * y] ^= d;
            }
        }
        let mut b = [0u64; 25];
        for x in 0..5 {
            for y in 0..5 {
                b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(a[x + 5 * y], rho[x + 5 * y]);
            }
        }
        for x in 0..5 {
            for y in 0..5 {
                a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y] & mask);
            }
        }
        // round constant from the LFSR x^8 + x^6 + x^5 + x^4 + 1
        let rc = |t: i64| -> u64 {
            let mut r = 1u32;
            for _ in 0..t.rem_euclid(255) {
                r <<= 1;
                if r & 0x100 != 0 {
                    r ^= 0x171;
                }
            }
            (r & 1) as u64
        };
        let mut k = 0u64;
        for j in 0..=l {
            k |= rc(j as i64 + 7 * ir) << ((1u32 << j) - 1);
        }
        a[0] ^= k & mask;
    }
}

/// input and output as vectors of bits (0/1)
pub fn sponge(l: u32, nr: u32, rate: usize, bits: &[u8], out_bits: usize) -> Vec<u8> {
    let w = 1usize << l;
    let mut p = bits.to_vec();
    p.push(1);
    while (p.len() + 1) % rate != 0 {
        p.push(0);
    }
    p.push(1);
    let mut a = [0u64; 25];
    for blk in p.chunks(rate) {
        for (i, &b) in blk.iter().enumerate() {
            a[i / w] ^= (b as u64) << (i % w);
        }
        keccak_p(&mut a, l, nr);
    }
    let mut out = Vec::new();
    loop {
        for i in 0..rate {
            out.push(((a[i / w] >> (i % w)) & 1) as u8);
        }
        if out.len() >= out_bits {
            out.truncate(out_bits);
            return out;
        }
        keccak_p(&mut a, l, nr);
    }
}

/// the permutation alone, on a string of 25 * 2^l bits
pub fn permute(l: u32, nr: u32, bits: &[u8]) -> Vec<u8> {
    let w = 1usize << l;
    let mut a = [0u64; 25];
    for i in 0..25 * w {
        a[i / w] |= (bits[i] as u64) << (i % w);
    }
    keccak_p(&mut a, l, nr);
    (0..25 * w).map(|i| (a[i / w] >> (i % w) & 1) as u8).collect()
}

pub fn to_bits(bytes: &[u8]) -> Vec<u8> {
    bytes.iter().flat_map(|&b| (0..8).map(move |i| (b >> i) & 1)).collect()
}

pub fn to_bytes(bits: &[u8]) -> Vec<u8> {
    bits.chunks(8).map(|c| c.iter().enumerate().fold(0u8, |a, (i, &b)| a | (b << i))).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sha3 {
    S(usize),
    Shake(usize),
    RawShake(usize),
}

pub fn sha3_bits(v: Sha3, msg_bits: &[u8], out_bits: usize) -> Vec<u8> {
    let mut m = msg_bits.to_vec();
    let cap = match v {
        Sha3::S(n) => {
            m.extend_from_slice(&[0, 1]);
            2 * n
        }
        Sha3::Shake(n) => {
            m.extend_from_slice(&[1, 1, 1, 1]);
            2 * n
        }
        Sha3::RawShake(n) => {
            m.extend_from_slice(&[1, 1]);
            2 * n
        }
    };
    to_bytes(&sponge(6, 24, 1600 - cap, &m, out_bits))
}

pub fn sha3(n: usize, msg: &[u8]) -> Vec<u8> {
    sha3_bits(Sha3::S(n), &to_bits(msg), n)
}
