//! AES (FIPS 197), DES / TDEA (FIPS 46-3), SM4 (GB/T 32907).

pub trait BlockRef {
    fn bs(&self) -> usize;
    fn enc(&self, b: &[u8]) -> Vec<u8>;
    fn dec(&self, b: &[u8]) -> Vec<u8>;
}

#[derive(Clone)]
pub enum Block {
    Aes(Vec<[u8; 16]>),
    Des(Vec<[u64; 16]>),
    Sm4([u32; 32]),
    /// involution-free toy cipher of any block size, for sizes no real cipher here has
    Toy(Vec<u8>),
}

fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

pub struct AesTab {
    s: [u8; 256],
    inv: [u8; 256],
    mul: [[u8; 256]; 16],
}

pub fn aes_tab() -> &'static AesTab {
    use std::sync::OnceLock;
    static T: OnceLock<AesTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = AesTab { s: [0; 256], inv: [0; 256], mul: [[0; 256]; 16] };
        for a in 0..256usize {
            let i = (0..=255u8).find(|&x| gmul(a as u8, x) == 1).unwrap_or(0);
            let v = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            t.s[a] = v;
            t.inv[v as usize] = a as u8;
            for k in 0..16 {
                t.mul[k][a] = gmul(k as u8, a as u8);
            }
        }
        t
    })
}

fn aes_expand(key: &[u8]) -> Vec<[u8; 16]> {
    let t = aes_tab();
    let nk = key.len() / 4;
    let nr = nk + 6;
    let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
    let mut rcon = 1u8;
    for i in nk..4 * (nr + 1) {
        let mut x = w[i - 1];
        if i % nk == 0 {
            x.rotate_left(1);
            for b in x.iter_mut() {
                *b = t.s[*b as usize];
            }
            x[0] ^= rcon;
            rcon = xtime(rcon);
        } else if nk > 6 && i % nk == 4 {
            for b in x.iter_mut() {
                *b = t.s[*b as usize];
            }
        }
        for j in 0..4 {
            x[j] ^= w[i - nk][j];
        }
        w.push(x);
    }
    w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect()
}

const IP: [u8; 64] = [
    58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8, 57,
    49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7,
];
const E: [u8; 48] = [
    32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24,
    25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
];
const P: [u8; 32] =
    [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25];
const PC1: [u8; 56] = [
    57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36, 63, 55, 47, 39, 31,
    23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
];
const PC2: [u8; 48] = [
    14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55, 30, 40, 51, 45,
    33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
];
const LS: [u32; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];
const S: [[u8; 64]; 8] = [[
    14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7,
    0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8,
    4, 1, 14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0,
    15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13,
],[
    15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10,
    3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5,
    0, 14, 7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15,
    13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9,
],[
    10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8,
    13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1,
    13, 6, 4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7,
    1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12,
],[
    7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15,
    13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9,
    10, 6, 9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4,
    3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14,
],[
    2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9,
    14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6,
    4, 2, 1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14,
    11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3,
],[
    12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11,
    10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8,
    9, 14, 15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6,
    4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13,
],[
    4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1,
    13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6,
    1, 4, 11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2,
    6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12,
],[
    13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7,
    1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2,
    7, 11, 4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8,
    2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11,
]];

/// bit 1 is the most significant of `width`
fn perm(x: u64, width: u32, tab: &[u8]) -> u64 {
    tab.iter().fold(0, |a, &p| (a << 1) | ((x >> (width - p as u32)) & 1))
}

fn perm_inv_ip(x: u64) -> u64 {
    let mut r = 0u64;
    for (i, &p) in IP.iter().enumerate() {
        if (x >> (63 - i)) & 1 == 1 {
            r |= 1 << (64 - p as u32);
        }
    }
    r
}

fn des_expand(key: &[u8]) -> [u64; 16] {
    let k = perm(u64::from_be_bytes(key.try_into().unwrap()), 64, &PC1);
    let m = (1u64 << 28) - 1;
    let (mut c, mut d) = (k >> 28, k & m);
    let mut ks = [0; 16];
    for i in 0..16 {
        c = ((c << LS[i]) | (c >> (28 - LS[i]))) & m;
        d = ((d << LS[i]) | (d >> (28 - LS[i]))) & m;
        ks[i] = perm((c << 28) | d, 56, &PC2);
    }
    ks
}

fn des(ks: &[u64; 16], x: u64, dec: bool) -> u64 {
    let y = perm(x, 64, &IP);
    let (mut l, mut r) = (y >> 32, y & 0xffff_ffff);
    for i in 0..16 {
        let k = ks[if dec { 15 - i } else { i }];
        let t = perm(r, 32, &E) ^ k;
        let mut s = 0u64;
        for j in 0..8 {
            let v = ((t >> (42 - 6 * j)) & 63) as usize;
            let row = ((v >> 4) & 2) | (v & 1);
            s = (s << 4) | S[j][row * 16 + ((v >> 1) & 15)] as u64;
        }
        let f = perm(s, 32, &P);
        (l, r) = (r, l ^ f);
    }
    perm_inv_ip((r << 32) | l)
}

const SM4_S: [u8; 256] = [
    0xd6, 0x90, 0xe9, 0xfe, 0xcc, 0xe1, 0x3d, 0xb7,
    0x16, 0xb6, 0x14, 0xc2, 0x28, 0xfb, 0x2c, 0x05,
    0x2b, 0x67, 0x9a, 0x76, 0x2a, 0xbe, 0x04, 0xc3,
    0xaa, 0x44, 0x13, 0x26, 0x49, 0x86, 0x06, 0x99,
    0x9c, 0x42, 0x50, 0xf4, 0x91, 0xef, 0x98, 0x7a,
    0x33, 0x54, 0x0b, 0x43, 0xed, 0xcf, 0xac, 0x62,
    0xe4, 0xb3, 0x1c, 0xa9, 0xc9, 0x08, 0xe8, 0x95,
    0x80, 0xdf, 0x94, 0xfa, 0x75, 0x8f, 0x3f, 0xa6,
    0x47, 0x07, 0xa7, 0xfc, 0xf3, 0x73, 0x17, 0xba,
    0x83, 0x59, 0x3c, 0x19, 0xe6, 0x85, 0x4f, 0xa8,
    0x68, 0x6b, 0x81, 0xb2, 0x71, 0x64, 0xda, 0x8b,
    0xf8, 0xeb, 0x0f, 0x4b, 0x70, 0x56, 0x9d, 0x35,
    0x1e, 0x24, 0x0e, 0x5e, 0x63, 0x58, 0xd1, 0xa2,
    0x25, 0x22, 0x7c, 0x3b, 0x01, 0x21, 0x78, 0x87,
    0xd4, 0x00, 0x46, 0x57, 0x9f, 0xd3, 0x27, 0x52,
    0x4c, 0x36, 0x02, 0xe7, 0xa0, 0xc4, 0xc8, 0x9e,
    0xea, 0xbf, 0x8a, 0xd2, 0x40, 0xc7, 0x38, 0xb5,
    0xa3, 0xf7, 0xf2, 0xce, 0xf9, 0x61, 0x15, 0xa1,
    0xe0, 0xae, 0x5d, 0xa4, 0x9b, 0x34, 0x1a, 0x55,
    0xad, 0x93, 0x32, 0x30, 0xf5, 0x8c, 0xb1, 0xe3,
    0x1d, 0xf6, 0xe2, 0x2e, 0x82, 0x66, 0xca, 0x60,
    0xc0, 0x29, 0x23, 0xab, 0x0d, 0x53, 0x4e, 0x6f,
    0xd5, 0xdb, 0x37, 0x45, 0xde, 0xfd, 0x8e, 0x2f,
    0x03, 0xff, 0x6a, 0x72, 0x6d, 0x6c, 0x5b, 0x51,
    0x8d, 0x1b, 0xaf, 0x92, 0xbb, 0xdd, 0xbc, 0x7f,
    0x11, 0xd9, 0x5c, 0x41, 0x1f, 0x10, 0x5a, 0xd8,
    0x0a, 0xc1, 0x31, 0x88, 0xa5, 0xcd, 0x7b, 0xbd,
    0x2d, 0x74, 0xd0, 0x12, 0xb8, 0xe5, 0xb4, 0xb0,
    0x89, 0x69, 0x97, 0x4a, 0x0c, 0x96, 0x77, 0x7e,
    0x65, 0xb9, 0xf1, 0x09, 0xc5, 0x6e, 0xc6, 0x84,
    0x18, 0xf0, 0x7d, 0xec, 0x3a, 0xdc, 0x4d, 0x20,
    0x79, 0xee, 0x5f, 0x3e, 0xd7, 0xcb, 0x39, 0x48,
];

fn sm4_tau(x: u32) -> u32 {
    u32::from_be_bytes(x.to_be_bytes().map(|b| SM4_S[b as usize]))
}

fn sm4_expand(key: &[u8]) -> [u32; 32] {
    let fk = [0xa3b1bac6u32, 0x56aa3350, 0x677d9197, 0xb27022dc];
    let mut k: Vec<u32> = (0..4).map(|i| u32::from_be_bytes(key[4 * i..4 * i + 4].try_into().unwrap()) ^ fk[i]).collect();
    let mut rk = [0; 32];
    for i in 0..32u32 {
        let ck = (0..4).fold(0u32, |a, j| (a << 8) | ((4 * i + j) * 7 % 256));
        let n = i as usize;
        let t = sm4_tau(k[n + 1] ^ k[n + 2] ^ k[n + 3] ^ ck);
        let v = k[n] ^ t ^ t.rotate_left(13) ^ t.rotate_left(23);
        k.push(v);
        rk[n] = v;
    }
    rk
}

fn sm4(rk: &[u32; 32], b: &[u8], dec: bool) -> Vec<u8> {
    let mut x: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    for i in 0..32 {
        let t = sm4_tau(x[i + 1] ^ x[i + 2] ^ x[i + 3] ^ rk[if dec { 31 - i } else { i }]);
        let v = x[i] ^ t ^ t.rotate_left(2) ^ t.rotate_left(10) ^ t.rotate_left(18) ^ t.rotate_left(24);
        x.push(v);
    }
    x[32..].iter().rev().flat_map(|v| v.to_be_bytes()).collect()
}

impl Block {
    pub fn aes(key: &[u8]) -> Block {
        Block::Aes(aes_expand(key))
    }
    pub fn des(key: &[u8]) -> Block {
        Block::Des(vec![des_expand(key)])
    }
    pub fn tdes(k1: &[u8], k2: &[u8], k3: &[u8]) -> Block {
        Block::Des(vec![des_expand(k1), des_expand(k2), des_expand(k3)])
    }
    pub fn sm4(key: &[u8]) -> Block {
        Block::Sm4(sm4_expand(key))
    }
    pub fn toy(key: &[u8]) -> Block {
        Block::Toy(key.to_vec())
    }
}

/// keyed permutation of byte strings of any length: two Feistel-like passes of byte adds
pub fn toy_enc(key: &[u8], b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut v = b.to_vec();
    for r in 0..3usize {
        let mut acc = key[(r * 5) % key.len()];
        for i in 0..n {
            v[i] = v[i].wrapping_add(acc).rotate_left(3) ^ key[(i + r) % key.len()];
            acc = v[i].wrapping_mul(5).wrapping_add((i as u8).wrapping_add(1));
        }
        v.reverse();
    }
    v
}

pub fn toy_dec(key: &[u8], b: &[u8]) -> Vec<u8> {
    let n = b.len();
    let mut v = b.to_vec();
    for r in (0..3usize).rev() {
        v.reverse();
        let mut acc = key[(r * 5) % key.len()];
        for i in 0..n {
            let c = v[i];
            v[i] = (c ^ key[(i + r) % key.len()]).rotate_right(3).wrapping_sub(acc);
            acc = c.wrapping_mul(5).wrapping_add((i as u8).wrapping_add(1));
        }
    }
    v
}

impl BlockRef for Block {
    fn bs(&self) -> usize {
        match self {
            Block::Des(_) => 8,
            Block::Toy(k) => k.len(),
            _ => 16,
        }
    }

    fn enc(&self, b: &[u8]) -> Vec<u8> {
        assert_eq!(b.len(), self.bs());
        match self {
            Block::Sm4(rk) => sm4(rk, b, false),
            Block::Toy(k) => toy_enc(k, b),
            Block::Des(ks) => {
                let mut x = u64::from_be_bytes(b.try_into().unwrap());
                for (i, k) in ks.iter().enumerate() {
                    x = des(k, x, i == 1);
                }
                x.to_be_bytes().to_vec()
            }
            Block::Aes(w) => {
                let t = aes_tab();
                let mut s: [u8; 16] = b.try_into().unwrap();
                let nr = w.len() - 1;
                for i in 0..16 {
                    s[i] ^= w[0][i];
                }
                for r in 1..=nr {
                    let mut n = [0u8; 16];
                    for c in 0..4 {
                        for row in 0..4 {
                            n[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize];
                        }
                    }
                    if r != nr {
                        for c in 0..4 {
                            let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                            for row in 0..4 {
                                n[4 * c + row] = t.mul[2][a[row] as usize] ^ t.mul[3][a[(row + 1) % 4] as usize] ^ a[(row + 2) % 4] ^ a[(row + 3) % 4];
                            }
                        }
                    }
                    for i in 0..16 {
                        s[i] = n[i] ^ w[r][i];
                    }
                }
                s.to_vec()
            }
        }
    }

    fn dec(&self, b: &[u8]) -> Vec<u8> {
        assert_eq!(b.len(), self.bs());
        match self {
            Block::Sm4(rk) => sm4(rk, b, true),
            Block::Toy(k) => toy_dec(k, b),
            Block::Des(ks) => {
                let mut x = u64::from_be_bytes(b.try_into().unwrap());
                for (i, k) in ks.iter().enumerate().rev() {
                    x = des(k, x, i != 1);
                }
                x.to_be_bytes().to_vec()
            }
            Block::Aes(w) => {
                let t = aes_tab();
                let mut s: [u8; 16] = b.try_into().unwrap();
                let nr = w.len() - 1;
                for i in 0..16 {
                    s[i] ^= w[nr][i];
                }
                for r in (0..nr).rev() {
                    let mut n = [0u8; 16];
                    for c in 0..4 {
                        for row in 0..4 {
                            n[4 * ((c + row) % 4) + row] = t.inv[s[4 * c + row] as usize];
                        }
                    }
                    for i in 0..16 {
                        n[i] ^= w[r][i];
                    }
                    if r != 0 {
                        for c in 0..4 {
                            let a: [u8; 4] = n[4 * c..4 * c + 4].try_into().unwrap();
                            for row in 0..4 {
                                n[4 * c + row] = t.mul[14][a[row] as usize]
                                    ^ t.mul[11][a[(row + 1) % 4] as usize]
                                    ^ t.mul[13][a[(row + 2) % 4] as usize]
                                    ^ t.mul[9][a[(row + 3) % 4] as usize];
                            }
                        }
                    }
                    s = n;
                }
                s.to_vec()
            }
        }
    }
}
