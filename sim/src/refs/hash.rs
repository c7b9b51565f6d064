//! MD5 (RFC 1321), SHA-1 and SHA-2 (FIPS 180-4), SM3 (GM/T 0004).

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Alg {
    Md5,
    Sha1,
    Sha224,
    Sha256,
    Sha384,
    Sha512,
    /// SHA-512/t
    Sha512T(usize),
    Sm3,
}

impl Alg {
    pub fn block(self) -> usize {
        match self {
            Alg::Sha384 | Alg::Sha512 | Alg::Sha512T(_) => 128,
            _ => 64,
        }
    }
    pub fn bits(self) -> usize {
        match self {
            Alg::Md5 => 128,
            Alg::Sha1 => 160,
            Alg::Sha224 => 224,
            Alg::Sha256 | Alg::Sm3 => 256,
            Alg::Sha384 => 384,
            Alg::Sha512 => 512,
            Alg::Sha512T(t) => t,
        }
    }
}

fn is_prime(n: u64) -> bool {
    n >= 2 && (2..).take_while(|d| d * d <= n).all(|d| n % d != 0)
}

/// first 64 bits of the fractional part of the (sq or cube) root of n, by integer bisection
fn root_frac(n: u64, cube: bool) -> u64 {
    // find floor(root(n) * 2^64) with 128/256-bit compare; work with x = a*2^64 + f, bisect on bits
    let mut x: u128 = 0;
    for bit in (0..70).rev() {
        let c = x | (1u128 << bit);
        let le = if cube { pow_le(c, 3, n, 192) } else { pow_le(c, 2, n, 128) };
        if le {
            x = c;
        }
    }
    x as u64
}

/// c^k <= n * 2^shift ?
fn pow_le(c: u128, k: u32, n: u64, shift: u32) -> bool {
    let a = [c as u32 as u64, (c >> 32) as u32 as u64, (c >> 64) as u32 as u64, (c >> 96) as u32 as u64];
    let mul = |x: &[u64], y: &[u64]| {
        let mut r = vec![0u64; x.len() + y.len()];
        for i in 0..x.len() {
            let mut carry = 0u64;
            for j in 0..y.len() {
                let t = x[i] * y[j] + r[i + j] + carry;
                r[i + j] = t & 0xffff_ffff;
                carry = t >> 32;
            }
            r[i + y.len()] += carry;
        }
        r
    };
    let mut p = a.to_vec();
    for _ in 1..k {
        p = mul(&p, &a);
    }
    let mut q = vec![0u64; p.len()];
    let w = (shift / 32) as usize;
    q[w] = n & 0xffff_ffff;
    q[w + 1] = n >> 32;
    for i in (0..p.len()).rev() {
        if p[i] != q[i] {
            return p[i] < q[i];
        }
    }
    true
}

struct Consts {
    k512: [u64; 80],
    sq: [u64; 16],
    md5t: [u32; 64],
}

fn consts() -> &'static Consts {
    use std::sync::OnceLock;
    static C: OnceLock<Consts> = OnceLock::new();
    C.get_or_init(|| {
        let primes: Vec<u64> = (2u64..).filter(|&n| is_prime(n)).take(80).collect();
        let mut c = Consts { k512: [0; 80], sq: [0; 16], md5t: [0; 64] };
        for i in 0..80 {
            c.k512[i] = root_frac(primes[i], true);
        }
        for i in 0..16 {
            c.sq[i] = root_frac(primes[i], false);
        }
        for i in 0..64 {
            c.md5t[i] = (((i + 1) as f64).sin().abs() * 4294967296.0) as u32;
        }
        c
    })
}

#[derive(Clone)]
pub struct Hash {
    alg: Alg,
    h32: [u32; 8],
    h64: [u64; 8],
    buf: Vec<u8>,
    total: u128,
}

impl Hash {
    pub fn new(alg: Alg) -> Hash {
        let c = consts();
        let mut h = Hash { alg, h32: [0; 8], h64: [0; 8], buf: Vec::new(), total: 0 };
        match alg {
            Alg::Md5 => h.h32[..4].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]),
            Alg::Sha1 => h.h32[..5].copy_from_slice(&[0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]),
            Alg::Sha256 => {
                for i in 0..8 {
                    h.h32[i] = (c.sq[i] >> 32) as u32;
                }
            }
            Alg::Sha224 => {
                for i in 0..8 {
                    h.h32[i] = c.sq[i + 8] as u32;
                }
            }
            Alg::Sha512 => h.h64.copy_from_slice(&c.sq[..8]),
            Alg::Sha384 => h.h64.copy_from_slice(&c.sq[8..]),
            Alg::Sha512T(t) => {
                let mut g = Hash::new(Alg::Sha512);
                for x in g.h64.iter_mut() {
                    *x ^= 0xa5a5a5a5a5a5a5a5;
                }
                g.update(format!("SHA-512/{}", t).as_bytes());
                let d = g.finish();
                for i in 0..8 {
                    h.h64[i] = u64::from_be_bytes(d[8 * i..8 * i + 8].try_into().unwrap());
                }
            }
            Alg::Sm3 => h.h32.copy_from_slice(&[0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e]),
        }
        h
    }

    pub fn update(&mut self, data: &[u8]) {
        self.total += data.len() as u128;
        let bs = self.alg.block();
        let mut d = data;
        if !self.buf.is_empty() {
            let n = (bs - self.buf.len()).min(d.len());
            self.buf.extend_from_slice(&d[..n]);
            d = &d[n..];
            if self.buf.len() == bs {
                let b = std::mem::take(&mut self.buf);
                self.compress(&b);
            }
        }
        while d.len() >= bs {
            self.compress(&d[..bs]);
            d = &d[bs..];
        }
        self.buf.extend_from_slice(d);
    }

    pub fn finish(mut self) -> Vec<u8> {
        let bits = self.total * 8;
        let bs = self.alg.block();
        let lf = if bs == 128 { 16 } else { 8 };
        let mut pad = vec![0x80u8];
        while (self.buf.len() + pad.len() + lf) % bs != 0 {
            pad.push(0);
        }
        match (self.alg, lf) {
            (Alg::Md5, _) => pad.extend_from_slice(&(bits as u64).to_le_bytes()),
            (_, 8) => pad.extend_from_slice(&(bits as u64).to_be_bytes()),
            _ => pad.extend_from_slice(&bits.to_be_bytes()),
        }
        self.update(&pad);
        assert!(self.buf.is_empty());
        let mut out = Vec::new();
        if bs == 128 {
            for x in self.h64 {
                out.extend_from_slice(&x.to_be_bytes());
            }
        } else if self.alg == Alg::Md5 {
            for x in &self.h32[..4] {
                out.extend_from_slice(&x.to_le_bytes());
            }
        } else {
            for x in self.h32 {
                out.extend_from_slice(&x.to_be_bytes());
            }
        }
        let t = self.alg.bits();
        out.truncate((t + 7) / 8);
        if t % 8 != 0 {
            if let Some(x) = out.last_mut() {
                *x &= 0xffu8 << (8 - t % 8);
            }
        }
        out
    }

    fn compress(&mut self, b: &[u8]) {
        match self.alg {
            Alg::Md5 => self.md5(b),
            Alg::Sha1 => self.sha1(b),
            Alg::Sha224 | Alg::Sha256 => self.sha256(b),
            Alg::Sm3 => self.sm3(b),
            _ => self.sha512(b),
        }
    }

    fn md5(&mut self, blk: &[u8]) {
        const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
        let t = &consts().md5t;
        let mut x = [0u32; 16];
        for i in 0..16 {
            x[i] = u32::from_le_bytes(blk[4 * i..4 * i + 4].try_into().unwrap());
        }
        let [mut a, mut b, mut c, mut d] = [self.h32[0], self.h32[1], self.h32[2], self.h32[3]];
        for i in 0..64 {
            let (f, g) = match i / 16 {
                0 => ((b & c) | (!b & d), i),
                1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
                2 => (b ^ c ^ d, (3 * i + 5) % 16),
                _ => (c ^ (b | !d), (7 * i) % 16),
            };
            let tmp = a.wrapping_add(f).wrapping_add(t[i]).wrapping_add(x[g]);
            a = d;
            d = c;
            c = b;
            b = b.wrapping_add(tmp.rotate_left(S[i / 16][i % 4]));
        }
        for (h, v) in self.h32.iter_mut().zip([a, b, c, d]) {
            *h = h.wrapping_add(v);
        }
    }

    fn sha1(&mut self, blk: &[u8]) {
        let mut w = [0u32; 80];
        for i in 0..80 {
            w[i] = if i < 16 {
                u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap())
            } else {
                (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1)
            };
        }
        let [mut a, mut b, mut c, mut d, mut e] = [self.h32[0], self.h32[1], self.h32[2], self.h32[3], self.h32[4]];
        for i in 0..80 {
            let (f, k) = match i / 20 {
                0 => ((b & c) ^ (!b & d), 0x5a827999u32),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w[i]);
            e = d;
            d = c;
            c = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (h, v) in self.h32.iter_mut().zip([a, b, c, d, e]) {
            *h = h.wrapping_add(v);
        }
    }

    fn sha256(&mut self, blk: &[u8]) {
        let k = &consts().k512;
        let mut w = [0u32; 64];
        for i in 0..64 {
            w[i] = if i < 16 {
                u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap())
            } else {
                let (p, q) = (w[i - 15], w[i - 2]);
                let s0 = p.rotate_right(7) ^ p.rotate_right(18) ^ (p >> 3);
                let s1 = q.rotate_right(17) ^ q.rotate_right(19) ^ (q >> 10);
                w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1)
            };
        }
        let mut v = self.h32;
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((k[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            self.h32[i] = self.h32[i].wrapping_add(v[i]);
        }
    }

    fn sha512(&mut self, blk: &[u8]) {
        let k = &consts().k512;
        let mut w = [0u64; 80];
        for i in 0..80 {
            w[i] = if i < 16 {
                u64::from_be_bytes(blk[8 * i..8 * i + 8].try_into().unwrap())
            } else {
                let (p, q) = (w[i - 15], w[i - 2]);
                let s0 = p.rotate_right(1) ^ p.rotate_right(8) ^ (p >> 7);
                let s1 = q.rotate_right(19) ^ q.rotate_right(61) ^ (q >> 6);
                w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1)
            };
        }
        let mut v = self.h64;
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let t2 = s0.wrapping_add((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            self.h64[i] = self.h64[i].wrapping_add(v[i]);
        }
    }

    fn sm3(&mut self, blk: &[u8]) {
        let p0 = |x: u32| x ^ x.rotate_left(9) ^ x.rotate_left(17);
        let p1 = |x: u32| x ^ x.rotate_left(15) ^ x.rotate_left(23);
        let mut w = [0u32; 68];
        for i in 0..68 {
            w[i] = if i < 16 {
                u32::from_be_bytes(blk[4 * i..4 * i + 4].try_into().unwrap())
            } else {
                p1(w[i - 16] ^ w[i - 9] ^ w[i - 3].rotate_left(15)) ^ w[i - 13].rotate_left(7) ^ w[i - 6]
            };
        }
        let [mut a, mut b, mut c, mut d, mut e, mut f, mut g, mut h] = self.h32;
        for j in 0..64u32 {
            let t = if j < 16 { 0x79cc4519u32 } else { 0x7a879d8a };
            let ss1 = a.rotate_left(12).wrapping_add(e).wrapping_add(t.rotate_left(j % 32)).rotate_left(7);
            let ss2 = ss1 ^ a.rotate_left(12);
            let (ff, gg) = if j < 16 { (a ^ b ^ c, e ^ f ^ g) } else { ((a & b) | (a & c) | (b & c), (e & f) | (!e & g)) };
            let i = j as usize;
            let tt1 = ff.wrapping_add(d).wrapping_add(ss2).wrapping_add(w[i] ^ w[i + 4]);
            let tt2 = gg.wrapping_add(h).wrapping_add(ss1).wrapping_add(w[i]);
            d = c;
            c = b.rotate_left(9);
            b = a;
            a = tt1;
            h = g;
            g = f.rotate_left(19);
            f = e;
            e = p0(tt2);
        }
        for (x, v) in self.h32.iter_mut().zip([a, b, c, d, e, f, g, h]) {
            *x ^= v;
        }
    }
}

pub fn hash(alg: Alg, msg: &[u8]) -> Vec<u8> {
    let mut h = Hash::new(alg);
    h.update(msg);
    h.finish()
}
