//! Digest and MAC sessions: D01, D02, D03, M01, M02, M03.
//! Nodes are live digest objects, the schedule interleaves their calls, and the reference model keeps
//! the bytes (bits) of each object's current message.

use crate::engine::*;
use crate::refs::block::Block;
use crate::refs::hash::{hash, Alg, Hash};
use crate::refs::keccak::{sha3_bits, to_bits, Sha3};
use crate::refs::{mac, zuc};
use crate::scen::ciph;
use rcrypto::{sha, sha3, Cipher, Digest, DigestXOF, CMAC, HMAC, MD5, SHA, SHA3, SM3};
use rcrypto::{ZUCMac, AES, DES, SM4, TDES};

// ---------------------------------------------------------------- objects under test

pub trait DObj {
    fn d_write(&mut self, d: &[u8]);
    fn d_sum(&mut self, o: &mut Vec<u8>);
    fn d_reset(&mut self);
    fn d_bits(&self) -> usize;
    fn d_block(&self) -> Option<usize>;
    fn d_dup(&self) -> Option<Box<dyn DObj>> {
        None
    }
    fn d_bit(&mut self, _b: u8) -> bool {
        false
    }
    fn d_len(&mut self, _bits: usize) -> bool {
        false
    }
    fn d_key(&mut self, _k: Vec<u8>) -> bool {
        false
    }
}

macro_rules! base {
    () => {
        fn d_write(&mut self, d: &[u8]) {
            Digest::write(self, d)
        }
        fn d_sum(&mut self, o: &mut Vec<u8>) {
            Digest::checksum(self, o)
        }
        fn d_reset(&mut self) {
            Digest::reset(self)
        }
        fn d_bits(&self) -> usize {
            Digest::bits_len(self)
        }
        fn d_block(&self) -> Option<usize> {
            Digest::block_size(self)
        }
    };
}
macro_rules! dup {
    () => {
        fn d_dup(&self) -> Option<Box<dyn DObj>> {
            Some(Box::new(self.clone()))
        }
    };
}
macro_rules! plain {
    ($($t:ty),*) => { $(impl DObj for $t { base!(); dup!(); })* };
}
macro_rules! bitty {
    ($($t:ty),*) => { $(impl DObj for $t { base!(); dup!(); fn d_bit(&mut self, b: u8) -> bool { self.write_bit(b); true } })* };
}
macro_rules! xof {
    ($($t:ty),*) => { $(impl DObj for $t { base!(); dup!(); fn d_len(&mut self, n: usize) -> bool { self.set_digest_len(n); true } })* };
}
plain!(MD5, sha::SHA1, sha::SHA224, sha::SHA256, sha::SHA384, sha::SHA512, sha::SHA512T, sha::SHA512T224, sha::SHA512T256, SM3, SHA, ZUCMac);
bitty!(sha3::SHA224, sha3::SHA256, sha3::SHA384, sha3::SHA512, SHA3);
xof!(sha3::Shake128, sha3::Shake256);

impl<D: Digest + Clone + 'static> DObj for HMAC<D> {
    base!();
    dup!();
    fn d_key(&mut self, k: Vec<u8>) -> bool {
        self.set_key(k);
        true
    }
}
impl<C: Cipher + 'static> DObj for CMAC<C> {
    base!();
}

// kinds
pub const K_SHA512T: usize = 8;
pub const K_SM3: usize = 9;
pub const K_SHA3: usize = 18;
pub const K_SHAKE: usize = 26;
pub const K_HMAC: usize = 30;
pub const K_CMAC: usize = 31;
pub const K_ZMAC: usize = 32;

pub fn kind_name(k: usize) -> &'static str {
    [
        "MD5", "SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "SHA512/224", "SHA512/256", "SHA512/t", "SM3", "SHA::sha1", "SHA::sha224", "SHA::sha256",
        "SHA::sha384", "SHA::sha512", "SHA::sha512_224", "SHA::sha512_256", "SHA::sha512t", "SHA3-224", "SHA3-256", "SHA3-384", "SHA3-512", "SHA3::sha224",
        "SHA3::sha256", "SHA3::sha384", "SHA3::sha512", "SHAKE128", "SHAKE256", "RawSHAKE128", "RawSHAKE256", "HMAC", "CMAC", "ZUCMac",
    ][k]
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: usize,
    pub p: [i64; 3],
    /// current HMAC key, XOF output length
    pub key: Vec<u8>,
    pub out_bits: usize,
}

/// a hash object that may have been used before it is handed over
pub fn used<D: Digest>(mut d: D, seed: i64) -> D {
    if seed == 0 {
        return d;
    }
    let v = payload(seed, 200);
    let n = v[150] as usize % 150;
    match v[151] % 6 {
        0 => d.write(&v[..n]),
        1 => {
            let mut out = vec![];
            d.write(&v[..n]);
            d.checksum(&mut out);
        }
        2 => {
            let mut out = vec![];
            d.write(&v[..n]);
            d.checksum(&mut out);
            d.write(&v[..n / 2]);
        }
        _ => {}
    }
    d
}

/// valid t for SHA-512/t
fn fix_t(t: i64) -> usize {
    let t = t.rem_euclid(511) as usize + 1;
    if t == 384 {
        383
    } else {
        t
    }
}

fn sha3_n(k: usize) -> usize {
    [224, 256, 384, 512][(k - K_SHA3) % 4]
}

fn alg(k: usize, t: i64) -> Alg {
    match k {
        0 => Alg::Md5,
        1 | 10 => Alg::Sha1,
        2 | 11 => Alg::Sha224,
        3 | 12 => Alg::Sha256,
        4 | 13 => Alg::Sha384,
        5 | 14 => Alg::Sha512,
        6 | 15 => Alg::Sha512T(224),
        7 | 16 => Alg::Sha512T(256),
        8 | 17 => Alg::Sha512T(fix_t(t)),
        _ => Alg::Sm3,
    }
}

/// inner hashes of HMAC
pub const HMAC_INNER: [usize; 14] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 18, 19, 20, 21];

fn zmac_params(s: i64) -> ([u8; 16], u32, u8, bool) {
    let v = payload(s, 24);
    let mut k = [0u8; 16];
    k.copy_from_slice(&v[..16]);
    (k, u32::from_be_bytes([v[16], v[17], v[18], v[19]]), v[20] & 31, v[21] & 1 == 1)
}

impl Spec {
    pub fn new(kind: usize, p: [i64; 3]) -> Spec {
        let kind = kind % 33;
        let key = if kind == K_HMAC { payload(p[1], p[2].max(0) as usize) } else { vec![] };
        let out_bits = if (K_SHAKE..K_HMAC).contains(&kind) { p[0].max(0) as usize } else { 0 };
        Spec { kind, p, key, out_bits }
    }
    fn inner(&self) -> usize {
        HMAC_INNER[self.p[0].max(0) as usize % HMAC_INNER.len()]
    }
    pub fn build(&self) -> Box<dyn DObj> {
        let t = fix_t(self.p[0]);
        macro_rules! hm {
            ($e:expr) => {
                Box::new(HMAC::new(self.key.clone(), used($e, self.p[1])).unwrap()) as Box<dyn DObj>
            };
        }
        match self.kind {
            0 => Box::new(MD5::new()),
            1 => Box::new(sha::SHA1::new()),
            2 => Box::new(sha::SHA224::new()),
            3 => Box::new(sha::SHA256::new()),
            4 => Box::new(sha::SHA384::new()),
            5 => Box::new(sha::SHA512::new()),
            6 => Box::new(sha::SHA512T224::new()),
            7 => Box::new(sha::SHA512T256::new()),
            8 => Box::new(sha::SHA512T::new(t).unwrap()),
            9 => Box::new(SM3::new()),
            10 => Box::new(SHA::sha1()),
            11 => Box::new(SHA::sha224()),
            12 => Box::new(SHA::sha256()),
            13 => Box::new(SHA::sha384()),
            14 => Box::new(SHA::sha512()),
            15 => Box::new(SHA::sha512_224()),
            16 => Box::new(SHA::sha512_256()),
            17 => Box::new(SHA::sha512t(t).unwrap()),
            18 => Box::new(sha3::SHA224::new()),
            19 => Box::new(sha3::SHA256::new()),
            20 => Box::new(sha3::SHA384::new()),
            21 => Box::new(sha3::SHA512::new()),
            22 => Box::new(SHA3::sha224()),
            23 => Box::new(SHA3::sha256()),
            24 => Box::new(SHA3::sha384()),
            25 => Box::new(SHA3::sha512()),
            26 => Box::new(sha3::Shake128::new(self.out_bits)),
            27 => Box::new(sha3::Shake256::new(self.out_bits)),
            28 => Box::new(sha3::Shake128::new(self.out_bits).to_raw_shake()),
            29 => Box::new(sha3::Shake256::new(self.out_bits).to_raw_shake()),
            30 => match self.inner() {
                0 => hm!(MD5::new()),
                1 => hm!(sha::SHA1::new()),
                2 => hm!(sha::SHA224::new()),
                3 => hm!(sha::SHA256::new()),
                4 => hm!(sha::SHA384::new()),
                5 => hm!(sha::SHA512::new()),
                6 => hm!(sha::SHA512T224::new()),
                7 => hm!(sha::SHA512T256::new()),
                8 => hm!(sha::SHA512T::new(fix_t(self.p[1])).unwrap()),
                9 => hm!(SM3::new()),
                18 => hm!(sha3::SHA224::new()),
                19 => hm!(sha3::SHA256::new()),
                20 => hm!(sha3::SHA384::new()),
                _ => hm!(sha3::SHA512::new()),
            },
            31 => {
                let k = payload(self.p[1], 64);
                match self.p[0].rem_euclid(9) {
                    0 => Box::new(CMAC::new(AES::new(k[..16].to_vec()).unwrap()).unwrap()),
                    1 => Box::new(CMAC::new(AES::new(k[..24].to_vec()).unwrap()).unwrap()),
                    2 => Box::new(CMAC::new(AES::new(k[..32].to_vec()).unwrap()).unwrap()),
                    3 => Box::new(CMAC::new(DES::new(ciph::a8(&k))).unwrap()),
                    4 => Box::new(CMAC::new(TDES::new(ciph::a8(&k), ciph::a8(&k[8..]), ciph::a8(&k[16..]))).unwrap()),
                    5 | 6 => Box::new(CMAC::new(SM4::new(ciph::a16(&k))).unwrap()),
                    _ => Box::new(CMAC::new(ciph::Toy::new(self.toy_key())).unwrap()),
                }
            }
            _ => {
                let (k, c, b, d) = zmac_params(self.p[0]);
                if self.p[0] & 1 == 1 {
                    Box::new(ZUCMac::from_slice(c, b, d, &k).unwrap())
                } else {
                    Box::new(ZUCMac::new(c, b, d, k))
                }
            }
        }
    }
    fn toy_key(&self) -> Vec<u8> {
        const W: [usize; 16] = [4, 6, 8, 12, 16, 20, 24, 28, 32, 40, 48, 56, 64, 96, 128, 256];
        payload(self.p[1], W[self.p[2].rem_euclid(16) as usize])
    }
    fn cmac_ref(&self) -> Block {
        let k = payload(self.p[1], 64);
        match self.p[0].rem_euclid(9) {
            0 => Block::aes(&k[..16]),
            1 => Block::aes(&k[..24]),
            2 => Block::aes(&k[..32]),
            3 => Block::des(&k[..8]),
            4 => Block::tdes(&k[..8], &k[8..16], &k[16..24]),
            5 | 6 => Block::sm4(&k[..16]),
            _ => Block::toy(&self.toy_key()),
        }
    }
    /// natural chunk size of the algorithm
    pub fn block(&self) -> usize {
        match self.kind {
            0..=17 => alg(self.kind, self.p[0]).block(),
            18..=25 => 200 - sha3_n(self.kind) / 4,
            26 | 28 => 168,
            27 | 29 => 136,
            30 => match self.inner() {
                k @ 0..=9 => alg(k, 0).block(),
                k => 200 - sha3_n(k) / 4,
            },
            31 => {
                use crate::refs::block::BlockRef;
                self.cmac_ref().bs()
            }
            _ => 4,
        }
    }
    /// advertised digest length in bits
    pub fn bits(&self) -> usize {
        match self.kind {
            0..=17 => alg(self.kind, self.p[0]).bits(),
            18..=25 => sha3_n(self.kind),
            26..=29 => self.out_bits,
            30 => match self.inner() {
                k @ 0..=9 => alg(k, self.p[1]).bits(),
                k => sha3_n(k),
            },
            31 => self.block() * 8,
            _ => 32,
        }
    }
    pub fn expect(&self, m: &Msg) -> Vec<u8> {
        match self.kind {
            0..=17 => hash(alg(self.kind, self.p[0]), &m.bytes),
            18..=25 => sha3_bits(Sha3::S(sha3_n(self.kind)), &m.as_bits(), sha3_n(self.kind)),
            26 => sha3_bits(Sha3::Shake(128), &m.as_bits(), self.out_bits),
            27 => sha3_bits(Sha3::Shake(256), &m.as_bits(), self.out_bits),
            28 => sha3_bits(Sha3::RawShake(128), &m.as_bits(), self.out_bits),
            29 => sha3_bits(Sha3::RawShake(256), &m.as_bits(), self.out_bits),
            30 => {
                let inner = self.inner();
                let p1 = self.p[1];
                let h = move |x: &[u8]| -> Vec<u8> {
                    match inner {
                        0..=9 => hash(alg(inner, p1), x),
                        _ => sha3_bits(Sha3::S(sha3_n(inner)), &to_bits(x), sha3_n(inner)),
                    }
                };
                mac::hmac(&h, self.block(), &self.key, &m.bytes)
            }
            31 => mac::cmac(&self.cmac_ref(), &m.bytes),
            _ => {
                let (k, c, b, d) = zmac_params(self.p[0]);
                zuc::eia3(&k, c, b, d, &m.bytes).to_vec()
            }
        }
    }
    fn supports_bits(&self) -> bool {
        (18..=25).contains(&self.kind)
    }
}

/// message content: bytes until the first single bit is written, bits afterwards
#[derive(Clone, Default)]
pub struct Msg {
    bytes: Vec<u8>,
    bits: Vec<u8>,
    bitmode: bool,
}

impl Msg {
    fn add(&mut self, d: &[u8]) {
        if self.bitmode {
            self.bits.extend(to_bits(d));
        } else {
            self.bytes.extend_from_slice(d);
        }
    }
    fn add_bit(&mut self, b: u8) {
        if !self.bitmode {
            self.bits = to_bits(&self.bytes);
            self.bytes.clear();
            self.bitmode = true;
        }
        self.bits.push(b & 1);
    }
    fn as_bits(&self) -> Vec<u8> {
        if self.bitmode {
            self.bits.clone()
        } else {
            to_bits(&self.bytes)
        }
    }
    fn len_bits(&self) -> usize {
        if self.bitmode {
            self.bits.len()
        } else {
            self.bytes.len() * 8
        }
    }
}

struct Live {
    obj: Box<dyn DObj>,
    spec: Spec,
    msg: Msg,
    /// a checksum was taken and nothing written since
    checked: bool,
    /// an empty write came directly after the checksum: old digest or digest of the empty message
    ambiguous: bool,
    last: Option<Vec<u8>>,
    writes: i64,
}

// ---------------------------------------------------------------- scenario

pub struct Dig {
    pub id: &'static str,
    pub kinds: &'static [usize],
    /// objects are reused after checksum, reset, cloned
    pub reuse: bool,
    pub bits: bool,
    pub haul: bool,
    pub runs: (u64, u64),
}

pub const D01: Dig = Dig { id: "D01", kinds: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17], reuse: false, bits: false, haul: true, runs: (60000, 600000) };
pub const D02: Dig = Dig { id: "D02", kinds: &[18, 19, 20, 21, 22, 23, 24, 25, 26, 26, 27, 27, 28, 29], reuse: true, bits: true, haul: false, runs: (10000, 100000) };
pub const D03: Dig = Dig {
    id: "D03",
    kinds: &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 30, 30, 30, 31, 31, 31, 32, 32],
    reuse: true,
    bits: true,
    haul: false,
    runs: (32000, 300000),
};
pub const M01: Dig = Dig { id: "M01", kinds: &[30], reuse: true, bits: false, haul: false, runs: (32000, 300000) };
pub const M02: Dig = Dig { id: "M02", kinds: &[31], reuse: true, bits: false, haul: false, runs: (60000, 600000) };
pub const M03: Dig = Dig { id: "M03", kinds: &[32], reuse: true, bits: false, haul: false, runs: (60000, 600000) };

fn out_len(r: &mut Rng, rate_bytes: i64) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => 8 * r.range(0, 3),
        2 => r.range(1, 64),
        3 => 8 * rate_bytes + r.range(-9, 9),
        4 => 8 * rate_bytes,
        5 => 8 * rate_bytes * 2 + r.range(-1, 1),
        6 => 8 * r.range(1, 64),
        _ => r.range(1, 3000),
    }
}

fn gen_spec(kinds: &[usize], r: &mut Rng) -> (usize, [i64; 3]) {
    let k = *r.pick(kinds);
    let p = match k {
        8 | 17 => [if r.chance(1, 3) { 8 * r.range(1, 63) - 1 } else { r.range(0, 510) }, 0, 0],
        26..=29 => [out_len(r, if k % 2 == 0 { 168 } else { 136 }), 0, 0],
        30 => {
            let inner = r.range(0, HMAC_INNER.len() as i64 - 1);
            let b = Spec::new(30, [inner, 0, 0]).block() as i64;
            [inner, r.data_seed(), key_len(r, b)]
        }
        31 => [r.range(0, 8), r.data_seed(), r.range(0, 15)],
        32 => [r.data_seed(), 0, 0],
        _ => [0, 0, 0],
    };
    (k, p)
}

fn key_len(r: &mut Rng, b: i64) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => b,
        2 => b + 1,
        3 => b - 1,
        4 => r.range(1, b),
        5 => b + r.range(1, 2 * b),
        6 => 2 * b + if r.chance(1, 3) { r.range(1, 30 * b) } else { 0 },
        _ => r.range(1, 40),
    }
}

impl Dig {
    /// few objects, large writes and many messages per object
    fn gen_large(&self, r: &mut Rng) -> Plan {
        let mut p = Plan::default();
        let n = r.range(1, 2);
        let mut small = false;
        // hundreds of blocks through the sponge
        let huge = r.chance(1, 20);
        for s in 0..n {
            let (k, mut a) = gen_spec(self.kinds, r);
            if (26..30).contains(&k) && r.chance(1, 2) {
                a[0] = r.range(3000, 12000);
                if huge {
                    a[0] = r.range(270_000, 350_000);
                }
            }
            small |= (18..30).contains(&k) || (k == K_HMAC && HMAC_INNER[a[0] as usize % HMAC_INNER.len()] >= 18);
            p.push("new", &[s, k as i64, a[0], a[1], a[2]]);
        }
        let top = if small && !huge { 12 } else if small { 15 } else { *r.pick(&[13, 14, 17]) };
        // either a few large messages or a long life with small ones
        let life = r.chance(1, 3) && !huge;
        for _ in 0..if life { r.range(60, 250) } else { r.range(2, 8) } {
            let s = r.range(0, n - 1);
            let len = if life { r.range(0, 9) } else { (1 << r.range(8, top)) + *r.pick(&[-1, 0, 0, 1, 7, 64]) };
            p.push("w", &[s, r.data_seed(), len]);
            if r.chance(1, 3) {
                p.push("w", &[s, r.data_seed(), r.range(0, 70)]);
            }
            if r.chance(1, 2) {
                p.push("sum", &[s, r.range(0, 80)]);
                if !self.reuse {
                    break;
                }
            } else if self.reuse && r.chance(1, 6) {
                p.push("reset", &[s]);
            }
        }
        for s in 0..n {
            p.push("sum", &[s, 3]);
        }
        p
    }
    fn gen_mixed(&self, r: &mut Rng, faulty: bool, tier: Tier) -> Plan {
        let mut p = Plan::default();
        let cap = if r.chance(1, 3) { 6 } else { 3 };
        let n = r.range(1, cap);
        let slow = self.kinds[0] >= 18 && self.kinds[0] < 30;
        let mut specs: Vec<Spec> = Vec::new();
        // a cohort of objects of one kind shows cross-talk best; sometimes mix kinds
        let common = if r.chance(1, 2) { Some(gen_spec(self.kinds, r)) } else { None };
        for s in 0..n {
            let (k, a) = common.unwrap_or_else(|| gen_spec(self.kinds, r));
            specs.push(Spec::new(k, a));
            p.push("new", &[s, k as i64, a[0], a[1], a[2]]);
        }
        let steps = r.range(2, if tier == Tier::Thorough { 60 } else { 36 });
        // swarm: each run weighs operations differently
        let wt: Vec<u64> = vec![
            r.range(3, 10) as u64,                                          // write
            r.range(1, 4) as u64,                                           // sum
            if self.reuse && faulty { r.range(0, 3) as u64 } else { 0 },    // reset
            if self.reuse && faulty { r.range(0, 2) as u64 } else { 0 },    // clone
            if faulty { r.range(0, 2) as u64 } else { 0 },                  // abandon: replace the object
            if faulty { r.range(0, 3) as u64 } else { 0 },                  // empty write
            if self.bits { r.range(0, 5) as u64 } else { 0 },               // bits
            if self.reuse { r.range(0, 2) as u64 } else { 0 },              // xof length / key
        ];
        let total: u64 = wt.iter().sum();
        let max_blocks = *r.pick(&[1, 2, 3, 3, 5, 9]);
        let fine = r.chance(1, 4);
        for _ in 0..steps {
            let s = r.range(0, n - 1);
            let sp = &specs[s as usize];
            let b = sp.block() as i64;
            let mut x = r.below(total);
            let mut op = 0;
            for (i, w) in wt.iter().enumerate() {
                if x < *w {
                    op = i;
                    break;
                }
                x -= w;
            }
            match op {
                0 => {
                    let len = if fine { r.range(0, 9) } else { biased_len(r, b, if slow { max_blocks.min(3) } else { max_blocks }) };
                    p.push("w", &[s, r.data_seed(), len])
                }
                1 => {
                    p.push("sum", &[s, if faulty { r.range(0, 80) } else { 0 }]);
                    if faulty && self.reuse && r.chance(1, 4) {
                        p.push("sum", &[s, r.range(0, 80)]);
                    }
                }
                2 => p.push("reset", &[s]),
                3 => {
                    let d = r.range(0, n - 1);
                    p.push("clone", &[s, d]);
                    if !matches!(sp.kind, K_CMAC) {
                        specs[d as usize] = specs[s as usize].clone();
                    }
                }
                4 => {
                    let (k, a) = gen_spec(self.kinds, r);
                    specs[s as usize] = Spec::new(k, a);
                    p.push("new", &[s, k as i64, a[0], a[1], a[2]]);
                }
                5 => p.push("w", &[s, 0, 0]),
                6 => p.push("bit", &[s, r.data_seed(), r.range(1, 9)]),
                _ => {
                    if (26..30).contains(&sp.kind) {
                        let l = out_len(r, b);
                        p.push("len", &[s, l]);
                    } else if sp.kind == K_HMAC {
                        p.push("key", &[s, r.data_seed(), key_len(r, b)]);
                    } else {
                        p.push("w", &[s, r.data_seed(), r.range(0, 2 * b)]);
                    }
                }
            }
        }
        for s in 0..n {
            p.push("sum", &[s, 3]);
        }
        p
    }
    /// one message swept by a single object in many small writes around the block boundary
    fn gen_boundary(&self, r: &mut Rng) -> Plan {
        let mut p = Plan::default();
        let (k, a) = gen_spec(self.kinds, r);
        let sp = Spec::new(k, a);
        let b = sp.block() as i64;
        p.push("new", &[0, k as i64, a[0], a[1], a[2]]);
        let rounds = r.range(1, 3);
        for _ in 0..rounds {
            let target = b * r.range(0, 3) + *r.pick(&[-17, -16, -9, -8, -1, 0, 0, 1, 2, 8]);
            let mut left = target.max(0);
            while left > 0 {
                let c = match r.below(4) {
                    0 => 1,
                    1 => left,
                    2 => b.min(left),
                    _ => r.range(1, left),
                };
                p.push("w", &[0, r.data_seed(), c]);
                left -= c;
            }
            p.push("sum", &[0, r.range(0, 9)]);
            if !self.reuse {
                p.push("new", &[0, k as i64, a[0], a[1], a[2]]);
            } else if r.chance(1, 2) {
                p.push("reset", &[0]);
            }
        }
        p.push("sum", &[0, 0]);
        p
    }
    fn run_haul(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        // very long message: reference and object fed the same pseudo-random megabyte blocks
        let spec = Spec::new(plan.getu("kind"), [plan.get("t"), 0, 0]);
        let mut obj = spec.build();
        let mut rf = Hash::new(alg(spec.kind, spec.p[0]));
        let chunk = payload(plan.get("seed") * 16 + 15, 1 << 20);
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let mut left = st.i(0).max(0) as u64;
            cx.sched(0, "haul");
            while left > 0 {
                let n = left.min(chunk.len() as u64) as usize;
                cx.lib("write", || obj.d_write(&chunk[..n]))?;
                rf.update(&chunk[..n]);
                left -= n as u64;
            }
        }
        let mut out = vec![7; 5];
        cx.lib("checksum", || obj.d_sum(&mut out))?;
        cx.event("digest", &out);
        cx.probe("message_over_2^29_bytes");
        cx.state(&[9000, spec.kind as i64]);
        let want = rf.finish();
        cx.same(&out, &want, "digest", || format!("{} of a very long message", kind_name(spec.kind)))
    }
}

impl Scenario for Dig {
    fn id(&self) -> &'static str {
        self.id
    }
    fn kinds(&self) -> Vec<RunKind> {
        let (q, t) = self.runs;
        let mut v = vec![
            RunKind { name: "fault-free", quick: q / 4, thorough: t / 4 },
            RunKind { name: "faulty", quick: q / 2, thorough: t / 2 },
            RunKind { name: "boundary", quick: q / 4, thorough: t / 4 },
            RunKind { name: "large", quick: 400, thorough: 6000 },
        ];
        if self.haul {
            v.push(RunKind { name: "long-haul", quick: 5, thorough: 20 });
        }
        v
    }
    fn gen(&self, kind: usize, r: &mut Rng, tier: Tier) -> Plan {
        match kind {
            0 => self.gen_mixed(r, false, tier),
            1 => self.gen_mixed(r, true, tier),
            2 => self.gen_boundary(r),
            3 => self.gen_large(r),
            _ => {
                let mut p = Plan::default();
                p.set("haul", 1);
                // filled in by index in `gen_indexed`
                p.set("seed", r.data_seed());
                p.push("haul", &[(1 << 29) - r.range(1, 200)]);
                p.push("haul", &[r.range(0, 400)]);
                p.push("haul", &[r.range(0, 100)]);
                p
            }
        }
    }
    fn gen_indexed(&self, kind: usize, idx: u64, r: &mut Rng, tier: Tier) -> Plan {
        let mut p = self.gen(kind, r, tier);
        if kind == 4 {
            p.set("kind", [0i64, 1, 3, 5, 9][(idx % 5) as usize]);
            if idx >= 5 {
                // thorough: beyond 2^32 bits and 2^32 bytes
                p.push("haul", &[[1i64 << 29, 7 << 29, 3 << 29][(idx / 5 % 3) as usize]]);
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        if plan.get("haul") == 1 {
            return self.run_haul(plan, cx);
        }
        let mut live: Vec<Option<Live>> = Vec::new();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0).min(15);
            while live.len() <= s {
                live.push(None);
            }
            if st.op == "new" {
                let spec = Spec::new(st.u(1), [st.i(2), st.i(3), st.i(4)]);
                if !self.kinds.contains(&spec.kind) || spec.key.len() > 4096 || spec.out_bits > 400_000 {
                    continue;
                }
                if live[s].as_ref().map(|l| !l.checked && l.writes > 0).unwrap_or(false) {
                    cx.fault("session_abandoned");
                }
                cx.sched(s, "new");
                let sp = spec.clone();
                let obj = cx.lib("construct", || sp.build())?;
                let (bits, want) = (obj.d_bits(), spec.bits());
                cx.require(bits == want, "advertised-length", || format!("{} advertises {} bits, standard says {}", kind_name(spec.kind), bits, want))?;
                live[s] = Some(Live { obj, spec, msg: Msg::default(), checked: false, ambiguous: false, last: None, writes: 0 });
                continue;
            }
            if live[s].is_none() {
                continue;
            }
            let name = kind_name(live[s].as_ref().unwrap().spec.kind);
            match st.op.as_ref() {
                "w" => {
                    let l = live[s].as_mut().unwrap();
                    if l.checked && !self.reuse {
                        continue;
                    }
                    let d = payload(st.i(1), st.u(2).min(1 << 20));
                    cx.sched(s, "w");
                    if d.is_empty() {
                        cx.fault("empty_write");
                        if l.checked {
                            l.ambiguous = true;
                        }
                    } else if l.checked {
                        cx.probe("new_message_after_checksum");
                        l.msg = Msg::default();
                        l.checked = false;
                        l.ambiguous = false;
                        l.last = None;
                    }
                    l.msg.add(&d);
                    l.writes += 1;
                    let o = &mut l.obj;
                    cx.lib("write", || o.d_write(&d))?;
                    cx.event("w", &d);
                    let b = l.spec.block() * 8;
                    cx.state(&[l.spec.kind as i64, (l.msg.len_bits() % b) as i64, (l.msg.len_bits() / b).min(3) as i64, 0]);
                }
                "bit" => {
                    let l = live[s].as_mut().unwrap();
                    if !l.spec.supports_bits() || (l.checked && !self.reuse) {
                        continue;
                    }
                    let d = payload(st.i(1), st.u(2).min(64));
                    if d.is_empty() {
                        continue;
                    }
                    cx.sched(s, "bit");
                    if l.checked {
                        cx.probe("new_message_after_checksum");
                        l.msg = Msg::default();
                        l.checked = false;
                        l.ambiguous = false;
                        l.last = None;
                    }
                    for &x in &d {
                        l.msg.add_bit(x);
                        let o = &mut l.obj;
                        cx.lib("write_bit", || o.d_bit(x))?;
                    }
                    l.writes += 1;
                    cx.event("bit", &d);
                    cx.probe("single_bit_writes");
                    let b = l.spec.block() * 8;
                    cx.state(&[l.spec.kind as i64, (l.msg.len_bits() % b) as i64, (l.msg.len_bits() / b).min(3) as i64, 0]);
                }
                "sum" => {
                    let l = live[s].as_mut().unwrap();
                    if l.checked && !self.reuse {
                        continue;
                    }
                    cx.sched(s, "sum");
                    let mut out = payload(st.i(1) * 16 + 15, st.u(1).min(300));
                    if !out.is_empty() {
                        cx.fault("dirty_output_buffer");
                    }
                    let o = &mut l.obj;
                    cx.lib("checksum", || o.d_sum(&mut out))?;
                    cx.event("digest", &out);
                    let want = l.spec.expect(&l.msg);
                    let again = l.checked;
                    if again {
                        cx.fault("checksum_repeated");
                        if l.ambiguous {
                            let empty = l.spec.expect(&Msg::default());
                            if out == empty && out != want {
                                l.msg = Msg::default();
                            }
                            l.ambiguous = false;
                        }
                    }
                    let want = if again { l.spec.expect(&l.msg) } else { want };
                    let nb = l.msg.len_bits();
                    let w = l.writes;
                    cx.same(&out, &want, if again { "repeated-checksum" } else { "digest" }, || format!("{} of {} bits after {} writes", name, nb, w))?;
                    let b = l.spec.block() * 8;
                    if nb > 0 && nb % b == 0 {
                        cx.probe("message_ends_on_block_boundary");
                    }
                    if nb == 0 {
                        cx.probe("empty_message");
                    }
                    l.checked = true;
                    l.last = Some(out);
                    cx.state(&[l.spec.kind as i64, (nb % b) as i64, (nb / b).min(3) as i64, 1 + again as i64]);
                }
                "reset" => {
                    if !self.reuse {
                        continue;
                    }
                    let l = live[s].as_mut().unwrap();
                    cx.sched(s, "reset");
                    if l.msg.len_bits() > 0 && !l.checked {
                        cx.fault("reset_mid_message");
                    }
                    let o = &mut l.obj;
                    cx.lib("reset", || o.d_reset())?;
                    l.msg = Msg::default();
                    l.checked = false;
                    l.ambiguous = false;
                    l.last = None;
                    cx.state(&[l.spec.kind as i64, 0, 0, 4]);
                }
                "clone" => {
                    let d = st.u(1).min(15);
                    if !self.reuse || d == s {
                        continue;
                    }
                    while live.len() <= d {
                        live.push(None);
                    }
                    let l = live[s].as_ref().unwrap();
                    let o = &l.obj;
                    if let Some(obj) = cx.lib("clone", || o.d_dup())? {
                        cx.sched(s, "clone");
                        cx.fault("forked_mid_message");
                        let nl = Live { obj, spec: l.spec.clone(), msg: l.msg.clone(), checked: l.checked, ambiguous: l.ambiguous, last: l.last.clone(), writes: l.writes };
                        cx.state(&[l.spec.kind as i64, (l.msg.len_bits() % 1024) as i64, 0, 5 + l.checked as i64]);
                        live[d] = Some(nl);
                    }
                }
                "len" => {
                    let l = live[s].as_mut().unwrap();
                    let n = st.u(1).min(20000);
                    let o = &mut l.obj;
                    if cx.lib("set_digest_len", || o.d_len(n))? {
                        cx.sched(s, "len");
                        cx.probe("output_length_changed");
                        l.spec.out_bits = n;
                        l.spec.p[0] = n as i64;
                        l.msg = Msg::default();
                        l.checked = false;
                        l.ambiguous = false;
                        l.last = None;
                        let bits = l.obj.d_bits();
                        cx.require(bits == n, "advertised-length", || format!("{} advertises {} bits after being set to {}", name, bits, n))?;
                    }
                }
                "key" => {
                    let l = live[s].as_mut().unwrap();
                    let k = payload(st.i(1), st.u(2).min(4096));
                    let o = &mut l.obj;
                    let k2 = k.clone();
                    if cx.lib("set_key", || o.d_key(k2))? {
                        cx.sched(s, "key");
                        if l.msg.len_bits() > 0 && !l.checked {
                            cx.fault("rekey_mid_message");
                        }
                        cx.probe("key_changed");
                        l.spec.key = k;
                        l.msg = Msg::default();
                        l.checked = false;
                        l.ambiguous = false;
                        l.last = None;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = comparisons of a returned digest (or advertised length) with the reference model; a state is (algorithm, message length modulo block in bits, full blocks up to 3, phase: writing / checksummed / checksummed again / reset / cloned)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto digest, XOF, HMAC, CMAC and ZUC-MAC objects", "rcrypto block ciphers under CMAC"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller sessions (schedule, chunking, dropped objects)", "toy block ciphers of unusual block sizes under CMAC only"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &[
            "an empty write directly after a checksum may either keep the digest or start the empty message",
            "messages written between checksums stay below 2^61 bytes; long-haul runs go past 2^29 bytes (32-bit bit counts)",
        ]
    }
}
