//! Helpers shared by the public-key scenarios: hashes, RSA key pool, channel faults.

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::hash::{hash, Alg};
use crate::refs::keccak;
use crate::seams::{SimRng, RNG_FAULTS};
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::BigInt;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub const NHASH: usize = 9;
/// the hashes with a PKCS#1 v1.5 DigestInfo in the library come first
pub const NHASH_PKCS1: usize = 6;
pub const HASH_NAMES: [&str; NHASH] = ["md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sm3", "sha3-256", "sha512/256"];
pub const HASH_LEN: [usize; NHASH] = [16, 20, 28, 32, 48, 64, 32, 32, 32];

pub fn ref_hash(i: usize, m: &[u8]) -> Vec<u8> {
    match i {
        0 => hash(Alg::Md5, m),
        1 => hash(Alg::Sha1, m),
        2 => hash(Alg::Sha224, m),
        3 => hash(Alg::Sha256, m),
        4 => hash(Alg::Sha384, m),
        5 => hash(Alg::Sha512, m),
        6 => hash(Alg::Sm3, m),
        7 => keccak::sha3(256, m),
        _ => hash(Alg::Sha512T(256), m),
    }
}

/// evaluate `$body` with `$h` bound to a fresh digest object of hash number `$i`
#[macro_export]
macro_rules! with_hash {
    ($i:expr, $h:ident, $body:expr) => {
        match $i {
            0 => { let $h = rcrypto::MD5::new(); $body }
            1 => { let $h = rcrypto::sha::SHA1::new(); $body }
            2 => { let $h = rcrypto::sha::SHA224::new(); $body }
            3 => { let $h = rcrypto::sha::SHA256::new(); $body }
            4 => { let $h = rcrypto::sha::SHA384::new(); $body }
            5 => { let $h = rcrypto::sha::SHA512::new(); $body }
            6 => { let $h = rcrypto::SM3::new(); $body }
            7 => { let $h = rcrypto::sha3::SHA256::new(); $body }
            _ => { let $h = rcrypto::sha::SHA512T256::new(); $body }
        }
    };
}

pub fn to_big(b: &Bn) -> BigInt {
    let v = b.to_be();
    BigInt::from_be_bytes(if v.is_empty() { &[0] } else { &v })
}

pub fn from_big(b: &BigInt) -> Option<Bn> {
    if b.is_nan() || b.signnum() == Some(-1) {
        return None;
    }
    Some(Bn::from_be(&b.to_be_bytes()))
}

/// hexadecimal fields of a key's display, by field name
pub fn display_field(text: &str, name: &str) -> Option<Bn> {
    for sep in [": \"0x", "=\"0x", ":\"0x"] {
        let pat = format!("{}{}", name, sep);
        let mut from = 0;
        while let Some(i) = text[from..].find(&pat) {
            let at = from + i;
            let before = text[..at].chars().last();
            if before.map(|c| !c.is_alphanumeric()).unwrap_or(true) {
                let rest = &text[at + pat.len()..];
                let end = rest.find('"')?;
                return Bn::from_hex(&rest[..end]);
            }
            from = at + 1;
        }
    }
    None
}

// ---------------------------------------------------------------- RSA keys

pub struct Key {
    pub sk: PrivateKey,
    pub n: Bn,
    pub e: Bn,
    pub d: Bn,
    /// modulus length in bytes
    pub k: usize,
}

impl Key {
    pub fn read(sk: PrivateKey) -> Option<Key> {
        let t = format!("{}", sk);
        let (n, e, d) = (display_field(&t, "n")?, display_field(&t, "e")?, display_field(&t, "d")?);
        let k = (n.bits() + 7) / 8;
        Some(Key { sk, n, e, d, k })
    }
    pub fn public(&self) -> Option<PublicKey> {
        PublicKey::from_be_bytes(&self.n.to_be(), &self.e.to_be()).ok()
    }
    /// c^d mod n
    pub fn private_op(&self, c: &Bn) -> Bn {
        c.powmod(&self.d, &self.n)
    }
    pub fn public_op(&self, m: &Bn) -> Bn {
        m.powmod(&self.e, &self.n)
    }
}

thread_local! {
    static POOL: RefCell<HashMap<(usize, usize, i64), Rc<Key>>> = RefCell::new(HashMap::new());
}

/// key of the pool; made once per thread by the library's own key generation from a healthy source
pub fn rsa_key(cx: &mut Ctx, bits: usize, primes: usize, seed: i64) -> Result<Rc<Key>, Violation> {
    let id = (bits, primes, seed);
    if let Some(k) = POOL.with(|p| p.borrow().get(&id).cloned()) {
        return Ok(k);
    }
    let mut rng = SimRng::new(0x4b45_5900 ^ ((bits as u64) << 20) ^ ((primes as u64) << 16) ^ seed as u64);
    rng.budget(2_000_000);
    let k = match guarded(|| PrivateKey::generate_multi_prime_key(primes, bits, 8, &mut rng)) {
        Ok(Ok(k)) => k,
        Ok(Err(_)) => return cx.fail("keygen", format!("key generation of {} bits with {} primes failed with a healthy random source", bits, primes)),
        Err(p) => return cx.fail("keygen", format!("key generation of {} bits with {} primes: {} at {}", bits, primes, p.msg, p.loc)),
    };
    let k = match Key::read(k) {
        Some(k) => Rc::new(k),
        None => return cx.fail("keygen", "unreadable key"),
    };
    POOL.with(|p| p.borrow_mut().insert(id, k.clone()));
    Ok(k)
}

// ---------------------------------------------------------------- faults

/// arm the shared random source: [kind, skip, len]
pub fn arm(rng: &SimRng, kind: usize, skip: usize, len: usize) {
    rng.arm(kind % (RNG_FAULTS.len() - 1), skip as u64, len as u64);
}

pub const DAMAGE: [&str; 18] = [
    "wire_bit_flipped", "wire_truncated", "wire_head_lost", "wire_extended", "wire_zero_prefixed", "wire_lost_entirely", "wire_zeroed", "wire_all_ones",
    "wire_plus_modulus", "wire_equals_modulus", "wire_modulus_minus_one", "wire_negated", "wire_bytes_swapped", "wire_leading_zeros_stripped",
    "wire_replaced_by_noise", "wire_small_integer", "wire_zero_appended", "wire_duplicated",
];

/// what a faulty channel makes of `w`; `n` is the modulus the receiver will use, `k` its length
pub fn damage(kind: usize, arg: usize, w: &[u8], n: &Bn, k: usize) -> Vec<u8> {
    let mut v = w.to_vec();
    let len = v.len();
    let sized = |b: Bn| b.to_be_len(k).unwrap_or_else(|| b.to_be());
    match kind {
        0 => {
            if len > 0 {
                let b = arg % (len * 8);
                v[b / 8] ^= 1 << (b % 8);
            }
        }
        1 => v.truncate(len - (1 + arg % len.max(1)).min(len)),
        2 => v = v.into_iter().skip(1 + arg % 3).collect(),
        3 => v.extend(payload(arg as i64, 1 + arg % 5)),
        4 => {
            v = vec![0; 1 + arg % 4];
            v.extend_from_slice(w);
        }
        5 => v.clear(),
        6 => v = vec![0; len],
        7 => v = vec![0xff; len],
        8 => v = sized(Bn::from_be(w).add(n)),
        9 => v = sized(n.clone()),
        10 => v = sized(n.sub(&Bn::one())),
        11 => v = sized(n.sub(&Bn::from_be(w).rem(n))),
        12 => {
            if len > 1 {
                v.swap(arg % len, (arg / 7) % len);
            }
        }
        13 => {
            let z = v.iter().take_while(|&&b| b == 0).count();
            v = v[z..].to_vec();
        }
        14 => v = payload(arg as i64 * 16 + 15, len),
        15 => v = sized(Bn::from_u64(arg as u64 % 5)),
        16 => v.push(0),
        _ => v.extend_from_slice(w),
    }
    v
}

// ---------------------------------------------------------------- spread of random values

/// which bits of the values seen so far have been 0 and which have been 1
#[derive(Default)]
pub struct Spread {
    seen: std::collections::BTreeMap<(String, usize), (Vec<u8>, Vec<u8>, u64)>,
}

impl Spread {
    /// values needed before a constant bit counts; chance alone gives 2^-47 per bit
    pub const ENOUGH: u64 = 48;
    pub fn add(&mut self, what: &str, v: &[u8]) {
        let e = self.seen.entry((what.to_string(), v.len())).or_insert_with(|| (vec![0xff; v.len()], vec![0; v.len()], 0));
        for (i, b) in v.iter().enumerate() {
            e.0[i] &= b;
            e.1[i] |= b;
        }
        e.2 += 1;
    }
    /// every one of the low `bits` bits (all if larger) took both values
    pub fn check(&self, cx: &mut Ctx, bits: usize) -> Check {
        for ((what, len), (and, or, n)) in &self.seen {
            if *n < Self::ENOUGH {
                continue;
            }
            cx.probe("spread_judged");
            for i in 0..(8 * len).min(bits) {
                let (at, m) = (len - 1 - i / 8, 1u8 << (i % 8));
                cx.require(and[at] & m == 0 && or[at] & m != 0, "constant-bit", || {
                    format!("bit {} of the {}-byte {} is the same in all of {} values from a healthy source", i, len, what, n)
                })?;
            }
        }
        Ok(())
    }
}
