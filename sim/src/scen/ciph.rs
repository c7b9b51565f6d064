//! Block ciphers as seen by the scenarios: the real rcrypto objects and their reference counterparts.

use crate::engine::payload;
use crate::refs::block::{toy_dec, toy_enc, Block};
use rcrypto::{Cipher, CryptoError, CryptoErrorKind, AES, DES, SM4, TDES};

pub fn a8(k: &[u8]) -> [u8; 8] {
    let mut a = [0u8; 8];
    a.copy_from_slice(&k[..8]);
    a
}
pub fn a16(k: &[u8]) -> [u8; 16] {
    let mut a = [0u8; 16];
    a.copy_from_slice(&k[..16]);
    a
}

/// stand-in cipher with an arbitrary block size, behaving like the library's ciphers at the interface
#[derive(Clone)]
pub struct Toy {
    key: Vec<u8>,
}

impl Toy {
    pub fn new(key: Vec<u8>) -> Toy {
        assert!(!key.is_empty());
        Toy { key }
    }
    fn check(&self, b: &[u8]) -> Result<(), CryptoError> {
        if b.len() != self.key.len() {
            Err(CryptoError::new(CryptoErrorKind::InvalidParameter, "wrong block length"))
        } else {
            Ok(())
        }
    }
}

impl Cipher for Toy {
    type Output = usize;
    fn block_size(&self) -> Option<usize> {
        Some(self.key.len())
    }
    fn encrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        self.check(b)?;
        dst.clear();
        dst.extend(toy_enc(&self.key, b));
        Ok(b.len())
    }
    fn decrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        self.check(b)?;
        dst.clear();
        dst.extend(toy_dec(&self.key, b));
        Ok(b.len())
    }
}

/// any cipher behind one type
#[derive(Clone)]
pub enum Any {
    Aes(AES),
    Des(DES),
    Tdes(TDES),
    Sm4(SM4),
    Toy(Toy),
}

pub const CIPHERS: usize = 7;

pub fn cipher_name(k: usize) -> &'static str {
    ["AES-128", "AES-192", "AES-256", "DES", "TDES", "SM4", "toy"][k % CIPHERS]
}

pub fn toy_len(w: i64) -> usize {
    [1usize, 2, 3, 4, 5, 8, 12, 24, 32][w.rem_euclid(9) as usize]
}

/// the real cipher `kind` keyed from `seed`; `w` selects the block size of the toy
pub fn make(kind: usize, seed: i64, w: i64) -> Any {
    let k = payload(seed, 64);
    match kind % CIPHERS {
        0 => Any::Aes(AES::new(k[..16].to_vec()).unwrap()),
        1 => Any::Aes(AES::new(k[..24].to_vec()).unwrap()),
        2 => Any::Aes(AES::new(k[..32].to_vec()).unwrap()),
        3 => Any::Des(DES::new(a8(&k))),
        4 => Any::Tdes(TDES::new(a8(&k), a8(&k[8..]), a8(&k[16..]))),
        5 => Any::Sm4(SM4::new(a16(&k))),
        _ => Any::Toy(Toy::new(k[..toy_len(w)].to_vec())),
    }
}

pub fn make_ref(kind: usize, seed: i64, w: i64) -> Block {
    let k = payload(seed, 64);
    match kind % CIPHERS {
        0 => Block::aes(&k[..16]),
        1 => Block::aes(&k[..24]),
        2 => Block::aes(&k[..32]),
        3 => Block::des(&k[..8]),
        4 => Block::tdes(&k[..8], &k[8..16], &k[16..24]),
        5 => Block::sm4(&k[..16]),
        _ => Block::toy(&k[..toy_len(w)]),
    }
}

pub fn block_len(kind: usize, w: i64) -> usize {
    match kind % CIPHERS {
        3 | 4 => 8,
        6 => toy_len(w),
        _ => 16,
    }
}

impl Cipher for Any {
    type Output = usize;
    fn block_size(&self) -> Option<usize> {
        match self {
            Any::Aes(c) => c.block_size(),
            Any::Des(c) => c.block_size(),
            Any::Tdes(c) => c.block_size(),
            Any::Sm4(c) => c.block_size(),
            Any::Toy(c) => c.block_size(),
        }
    }
    fn encrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        match self {
            Any::Aes(c) => c.encrypt(dst, b),
            Any::Des(c) => c.encrypt(dst, b),
            Any::Tdes(c) => c.encrypt(dst, b),
            Any::Sm4(c) => c.encrypt(dst, b),
            Any::Toy(c) => c.encrypt(dst, b),
        }
    }
    fn decrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<usize, CryptoError> {
        match self {
            Any::Aes(c) => c.decrypt(dst, b),
            Any::Des(c) => c.decrypt(dst, b),
            Any::Tdes(c) => c.decrypt(dst, b),
            Any::Sm4(c) => c.decrypt(dst, b),
            Any::Toy(c) => c.decrypt(dst, b),
        }
    }
}
