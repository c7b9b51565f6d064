//! Mode-of-operation objects behind uniform interfaces, and the model of what each must produce.

use crate::engine::payload;
use crate::refs::block::{Block, BlockRef};
use crate::refs::modes as rm;
use crate::scen::ciph::{self, Any};
use crate::seams::{CipherTap, SimCounter, SimIv, SimRng, Tapped};
use rcrypto::cipher_mode::*;
use rcrypto::{Cipher, CryptoError};
use std::rc::Rc;

pub type C = Tapped<Any>;

pub const ECB_: usize = 0;
pub const CBC_: usize = 1;
pub const CFB_: usize = 2;
pub const OFB_: usize = 3;
pub const CTR_: usize = 4;
pub const MODES: [&str; 5] = ["ECB", "CBC", "CFB", "OFB", "CTR"];

#[derive(Clone)]
pub enum Pad {
    OneZero(DefaultPadding<C>),
    None(EmptyPadding),
}

impl Padding for Pad {
    fn padding(&self, buf: &mut Vec<u8>) {
        match self {
            Pad::OneZero(p) => p.padding(buf),
            Pad::None(p) => p.padding(buf),
        }
    }
    fn unpadding(&self, buf: &mut Vec<u8>) -> Result<usize, CryptoError> {
        match self {
            Pad::OneZero(p) => p.unpadding(buf),
            Pad::None(p) => p.unpadding(buf),
        }
    }
}

#[derive(Clone)]
pub enum Iv {
    Sim(SimIv),
    Def(DefaultInitialVec<C, SimRng>),
}

impl InitialVec<C> for Iv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        match self {
            Iv::Sim(x) => InitialVec::<C>::initial_vec(x, iv),
            Iv::Def(x) => x.initial_vec(iv),
        }
    }
}

#[derive(Clone)]
pub enum Ctr {
    Sim(SimCounter),
    Def(DefaultCounter),
}

impl Counter for Ctr {
    fn reset(&mut self) {
        match self {
            Ctr::Sim(x) => x.reset(),
            Ctr::Def(x) => x.reset(),
        }
    }
    fn next(&mut self) -> Option<&Vec<u8>> {
        match self {
            Ctr::Sim(x) => x.next(),
            Ctr::Def(x) => x.next(),
        }
    }
    fn bits_len(&self) -> usize {
        match self {
            Ctr::Sim(x) => x.bits_len(),
            Ctr::Def(x) => x.bits_len(),
        }
    }
}

// ---------------------------------------------------------------- one-shot objects

pub enum Obj {
    Ecb(ECB<C, Pad>),
    Cbc(CBC<C, Pad, Iv>),
    Cfb(CFB<C, Pad, Iv>),
    Ofb(OFB<C, Iv>),
    Ctr(CTR<C, Ctr>),
}

impl Clone for Obj {
    fn clone(&self) -> Obj {
        match self {
            Obj::Ecb(x) => Obj::Ecb(x.clone()),
            Obj::Cbc(x) => Obj::Cbc(x.clone()),
            Obj::Cfb(x) => Obj::Cfb(x.clone()),
            Obj::Ofb(x) => Obj::Ofb(x.clone()),
            Obj::Ctr(x) => Obj::Ctr(x.clone()),
        }
    }
}

impl Obj {
    pub fn one(&self, enc: bool, dst: &mut Vec<u8>, data: &[u8]) -> Result<usize, CryptoError> {
        macro_rules! go {
            ($x:expr) => {
                if enc {
                    $x.encrypt(dst, data)
                } else {
                    $x.decrypt(dst, data)
                }
            };
        }
        match self {
            Obj::Ecb(x) => go!(x),
            Obj::Cbc(x) => go!(x),
            Obj::Cfb(x) => go!(x),
            Obj::Ofb(x) => go!(x),
            Obj::Ctr(x) => go!(x),
        }
    }
    pub fn block_size(&self) -> Option<usize> {
        match self {
            Obj::Ecb(x) => x.block_size(),
            Obj::Cbc(x) => x.block_size(),
            Obj::Cfb(x) => x.block_size(),
            Obj::Ofb(x) => x.block_size(),
            Obj::Ctr(x) => x.block_size(),
        }
    }
    pub fn stream(self, enc: bool) -> Box<dyn Stream> {
        macro_rules! go {
            ($x:expr) => {
                if enc {
                    Box::new($x.encrypt_stream())
                } else {
                    Box::new($x.decrypt_stream())
                }
            };
        }
        match self {
            Obj::Ecb(x) => go!(x),
            Obj::Cbc(x) => go!(x),
            Obj::Cfb(x) => go!(x),
            Obj::Ofb(x) => go!(x),
            Obj::Ctr(x) => go!(x),
        }
    }
    pub fn update_iv(&mut self) -> Result<Vec<u8>, CryptoError> {
        match self {
            Obj::Cbc(x) => x.update_iv().map(|v| v.clone()),
            Obj::Cfb(x) => x.update_iv().map(|v| v.clone()),
            Obj::Ofb(x) => x.update_iv().map(|v| v.clone()),
            _ => Ok(vec![]),
        }
    }
    pub fn set_iv(&mut self, iv: Vec<u8>) -> Result<(), CryptoError> {
        match self {
            Obj::Cbc(x) => x.set_iv(iv),
            Obj::Cfb(x) => x.set_iv(iv),
            Obj::Ofb(x) => x.set_iv(iv),
            _ => Ok(()),
        }
    }
    pub fn cur_iv(&self) -> Vec<u8> {
        match self {
            Obj::Cbc(x) => x.cur_iv(),
            Obj::Cfb(x) => x.cur_iv(),
            Obj::Ofb(x) => x.cur_iv(),
            _ => vec![],
        }
    }
    pub fn set_counter(&mut self, c: Ctr) -> Result<(), CryptoError> {
        match self {
            Obj::Ctr(x) => x.set_counter(c),
            _ => Ok(()),
        }
    }
}

// ---------------------------------------------------------------- streams

pub trait Stream {
    /// write; when `out` is given draw off what is available and return the reported number of bytes
    fn write(&mut self, d: &[u8], out: Option<&mut Vec<u8>>) -> Result<usize, CryptoError>;
    fn finish(&mut self, out: Option<&mut Vec<u8>>) -> Result<usize, CryptoError>;
    fn reset(&mut self);
    fn one(&self, enc: bool, dst: &mut Vec<u8>, data: &[u8]) -> Result<usize, CryptoError>;
    fn block_size(&self) -> Option<usize>;
}

macro_rules! stream {
    ($t:ty, $tr:ident) => {
        impl Stream for $t {
            fn write(&mut self, d: &[u8], out: Option<&mut Vec<u8>>) -> Result<usize, CryptoError> {
                let p = $tr::write(self, d)?;
                Ok(match out {
                    Some(o) => p.draw_off(o),
                    None => 0,
                })
            }
            fn finish(&mut self, out: Option<&mut Vec<u8>>) -> Result<usize, CryptoError> {
                let p = $tr::finish(self)?;
                Ok(match out {
                    Some(o) => p.draw_off(o),
                    None => 0,
                })
            }
            fn reset(&mut self) {
                <$t>::reset(self)
            }
            fn one(&self, enc: bool, dst: &mut Vec<u8>, data: &[u8]) -> Result<usize, CryptoError> {
                if enc {
                    Cipher::encrypt(self, dst, data)
                } else {
                    Cipher::decrypt(self, dst, data)
                }
            }
            fn block_size(&self) -> Option<usize> {
                Cipher::block_size(self)
            }
        }
    };
}

stream!(ECBEncrypt<C, Pad>, EncryptStream);
stream!(ECBDecrypt<C, Pad>, DecryptStream);
stream!(CBCEncrypt<C, Pad, Iv>, EncryptStream);
stream!(CBCDecrypt<C, Pad, Iv>, DecryptStream);
stream!(CFBEncrypt<C, Pad, Iv>, EncryptStream);
stream!(CFBDecrypt<C, Pad, Iv>, DecryptStream);
stream!(OFBEncrypt<C, Iv>, EncryptStream);
stream!(OFBDecrypt<C, Iv>, DecryptStream);
stream!(CTREncrypt<C, Ctr>, EncryptStream);
stream!(CTRDecrypt<C, Ctr>, DecryptStream);

// ---------------------------------------------------------------- configurations

/// everything that determines what a mode object must compute
#[derive(Clone, Debug)]
pub struct Conf {
    pub mode: usize,
    pub cipher: usize,
    pub seed: i64,
    pub w: i64,
    pub pad: bool,
    /// CFB segment, bytes
    pub s: usize,
    pub bs: usize,
    /// IV, or initial counter value (at least a block long)
    pub iv: Vec<u8>,
    /// initial counter value as handed to the library (may be shorter than the counter)
    pub short: usize,
    pub sim: bool,
}

pub fn divisors(n: usize) -> Vec<usize> {
    (1..=n).filter(|d| n % d == 0).collect()
}

impl Conf {
    /// a: mode, cipher, key seed, toy size, pad, segment selector, iv seed, extra
    pub fn new(a: &[i64]) -> Conf {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        let mode = g(0).rem_euclid(5) as usize;
        let cipher = g(1).rem_euclid(ciph::CIPHERS as i64) as usize;
        let bs = ciph::block_len(cipher, g(3));
        let pad = g(4) & 1 == 1 && mode <= CFB_;
        let s = if pad {
            let d = divisors(bs);
            d[g(5).rem_euclid(d.len() as i64) as usize]
        } else {
            1 + g(5).rem_euclid(bs as i64) as usize
        };
        let x = g(7);
        let (iv, short) = if mode == CTR_ {
            let width = bs + match x.rem_euclid(5) {
                0 | 1 => 0,
                2 => 1,
                3 => bs,
                _ => x as usize / 8 % (bs + 1),
            };
            let mut v = payload(g(6), width);
            let mut short = width;
            match (x / 64).rem_euclid(5) {
                0 => {
                    // about to wrap
                    for b in v.iter_mut() {
                        *b = 0xff;
                    }
                    if let Some(l) = v.last_mut() {
                        *l = 0xff - (g(6) & 3) as u8;
                    }
                }
                1 => {
                    // about to carry through the low bytes
                    let n = v.len();
                    let k = (n / 2).max(1);
                    for b in v.iter_mut().skip(n - k) {
                        *b = 0xff;
                    }
                }
                2 => {
                    // short initial value, extended with zero bytes on the left
                    short = (g(6) as usize / 16) % (width + 1);
                    for b in v.iter_mut().take(width - short) {
                        *b = 0;
                    }
                }
                _ => {}
            }
            (v, short)
        } else {
            (payload(g(6), bs), bs)
        };
        Conf { mode, cipher, seed: g(2), w: g(3), pad, s, bs, iv, short, sim: x & 1 == 1 }
    }
    pub fn name(&self) -> String {
        let mut t = format!("{} with {}", MODES[self.mode], ciph::cipher_name(self.cipher));
        if self.cipher % ciph::CIPHERS == 6 {
            t += &format!("({})", self.bs);
        }
        if self.mode == CFB_ {
            t += &format!(" s={}", self.s);
        }
        if self.mode == CTR_ {
            t += &format!(" counter of {} bytes", self.iv.len());
        }
        if self.mode <= CFB_ {
            t += if self.pad { " padded" } else { " unpadded" };
        }
        t
    }
    pub fn refc(&self) -> Block {
        ciph::make_ref(self.cipher, self.seed, self.w)
    }
    pub fn tapped(&self, tap: &Rc<CipherTap>) -> C {
        Tapped { inner: ciph::make(self.cipher, self.seed, self.w), tap: tap.clone() }
    }
    pub fn padding(&self, c: &C) -> Pad {
        if self.pad {
            Pad::OneZero(DefaultPadding::new(c))
        } else {
            Pad::None(EmptyPadding::new())
        }
    }
    pub fn counter(&self) -> Result<Ctr, CryptoError> {
        if self.sim {
            Ok(Ctr::Sim(SimCounter::new(self.iv.clone())))
        } else {
            let v = self.iv[self.iv.len() - self.short..].to_vec();
            DefaultCounter::new(v, self.iv.len() * 8).map(Ctr::Def)
        }
    }
    pub fn make(&self, tap: &Rc<CipherTap>) -> Result<Obj, CryptoError> {
        let iv = Iv::Sim(SimIv::fixed(self.iv.clone()));
        let ctr = if self.mode == CTR_ { Some(self.counter()?) } else { None };
        self.make_with(tap, iv, ctr)
    }
    pub fn make_with(&self, tap: &Rc<CipherTap>, iv: Iv, ctr: Option<Ctr>) -> Result<Obj, CryptoError> {
        let c = self.tapped(tap);
        let p = self.padding(&c);
        Ok(match self.mode {
            ECB_ => Obj::Ecb(ECB::new(c, p)),
            CBC_ => Obj::Cbc(CBC::new(c, p, iv)?),
            CFB_ => Obj::Cfb(CFB::new(c, p, iv, self.s * 8)?),
            OFB_ => Obj::Ofb(OFB::new(c, iv)?),
            _ => Obj::Ctr(CTR::new(c, ctr.unwrap())?),
        })
    }
    /// size the input must be a multiple of when it is processed as it stands
    pub fn unit(&self) -> usize {
        match self.mode {
            ECB_ | CBC_ => self.bs,
            CFB_ => self.s,
            _ => 1,
        }
    }
    /// the transform of whole units, without padding (not for CTR)
    pub fn raw(&self, r: &Block, enc: bool, data: &[u8]) -> Vec<u8> {
        match (self.mode, enc) {
            (ECB_, true) => rm::ecb_enc(r, data),
            (ECB_, false) => rm::ecb_dec(r, data),
            (CBC_, true) => rm::cbc_enc(r, &self.iv, data),
            (CBC_, false) => rm::cbc_dec(r, &self.iv, data),
            (CFB_, _) => rm::cfb(r, &self.iv, self.s, data, enc),
            _ => rm::xor_bytes(data, &rm::ofb_stream(r, &self.iv, data.len())),
        }
    }
    /// what the whole operation must give; None: it must be refused (not for CTR)
    pub fn full(&self, r: &Block, enc: bool, data: &[u8]) -> Option<Vec<u8>> {
        if enc {
            if self.pad {
                let p = if self.mode == CFB_ { rm::cfb_pad(data, self.s, self.bs) } else { rm::pad(data, self.bs) };
                return Some(self.raw(r, true, &p));
            }
            if data.len() % self.unit() != 0 {
                return None;
            }
            Some(self.raw(r, true, data))
        } else {
            if data.len() % self.unit() != 0 {
                return None;
            }
            let p = self.raw(r, false, data);
            if self.pad {
                rm::unpad(&p)
            } else {
                Some(p)
            }
        }
    }
    /// the longest output any input starting with `data` must start with (not for CTR)
    pub fn known(&self, r: &Block, enc: bool, data: &[u8]) -> Vec<u8> {
        let n = data.len() / self.unit() * self.unit();
        self.raw(r, enc, &data[..n])
    }
    pub fn ctr_xor(&self, r: &Block, k: u64, data: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(data.len());
        for (i, b) in data.chunks(self.bs).enumerate() {
            let e = r.enc(&rm::ctr_block(&self.iv, k + i as u64, self.bs));
            out.extend(b.iter().zip(&e).map(|(x, y)| x ^ y));
        }
        out
    }
}

/// conf arguments for a plan step
pub fn conf_args(r: &mut crate::engine::Rng, mode: usize) -> Vec<i64> {
    let cipher = match r.below(12) {
        0 => 1,
        1 => 2,
        2 | 3 => 3,
        4 => 4,
        5 | 6 => 5,
        7 | 8 | 9 => 6,
        _ => 0,
    };
    vec![mode as i64, cipher, r.data_seed(), r.range(0, 8), r.range(0, 1), r.range(0, 31), r.data_seed(), r.range(0, 1 << 12)]
}
