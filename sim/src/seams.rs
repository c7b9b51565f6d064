//! The seams of the library: random source, block cipher, IV provider, counter.  Each is an
//! implementation of a public trait of rcrypto/rmath, driven by the plan.

use crate::engine::{BudgetExceeded, Ctx, Rng};
use rcrypto::cipher_mode::{Counter, InitialVec};
use rcrypto::{Cipher, CryptoError, CryptoErrorKind};
use rmath::rand::{Iter, IterSource, RandErrKind, RandError, Seed, Source};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

// ---------------------------------------------------------------- random source

pub const RNG_FAULTS: [&str; 8] =
    ["rng_error", "rng_zero", "rng_ones", "rng_stuck", "rng_const", "rng_rewind", "rng_short_period", "rng_script"];

struct Armed {
    kind: usize,
    skip: u64,
    len: u64,
    period: Vec<u32>,
    pos: usize,
}

pub struct RngCore {
    seed: u64,
    r: Rng,
    last: u32,
    armed: VecDeque<Armed>,
    pub out: Vec<u32>,
    pub errs: u64,
    pub words: u64,
    budget: u64,
    pub fired: BTreeMap<&'static str, u64>,
    script: VecDeque<u32>,
}

/// Clones share one underlying source, like handles to one device.
#[derive(Clone)]
pub struct SimRng(pub Rc<RefCell<RngCore>>);

impl SimRng {
    pub fn new(seed: u64) -> SimRng {
        SimRng(Rc::new(RefCell::new(RngCore {
            seed,
            r: Rng::new(seed ^ 0x5eed_5eed),
            last: 0x1234_5678,
            armed: VecDeque::new(),
            out: Vec::new(),
            errs: 0,
            words: 0,
            budget: u64::MAX,
            fired: BTreeMap::new(),
            script: VecDeque::new(),
        })))
    }
    /// fault `kind` starts after `skip` further requests and lasts `len` requests
    pub fn arm(&self, kind: usize, skip: u64, len: u64) {
        self.0.borrow_mut().armed.push_back(Armed { kind: kind % RNG_FAULTS.len(), skip, len, period: Vec::new(), pos: 0 });
    }
    pub fn disarm(&self) {
        let mut c = self.0.borrow_mut();
        c.armed.clear();
        c.script.clear();
    }
    /// deliver exactly these words next (adversarial values)
    pub fn script(&self, words: &[u32]) {
        self.0.borrow_mut().script.extend(words.iter());
    }
    /// words allowed until the next call of `budget`; more is reported as lack of progress
    pub fn budget(&self, n: u64) {
        let mut c = self.0.borrow_mut();
        c.budget = c.words + c.errs + n;
    }
    pub fn count(&self) -> (u64, u64) {
        let c = self.0.borrow();
        (c.words, c.errs)
    }
    pub fn delivered(&self) -> usize {
        self.0.borrow().out.len()
    }
    pub fn out_from(&self, i: usize) -> Vec<u32> {
        self.0.borrow().out[i..].to_vec()
    }
    /// move the counts of injected faults into the context
    pub fn report(&self, cx: &mut Ctx) {
        let mut c = self.0.borrow_mut();
        let f = std::mem::take(&mut c.fired);
        for (k, n) in f {
            cx.faults_n(k, n);
        }
    }
    pub fn fired(&self) -> u64 {
        self.0.borrow().fired.values().sum()
    }
}

impl RngCore {
    fn step(&mut self) -> Result<u32, RandError> {
        if self.words + self.errs >= self.budget {
            std::panic::panic_any(BudgetExceeded("random source asked for far more words than needed"));
        }
        if let Some(w) = self.script.pop_front() {
            *self.fired.entry("rng_script").or_insert(0) += 1;
            return self.deliver(w);
        }
        let mut kind = None;
        let mut val = 0;
        if let Some(a) = self.armed.front_mut() {
            if a.skip > 0 {
                a.skip -= 1;
            } else if a.len > 0 {
                a.len -= 1;
                kind = Some(a.kind);
                if a.kind == 6 {
                    if a.period.len() < 3 {
                        let w = (self.r.next() >> 32) as u32;
                        a.period.push(w);
                        val = w;
                    } else {
                        val = a.period[a.pos % 3];
                        a.pos += 1;
                    }
                }
            }
        }
        while self.armed.front().map(|a| a.skip == 0 && a.len == 0).unwrap_or(false) {
            self.armed.pop_front();
        }
        if let Some(k) = kind {
            *self.fired.entry(RNG_FAULTS[k]).or_insert(0) += 1;
            match k {
                0 => {
                    self.errs += 1;
                    return Err(RandError::new(RandErrKind::NoNewRandNumberGen, "injected random source failure"));
                }
                1 => return self.deliver(0),
                2 => return self.deliver(u32::MAX),
                3 => {
                    let l = self.last;
                    return self.deliver(l);
                }
                4 => return self.deliver(0x8000_0001),
                5 => {
                    self.r = Rng::new(self.seed ^ 0x5eed_5eed);
                }
                6 => return self.deliver(val),
                _ => {}
            }
        }
        let w = (self.r.next() >> 32) as u32;
        self.deliver(w)
    }
    fn deliver(&mut self, w: u32) -> Result<u32, RandError> {
        self.words += 1;
        self.last = w;
        self.out.push(w);
        Ok(w)
    }
}

impl Source<u32> for SimRng {
    fn gen(&mut self) -> Result<u32, RandError> {
        self.0.borrow_mut().step()
    }
    fn reset<Sd: Seed<u32>>(&mut self, _sd: &Sd) -> Result<(), RandError> {
        Ok(())
    }
}

impl IterSource<u32> for SimRng {
    fn iter_mut(&mut self) -> Iter<'_, Self, u32> {
        Iter::new(self)
    }
}

// ---------------------------------------------------------------- block cipher

/// what the fault layer of a cipher saw and does; shared with the simulation
#[derive(Default)]
pub struct CipherTap {
    pub calls: Cell<u64>,
    /// fail the calls with index in [fail_at, fail_at + fail_len)
    pub fail_at: Cell<u64>,
    pub fail_len: Cell<u64>,
    /// what a failing call does to dst: 0 leaves it, 1 clears it, 2 writes junk
    pub fail_style: Cell<u8>,
    pub failed: Cell<u64>,
    pub record: Cell<bool>,
    pub seen: RefCell<Vec<Vec<u8>>>,
    pub budget: Cell<u64>,
}

impl CipherTap {
    pub fn new() -> Rc<CipherTap> {
        let t = CipherTap::default();
        t.fail_at.set(u64::MAX);
        t.budget.set(u64::MAX);
        Rc::new(t)
    }
    pub fn arm(&self, after: u64, len: u64, style: u8) {
        self.fail_at.set(self.calls.get() + after);
        self.fail_len.set(len);
        self.fail_style.set(style);
    }
    pub fn disarm(&self) {
        self.fail_at.set(u64::MAX);
        self.fail_len.set(0);
    }
}

/// the real rcrypto cipher behind a fault layer
#[derive(Clone)]
pub struct Tapped<C> {
    pub inner: C,
    pub tap: Rc<CipherTap>,
}

impl<C: Cipher> Tapped<C> {
    fn pre(&self, dst: &mut Vec<u8>, input: &[u8]) -> Result<(), CryptoError> {
        let n = self.tap.calls.get();
        if n >= self.tap.budget.get() {
            std::panic::panic_any(BudgetExceeded("block cipher called far more often than needed"));
        }
        self.tap.calls.set(n + 1);
        if self.tap.record.get() {
            self.tap.seen.borrow_mut().push(input.to_vec());
        }
        let at = self.tap.fail_at.get();
        if n >= at && n - at < self.tap.fail_len.get() {
            self.tap.failed.set(self.tap.failed.get() + 1);
            match self.tap.fail_style.get() {
                0 => {}
                1 => dst.clear(),
                _ => {
                    dst.clear();
                    dst.extend_from_slice(&[0xde, 0xad, 0xbe]);
                }
            }
            return Err(CryptoError::new(CryptoErrorKind::OuterErr, "injected cipher failure"));
        }
        Ok(())
    }
}

impl<C: Cipher> Cipher for Tapped<C> {
    type Output = C::Output;
    fn block_size(&self) -> Option<usize> {
        self.inner.block_size()
    }
    fn encrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<C::Output, CryptoError> {
        self.pre(dst, b)?;
        self.inner.encrypt(dst, b)
    }
    fn decrypt(&self, dst: &mut Vec<u8>, b: &[u8]) -> Result<C::Output, CryptoError> {
        self.pre(dst, b)?;
        self.inner.decrypt(dst, b)
    }
}

// ---------------------------------------------------------------- IV provider

/// Delivers scripted IVs; can fail or deliver the wrong length.
#[derive(Clone)]
pub struct SimIv {
    pub next: Rc<RefCell<VecDeque<IvAct>>>,
    pub default: Vec<u8>,
}

#[derive(Clone)]
pub enum IvAct {
    Give(Vec<u8>),
    /// error after writing `n` bytes into the caller's buffer
    Fail(usize),
    WrongLen(Vec<u8>),
}

impl SimIv {
    pub fn fixed(iv: Vec<u8>) -> SimIv {
        SimIv { next: Rc::new(RefCell::new(VecDeque::new())), default: iv }
    }
}

impl<C: Cipher> InitialVec<C> for SimIv {
    fn initial_vec(&mut self, iv: &mut Vec<u8>) -> Result<(), CryptoError> {
        let act = self.next.borrow_mut().pop_front();
        match act {
            None => {
                iv.clear();
                iv.extend_from_slice(&self.default);
                Ok(())
            }
            Some(IvAct::Give(v)) | Some(IvAct::WrongLen(v)) => {
                iv.clear();
                iv.extend_from_slice(&v);
                Ok(())
            }
            Some(IvAct::Fail(n)) => {
                iv.clear();
                iv.resize(n, 0xee);
                Err(CryptoError::new(CryptoErrorKind::RandError, "injected IV failure"))
            }
        }
    }
}

// ---------------------------------------------------------------- counter

/// A counter of a given byte width that can run dry.
#[derive(Clone)]
pub struct SimCounter {
    pub width: usize,
    pub init: Vec<u8>,
    pub cur: Option<Vec<u8>>,
    pub used: u64,
    /// no more values after this many since the last reset
    pub limit: Rc<Cell<u64>>,
    pub dry: Rc<Cell<u64>>,
}

impl SimCounter {
    pub fn new(init: Vec<u8>) -> SimCounter {
        SimCounter { width: init.len(), init, cur: None, used: 0, limit: Rc::new(Cell::new(u64::MAX)), dry: Rc::new(Cell::new(0)) }
    }
}

impl Counter for SimCounter {
    fn reset(&mut self) {
        self.cur = None;
        self.used = 0;
    }
    fn next(&mut self) -> Option<&Vec<u8>> {
        if self.used >= self.limit.get() {
            self.dry.set(self.dry.get() + 1);
            return None;
        }
        self.used += 1;
        match self.cur.as_mut() {
            None => self.cur = Some(self.init.clone()),
            Some(v) => {
                for x in v.iter_mut().rev() {
                    *x = x.wrapping_add(1);
                    if *x != 0 {
                        break;
                    }
                }
            }
        }
        self.cur.as_ref()
    }
    fn bits_len(&self) -> usize {
        self.width << 3
    }
}
