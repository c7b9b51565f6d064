//! Simulation core: one PRNG per run, explicit plans (the schedule plus the fault trace), an event
//! log with a rolling fingerprint, and violation reporting.  Executing a plan is a pure function of
//! the plan: nothing in a run reads the clock, the OS random source or the environment.

use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0, n)
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// uniform in [a, b]
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn data_seed(&mut self) -> i64 {
        self.range(0, 1 << 20)
    }
}

/// Payload bytes are named by (seed, len) so that plans stay small and shrink well.
/// Low seeds give degenerate contents: a shrunk plan tends towards all-zero payloads.
pub fn payload(seed: i64, len: usize) -> Vec<u8> {
    let seed = seed as u64;
    match seed % 16 {
        0 => vec![0u8; len],
        1 => vec![0xffu8; len],
        2 => vec![0x80u8; len],
        3 => {
            let mut v = vec![0u8; len];
            if let Some(x) = v.last_mut() {
                *x = 0x80;
            }
            v
        }
        4 => (0..len).map(|i| (i as u8).wrapping_add((seed >> 4) as u8)).collect(),
        5 => {
            // a short block repeated
            let b = payload((seed >> 4) as i64 * 16 + 15, 16);
            (0..len).map(|i| b[i % 16]).collect()
        }
        6 => {
            // random head, zero tail
            let mut v = payload((seed >> 4) as i64 * 16 + 15, len);
            for x in v.iter_mut().skip(len / 2) {
                *x = 0;
            }
            v
        }
        _ => {
            let mut r = Rng::new(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x51ed270b);
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(len);
            v
        }
    }
}

/// lengths biased to multiples of `block` and their neighbours
pub fn biased_len(r: &mut Rng, block: i64, max_blocks: i64) -> i64 {
    let b = block.max(1);
    match r.below(10) {
        0 => 0,
        1 => r.range(0, 3),
        2 | 3 => {
            let k = r.range(1, max_blocks.max(1));
            (k * b + r.range(-2, 2)).max(0)
        }
        4 => b - 1,
        5 => b,
        6 => b * r.range(1, max_blocks.max(1)),
        7 => r.range(0, b),
        _ => r.range(0, b * max_blocks.max(1)),
    }
}

// ---------------------------------------------------------------- plans

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: Cow<'static, str>,
    pub a: Vec<i64>,
}

impl Step {
    pub fn new(op: &'static str, a: &[i64]) -> Step {
        Step { op: Cow::Borrowed(op), a: a.to_vec() }
    }
    /// argument i, 0 when absent; always non-negative
    pub fn u(&self, i: usize) -> usize {
        self.a.get(i).copied().unwrap_or(0).max(0) as usize
    }
    pub fn i(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Plan {
    pub cfg: Vec<(Cow<'static, str>, i64)>,
    pub steps: Vec<Step>,
}

impl Plan {
    pub fn set(&mut self, k: &'static str, v: i64) {
        self.cfg.push((Cow::Borrowed(k), v));
    }
    pub fn get(&self, k: &str) -> i64 {
        self.cfg.iter().find(|(n, _)| n == k).map(|x| x.1).unwrap_or(0)
    }
    pub fn getu(&self, k: &str) -> usize {
        self.get(k).max(0) as usize
    }
    pub fn push(&mut self, op: &'static str, a: &[i64]) {
        self.steps.push(Step::new(op, a));
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.cfg {
            let _ = writeln!(s, "cfg {} {}", k, v);
        }
        for st in &self.steps {
            let _ = write!(s, "step {}", st.op);
            for x in &st.a {
                let _ = write!(s, " {}", x);
            }
            s.push('\n');
        }
        s
    }
    pub fn from_lines<'a>(lines: impl Iterator<Item = &'a str>) -> Result<Plan, String> {
        let mut p = Plan::default();
        for l in lines {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("cfg") => {
                    let k = w.next().ok_or("cfg without name")?.to_string();
                    let v = w.next().and_then(|x| x.parse().ok()).ok_or("bad cfg value")?;
                    p.cfg.push((Cow::Owned(k), v));
                }
                Some("step") => {
                    let op = w.next().ok_or("step without op")?.to_string();
                    let mut a = Vec::new();
                    for x in w {
                        a.push(x.parse().map_err(|_| format!("bad arg {}", x))?);
                    }
                    p.steps.push(Step { op: Cow::Owned(op), a });
                }
                _ => {}
            }
        }
        Ok(p)
    }
}

// ---------------------------------------------------------------- violations and context

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    /// stable name of what went wrong, used to keep minimisation on the same failure
    pub class: String,
    pub msg: String,
    pub step: usize,
}

pub type Check = Result<(), Violation>;

/// Thrown (as a panic payload) by a seam when a call has used far more of the seam than it can need.
pub struct BudgetExceeded(pub &'static str);

pub struct PanicInfo {
    pub msg: String,
    pub loc: String,
    pub budget: Option<&'static str>,
}

thread_local! {
    static LAST_PANIC: RefCell<(String, String)> = RefCell::new((String::new(), String::new()));
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("<non-string panic>")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = (msg, loc));
    }));
}

/// run a library call; a panic becomes a value
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if let Some(b) = p.downcast_ref::<BudgetExceeded>() {
                return Err(PanicInfo { msg: format!("no progress: {}", b.0), loc: String::new(), budget: Some(b.0) });
            }
            let (msg, loc) = LAST_PANIC.with(|p| p.borrow().clone());
            Err(PanicInfo { msg, loc, budget: None })
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub step: usize,
    pub hash: u64,
    pub events: u64,
    pub verbose: bool,
    pub log: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub sched: u64,
    pub checks: u64,
    pub real: u64,
}

pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Ctx {
    pub fn new(verbose: bool) -> Ctx {
        Ctx { hash: 0xcbf29ce484222325, sched: 0xcbf29ce484222325, verbose, ..Default::default() }
    }
    /// append to the event log (rolling fingerprint always, text when verbose)
    pub fn event(&mut self, name: &str, data: &[u8]) {
        self.events += 1;
        self.hash = fnv(fnv(self.hash, name.as_bytes()), data);
        if self.verbose {
            let hex = hex(&data[..data.len().min(48)]);
            self.log.push(format!("[{}] {} len={} {}{}", self.step, name, data.len(), hex, if data.len() > 48 { ".." } else { "" }));
        }
    }
    /// one scheduling decision: which session ran which operation
    pub fn sched(&mut self, actor: usize, op: &str) {
        self.sched = fnv(fnv(self.sched, &[actor as u8]), op.as_bytes());
        self.event(op, &[actor as u8]);
    }
    pub fn fault(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn faults_n(&mut self, kind: &'static str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind).or_insert(0) += n;
        }
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    /// abstract state reached (for the distinct-states measure)
    pub fn state(&mut self, parts: &[i64]) {
        let mut h = 0xcbf29ce484222325u64;
        for p in parts {
            h = fnv(h, &p.to_le_bytes());
        }
        self.states.insert(h);
    }
    pub fn fail<T>(&self, class: impl Into<String>, msg: impl Into<String>) -> Result<T, Violation> {
        Err(Violation { class: class.into(), msg: msg.into(), step: self.step })
    }
    pub fn require(&mut self, ok: bool, class: &str, msg: impl FnOnce() -> String) -> Check {
        self.checks += 1;
        if ok {
            Ok(())
        } else {
            self.fail(class, msg())
        }
    }
    pub fn same(&mut self, got: &[u8], want: &[u8], class: &str, what: impl FnOnce() -> String) -> Check {
        self.checks += 1;
        if got == want {
            return Ok(());
        }
        let d = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        self.fail(class, format!("{}: got {} bytes, want {} bytes, first difference at {}: got {} want {}", what(), got.len(), want.len(), d,
            hex(&got[d.min(got.len())..(d + 16).min(got.len())]), hex(&want[d.min(want.len())..(d + 16).min(want.len())])))
    }
    /// run a library call that must not panic
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
        self.real += 1;
        match guarded(f) {
            Ok(v) => Ok(v),
            Err(p) => {
                if p.budget.is_some() {
                    self.fail(format!("no-progress:{}", what), format!("{}: {}", what, p.msg))
                } else {
                    self.fail(format!("panic:{}", what), format!("{} panicked: {} at {}", what, p.msg, p.loc))
                }
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let s: Vec<u8> = s.bytes().filter(|c| c.is_ascii_hexdigit()).collect();
    s.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}

// ---------------------------------------------------------------- scenarios

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct RunKind {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
}

pub trait Scenario: Sync + Send {
    fn id(&self) -> &'static str;
    /// families of runs with their run counts (quick, thorough)
    fn kinds(&self) -> Vec<RunKind>;
    fn gen(&self, kind: usize, r: &mut Rng, tier: Tier) -> Plan;
    /// `idx` numbers the runs of one kind, for enumerated families
    fn gen_indexed(&self, kind: usize, _idx: u64, r: &mut Rng, tier: Tier) -> Plan {
        self.gen(kind, r, tier)
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check;
    /// what makes a run non-trivial
    fn rule(&self) -> &'static str;
    fn real(&self) -> &'static [&'static str];
    fn stubs(&self) -> &'static [&'static str];
    fn assumptions(&self) -> &'static [&'static str] {
        &[]
    }
}

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut x = seed ^ fnv(0xcbf29ce484222325, prop.as_bytes());
    let a = splitmix(&mut x);
    let mut y = a ^ run.wrapping_mul(0xD1B54A32D192ED03);
    splitmix(&mut y)
}

pub fn execute(sc: &dyn Scenario, plan: &Plan, verbose: bool) -> (Ctx, Option<Violation>) {
    let mut cx = Ctx::new(verbose);
    let res = {
        let cxr = &mut cx;
        guarded(move || sc.run(plan, cxr))
    };
    let v = match res {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        // a panic that escaped ctx.lib: either harness code or a destructor of the library
        Err(p) => Some(Violation {
            class: format!("escaped-panic:{}", p.loc),
            msg: format!("panic outside a guarded call: {} at {}", p.msg, p.loc),
            step: cx.step,
        }),
    };
    if let Some(v) = &v {
        let text = format!("{} {}", v.class, v.msg);
        cx.event("VIOLATION", text.as_bytes());
    }
    (cx, v)
}
