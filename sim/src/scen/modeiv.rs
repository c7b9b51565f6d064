//! IV management under failing random sources (C06) and damaged ciphertexts (C07).

use crate::engine::*;
use crate::refs::block::Block;
use crate::scen::modeobj::*;
use crate::scen::modes::{want_end, Want};
use crate::seams::*;
use rcrypto::cipher_mode::DefaultInitialVec;
use std::collections::VecDeque;
use std::cell::RefCell;
use std::rc::Rc;

const SLOTS: usize = 6;

// ---------------------------------------------------------------- C06

pub struct C06;

struct IvSess {
    conf: Conf,
    refc: Block,
    obj: Obj,
    rng: SimRng,
    acts: Rc<RefCell<VecDeque<IvAct>>>,
    def: bool,
    fallback: Vec<u8>,
    updates: i64,
}

fn words_match(iv: &[u8], words: &[u32]) -> bool {
    let be: Vec<u8> = words.iter().flat_map(|w| w.to_be_bytes()).collect();
    let le: Vec<u8> = words.iter().flat_map(|w| w.to_le_bytes()).collect();
    be.len() >= iv.len() && (be[..iv.len()] == *iv || le[..iv.len()] == *iv)
}

/// decrypt `ct` with a stream made from `obj`, `chunk` bytes at a time
fn through_stream(cx: &mut Ctx, obj: Obj, enc: bool, data: &[u8], chunk: usize, draw: bool) -> Result<Result<Vec<u8>, ()>, Violation> {
    let mut st = cx.lib("make stream", || obj.stream(enc))?;
    let mut out = vec![];
    for c in data.chunks(chunk.max(1)) {
        let o = &mut out;
        if cx.lib("stream write", || st.write(c, if draw { Some(o) } else { None }))?.is_err() {
            return Ok(Err(()));
        }
    }
    let o = &mut out;
    if cx.lib("stream finish", || st.finish(Some(o)))?.is_err() {
        return Ok(Err(()));
    }
    Ok(Ok(out))
}

impl C06 {
    fn check_iv(cx: &mut Ctx, s: &IvSess, after: &str) -> Check {
        let got = s.obj.cur_iv();
        cx.event("iv", &got);
        cx.same(&got, &s.conf.iv, "iv-in-force", || format!("IV of {} after {}", s.conf.name(), after))
    }
}

impl Scenario for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 24000, thorough: 240000 },
            RunKind { name: "faulty", quick: 90000, thorough: 900000 },
            RunKind { name: "every-word-position", quick: 3 * 2 * 7 * 9 * 8, thorough: 3 * 2 * 7 * 9 * 64 },
        ]
    }
    fn gen_indexed(&self, kind: usize, idx: u64, r: &mut Rng, tier: Tier) -> Plan {
        if kind != 2 {
            return self.gen(kind, r, tier);
        }
        let mut p = Plan::default();
        let mut i = idx as i64;
        let mut take = |n: i64| {
            let v = i % n;
            i /= n;
            v
        };
        let mode = 1 + take(3);
        let perm = take(2);
        let cipher = take(7);
        let pos = take(9);
        let mut a = conf_args(r, mode as usize);
        a[1] = cipher;
        let mut v = vec![0, 1, 0];
        v.extend(&a);
        p.push("open", &v);
        for _ in 0..r.range(0, 2) {
            p.push("upd", &[0]);
        }
        p.push("rng", &[0, 0, pos, if perm == 1 { 40 } else { 1 }]);
        p.push("upd", &[0]);
        p.push("one", &[0, 0, r.data_seed(), r.range(0, 60)]);
        p.push("upd", &[0]);
        p.push("stream", &[0, r.range(0, 1), r.data_seed(), r.range(0, 60), r.range(1, 20)]);
        p.push("calm", &[0]);
        p.push("upd", &[0]);
        p.push("one", &[0, 0, r.data_seed(), r.range(0, 60)]);
        p.push("one", &[0, 1, r.data_seed(), r.range(0, 60)]);
        p
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let n = r.range(1, 3);
        for s in 0..n {
            let m = r.range(1, 3) as usize;
            let a = conf_args(r, m);
            let mut v = vec![s, r.range(0, 1), if kind == 1 { r.range(0, 9) } else { 9 }];
            v.extend(&a);
            p.push("open", &v);
        }
        for _ in 0..r.range(4, 20) {
            let s = r.range(0, n - 1);
            match r.below(if kind == 0 { 8 } else { 13 }) {
                0 | 1 => p.push("upd", &[s]),
                2 => p.push("set", &[s, r.data_seed(), 0]),
                3 | 4 => p.push("one", &[s, 0, r.data_seed(), r.range(0, 50)]),
                5 => p.push("one", &[s, 1, r.data_seed(), r.range(0, 50)]),
                6 => p.push("stream", &[s, r.range(0, 1), r.data_seed(), r.range(0, 50), r.range(1, 20)]),
                7 => p.push("clone", &[s, r.range(0, n)]),
                8 => {
                    let k = if r.chance(1, 2) { 0 } else { r.range(0, 6) };
                    p.push("rng", &[s, k, r.range(0, 9), r.range(1, 12)]);
                    p.push("upd", &[s]);
                }
                9 => {
                    p.push("act", &[s, r.range(0, 2), r.range(0, 40)]);
                    p.push("upd", &[s]);
                }
                10 => p.push("set", &[s, r.data_seed(), r.range(1, 40)]),
                11 => p.push("calm", &[s]),
                _ => p.push("upd", &[s]),
            }
        }
        for s in 0..n {
            p.push("calm", &[s]);
            p.push("one", &[s, 0, r.data_seed(), r.range(0, 50)]);
            p.push("upd", &[s]);
            p.push("stream", &[s, 1, r.data_seed(), r.range(0, 50), r.range(1, 20)]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut ss: Vec<Option<IvSess>> = (0..SLOTS).map(|_| None).collect();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let slot = st.u(0) % SLOTS;
            if st.op == "open" {
                let mut a = st.a.get(3..).map(|x| x.to_vec()).unwrap_or_default();
                a.resize(8, 0);
                a[0] = 1 + a[0].rem_euclid(5).max(1).min(3) - 1;
                let mut conf = Conf::new(&a);
                let def = st.u(1) == 1;
                let rng = SimRng::new(a[6] as u64 ^ 0x1717);
                rng.budget(1 << 16);
                let acts = Rc::new(RefCell::new(VecDeque::new()));
                let tap = CipherTap::new();
                let first = st.u(2);
                let fallback = payload(a[6] + 1, conf.bs);
                let iv = if def {
                    if first == 0 {
                        rng.arm(0, (a[7] as u64) % 6, 1);
                    }
                    Iv::Def(DefaultInitialVec::new(&conf.tapped(&tap), rng.clone()))
                } else {
                    match first {
                        0 => acts.borrow_mut().push_back(IvAct::Fail(conf.bs / 2)),
                        1 => acts.borrow_mut().push_back(IvAct::WrongLen(vec![7; conf.bs + 1])),
                        2 => acts.borrow_mut().push_back(IvAct::WrongLen(vec![7; conf.bs - 1])),
                        _ => acts.borrow_mut().push_back(IvAct::Give(conf.iv.clone())),
                    }
                    Iv::Sim(SimIv { next: acts.clone(), default: fallback.clone() })
                };
                cx.sched(slot, "open");
                let made = cx.lib("new", || conf.make_with(&tap, iv, None))?;
                let (_, errs) = rng.count();
                let bad = if def { errs > 0 } else { first < 3 };
                rng.report(cx);
                if !def && first < 3 {
                    cx.fault(if first == 0 { "iv_provider_error" } else { "iv_wrong_length" });
                }
                match made {
                    Ok(obj) => {
                        let name = conf.name();
                        cx.require(!bad, "error-swallowed", || format!("{} created although no IV could be made", name))?;
                        if def {
                            let got = obj.cur_iv();
                            let w = rng.out_from(0);
                            cx.require(got.len() == conf.bs, "iv-length", || format!("IV of {} bytes for blocks of {}", got.len(), conf.bs))?;
                            cx.require(words_match(&got, &w), "iv-source", || format!("first IV of {} is not what the random source delivered", name))?;
                            conf.iv = got;
                        }
                        let refc = conf.refc();
                        let s = IvSess { conf, refc, obj, rng, acts, def, fallback, updates: 0 };
                        Self::check_iv(cx, &s, "creation")?;
                        ss[slot] = Some(s);
                    }
                    Err(_) => {
                        let name = conf.name();
                        cx.require(bad, "unexpected-error", || format!("creating {} failed", name))?;
                        ss[slot] = None;
                    }
                }
                continue;
            }
            if st.op == "clone" {
                let d = st.u(1) % SLOTS;
                if d != slot {
                    let c = match &ss[slot] {
                        Some(s) => {
                            cx.sched(slot, "clone");
                            cx.fault("object_cloned");
                            let obj = cx.lib("clone", || s.obj.clone())?;
                            Some(IvSess { conf: s.conf.clone(), refc: s.conf.refc(), obj, rng: s.rng.clone(), acts: s.acts.clone(), def: s.def, fallback: s.fallback.clone(), updates: s.updates })
                        }
                        None => None,
                    };
                    if let Some(c) = c {
                        Self::check_iv(cx, &c, "cloning")?;
                        ss[d] = Some(c);
                    }
                }
                continue;
            }
            let s = match ss[slot].as_mut() {
                Some(s) => s,
                None => continue,
            };
            cx.sched(slot, &st.op);
            match st.op.as_ref() {
                "rng" => s.rng.arm(st.u(1) % 7, st.u(2) as u64, st.u(3) as u64),
                "calm" => {
                    s.rng.disarm();
                    s.acts.borrow_mut().clear();
                }
                "act" => {
                    if !s.def {
                        let n = st.u(2);
                        s.acts.borrow_mut().push_back(match st.u(1) {
                            0 => IvAct::Fail(n),
                            1 => IvAct::WrongLen(vec![0x5a; n]),
                            _ => IvAct::Give(payload(n as i64 * 16 + 9, s.conf.bs)),
                        });
                    }
                }
                "upd" => {
                    let act = s.acts.borrow().front().cloned();
                    let at = s.rng.delivered();
                    let e0 = s.rng.count().1;
                    let o = &mut s.obj;
                    let res = cx.lib("update_iv", || o.update_iv())?;
                    s.rng.report(cx);
                    let name = s.conf.name();
                    let got = s.obj.cur_iv();
                    cx.event("upd", &got);
                    if s.def {
                        let bad = s.rng.count().1 > e0;
                        match res {
                            Ok(v) => {
                                cx.require(!bad, "error-swallowed", || format!("{}: IV updated although the random source failed", name))?;
                                let w = s.rng.out_from(at);
                                cx.require(v.len() == s.conf.bs, "iv-length", || format!("{}: IV of {} bytes", name, v.len()))?;
                                cx.require(words_match(&v, &w), "iv-source", || format!("{}: updated IV {} is not what the random source delivered", name, hex(&v)))?;
                                cx.same(&got, &v, "iv-in-force", || format!("{}: IV returned by the update", name))?;
                                s.conf.iv = v;
                                s.updates += 1;
                            }
                            Err(_) => cx.require(bad, "unexpected-error", || format!("{}: update failed with a healthy source", name))?,
                        }
                        cx.state(&[1, s.conf.mode as i64, s.conf.bs as i64, bad as i64, s.updates.min(3), s.rng.delivered() as i64 - at as i64]);
                    } else {
                        let want = match act {
                            None => Some(s.fallback.clone()),
                            Some(IvAct::Give(v)) => Some(v),
                            Some(IvAct::WrongLen(v)) => {
                                if v.len() == s.conf.bs {
                                    Some(v)
                                } else {
                                    cx.fault("iv_wrong_length");
                                    None
                                }
                            }
                            Some(IvAct::Fail(_)) => {
                                cx.fault("iv_provider_error");
                                None
                            }
                        };
                        cx.state(&[2, s.conf.mode as i64, s.conf.bs as i64, want.is_some() as i64, s.updates.min(3)]);
                        match (res, want) {
                            (Ok(v), Some(w)) => {
                                cx.same(&v, &w, "iv-returned", || format!("{}: IV returned by the update", name))?;
                                s.conf.iv = w;
                                s.updates += 1;
                            }
                            (Err(_), None) => {}
                            (Ok(_), None) => return cx.fail("error-swallowed", format!("{}: IV updated although the provider failed", name)),
                            (Err(_), Some(_)) => return cx.fail("unexpected-error", format!("{}: update failed", name)),
                        }
                    }
                    Self::check_iv(cx, s, "an update")?;
                }
                "set" => {
                    let n = if st.u(2) == 0 { s.conf.bs } else { st.u(2) - 1 };
                    let v = payload(st.i(1), n);
                    let o = &mut s.obj;
                    let vv = v.clone();
                    let ok = cx.lib("set_iv", || o.set_iv(vv).is_ok())?;
                    let name = s.conf.name();
                    let bs = s.conf.bs;
                    if n != bs {
                        cx.fault("wrong_iv_assigned");
                    }
                    cx.require(ok == (n == bs), if ok { "bad-iv-accepted" } else { "unexpected-error" }, || format!("{}: assigning an IV of {} bytes: success {}", name, n, ok))?;
                    if ok {
                        s.conf.iv = v;
                    }
                    Self::check_iv(cx, s, "an assignment")?;
                }
                "one" => {
                    let enc = st.u(1) == 0;
                    let n = st.u(3).min(5000);
                    let n = if s.conf.pad { n } else { n / s.conf.unit() * s.conf.unit() };
                    let msg = payload(st.i(2), n);
                    let ct = s.conf.full(&s.refc, true, &msg).unwrap();
                    let (input, want) = if enc { (&msg, &ct) } else { (&ct, &msg) };
                    let mut dst = vec![1, 2, 3];
                    let o = &s.obj;
                    let res = cx.lib("one-shot call", || o.one(enc, &mut dst, input))?;
                    let name = s.conf.name();
                    cx.event("one", &dst);
                    if res.is_err() {
                        return cx.fail("unexpected-error", format!("{}: one-shot call of {} bytes failed", name, input.len()));
                    }
                    cx.same(&dst, want, "iv-used", || format!("{}: one-shot {} under the IV in force", name, if enc { "encryption" } else { "decryption" }))?;
                    Self::check_iv(cx, s, "a one-shot call")?;
                }
                "stream" => {
                    let enc = st.u(1) == 0;
                    let n = st.u(3).min(5000);
                    let n = if s.conf.pad { n } else { n / s.conf.unit() * s.conf.unit() };
                    let msg = payload(st.i(2), n);
                    let ct = s.conf.full(&s.refc, true, &msg).unwrap();
                    let (input, want) = if enc { (&msg, &ct) } else { (&ct, &msg) };
                    let o = cx.lib("clone", || s.obj.clone())?;
                    let name = s.conf.name();
                    match through_stream(cx, o, enc, input, st.u(4), st.i(2) & 1 == 0)? {
                        Ok(out) => {
                            cx.event("stream", &out);
                            cx.same(&out, want, "iv-used", || format!("{}: stream made after the IV was set", name))?
                        }
                        Err(()) => return cx.fail("unexpected-error", format!("{}: stream of {} bytes failed", name, input.len())),
                    }
                    Self::check_iv(cx, s, "making a stream")?;
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = IVs, outputs and refusals compared with the model; a state is (provider, mode, block size, failed or not, successful updates up to 3, words taken by the update)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto CBC, CFB, OFB objects and streams", "DefaultInitialVec", "rcrypto AES/DES/TDES/SM4"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source", "IV provider that fails or delivers wrong lengths", "toy cipher", "caller sessions"]
    }
}

// ---------------------------------------------------------------- C07

pub struct C07;

impl Scenario for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 24000, thorough: 240000 },
            RunKind { name: "damaged", quick: 180000, thorough: 1800000 },
            RunKind { name: "crafted-endings", quick: 90000, thorough: 900000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let m = r.range(0, 4) as usize;
        let mut a = conf_args(r, m);
        if r.chance(3, 4) {
            a[4] = 1;
        }
        p.push("open", &a);
        let c = Conf::new(&a);
        let bs = c.bs as i64;
        for _ in 0..r.range(1, 4) {
            if kind == 2 {
                // a plaintext whose end is or is not a proper one-zero padding, encrypted as it stands
                p.push("raw", &[r.data_seed(), r.range(0, 4), r.range(0, 9), r.range(0, 2 * bs)]);
            } else {
                p.push("send", &[r.data_seed(), biased_len(r, bs, 5)]);
            }
            let nd = match kind {
                0 => 0,
                1 => r.range(1, 3),
                _ => r.range(0, 1) * r.range(0, 1),
            };
            for _ in 0..nd {
                match r.below(9) {
                    0 | 1 => p.push("flip", &[r.range(0, 1 << 16)]),
                    2 => p.push("fliplast", &[r.range(0, 8 * 2 * bs)]),
                    3 => {
                        let n = if r.chance(1, 2) { bs } else { r.range(1, 2 * bs) };
                        p.push("trunc", &[n])
                    }
                    4 => {
                        let n = if r.chance(1, 2) { bs } else { r.range(1, 2 * bs) };
                        p.push("ext", &[r.data_seed(), n])
                    }
                    5 => p.push("drop", &[r.range(0, 9)]),
                    6 => p.push("dup", &[r.range(0, 9)]),
                    7 => p.push("swap", &[r.range(0, 9), r.range(0, 9)]),
                    _ => p.push("zero", &[r.range(0, 9)]),
                }
            }
            p.push("recv1", &[r.range(0, 30)]);
            let cuts = r.range(0, 5);
            let mut v = vec![r.range(0, 2)];
            for _ in 0..cuts {
                v.push(r.range(0, 2 * bs + 1));
            }
            p.push("recv2", &v);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut st0 = None;
        let mut ct: Vec<u8> = vec![];
        let mut stream: Option<Box<dyn Stream>> = None;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            if st.op == "open" {
                let conf = Conf::new(&st.a);
                let tap = CipherTap::new();
                let made = cx.lib("new", || conf.make(&tap))?;
                match made {
                    Ok(o) => {
                        stream = Some(cx.lib("make stream", || o.clone().stream(false))?);
                        let r = conf.refc();
                        st0 = Some((conf, r, o));
                    }
                    Err(_) => return cx.fail("refused", format!("{} refused", conf.name())),
                }
                continue;
            }
            let (conf, refc, obj) = match &mut st0 {
                Some(x) => (&x.0, &x.1, &mut x.2),
                None => continue,
            };
            let bs = conf.bs;
            cx.sched(0, &st.op);
            let blocks = (ct.len() + bs - 1) / bs;
            let span = |k: usize, n: usize| {
                let a = (k % blocks.max(1)) * bs;
                a.min(n)..(a + bs).min(n)
            };
            match st.op.as_ref() {
                "send" => {
                    let n = st.u(1).min(5000);
                    let msg = payload(st.i(0), n);
                    ct = if conf.mode == CTR_ {
                        conf.ctr_xor(refc, 0, &msg)
                    } else {
                        match conf.full(refc, true, &msg) {
                            Some(v) => v,
                            None => conf.full(refc, true, &msg[..n / conf.unit() * conf.unit()]).unwrap(),
                        }
                    };
                }
                "raw" => {
                    let u = conf.unit();
                    let full = st.u(1).min(20) * bs;
                    let mut m = payload(st.i(0), full + bs);
                    let z = st.u(3).min(m.len());
                    let n = m.len();
                    // z zero bytes at the end, then a marker that may be wrong
                    for b in m.iter_mut().skip(n - z) {
                        *b = 0;
                    }
                    if z < n {
                        let mark = [0x80u8, 0x81, 0x01, 0x40, 0xc0, 0x80, 0x00, 0xff, 0x7f, 0x80][st.u(2) % 10];
                        m[n - z - 1] = mark;
                    }
                    if st.u(2) == 6 {
                        for b in m.iter_mut() {
                            *b = 0;
                        }
                    }
                    m.truncate(n / u * u);
                    cx.fault("crafted_ending");
                    ct = if conf.mode == CTR_ { conf.ctr_xor(refc, 0, &m) } else { conf.raw(refc, true, &m) };
                }
                "flip" => {
                    if !ct.is_empty() {
                        let b = st.u(0) % (ct.len() * 8);
                        ct[b / 8] ^= 1 << (b % 8);
                        cx.fault("flip");
                    }
                }
                "fliplast" => {
                    if !ct.is_empty() {
                        let b = st.u(0) % (ct.len() * 8);
                        let n = ct.len();
                        ct[n - 1 - b / 8] ^= 1 << (b % 8);
                        cx.fault("flip");
                    }
                }
                "trunc" => {
                    let n = ct.len().saturating_sub(st.u(0));
                    ct.truncate(n);
                    cx.fault("truncate");
                }
                "ext" => {
                    ct.extend(payload(st.i(0), st.u(1).min(200)));
                    cx.fault("extend");
                }
                "drop" => {
                    let s = span(st.u(0), ct.len());
                    ct.drain(s);
                    cx.fault("drop_block");
                }
                "dup" => {
                    let s = span(st.u(0), ct.len());
                    let b = ct[s.clone()].to_vec();
                    let at = s.end;
                    let t = ct.split_off(at);
                    ct.extend(b);
                    ct.extend(t);
                    cx.fault("duplicate_block");
                }
                "swap" => {
                    let (a, b) = (span(st.u(0), ct.len()), span(st.u(1), ct.len()));
                    if a.len() == b.len() && a != b {
                        let (x, y) = (ct[a.clone()].to_vec(), ct[b.clone()].to_vec());
                        ct[a].copy_from_slice(&y);
                        ct[b].copy_from_slice(&x);
                        cx.fault("swap_blocks");
                    }
                }
                "zero" => {
                    let s = span(st.u(0), ct.len());
                    for b in ct[s].iter_mut() {
                        *b = 0;
                    }
                    cx.fault("zero_block");
                }
                "recv1" => {
                    let junk = payload(77, st.u(0).min(100));
                    let mut dst = junk.clone();
                    if conf.mode == CTR_ {
                        // a fresh object per message: counters are not reused
                        let tap = CipherTap::new();
                        match cx.lib("new", || conf.make(&tap))? {
                            Ok(o) => *obj = o,
                            Err(_) => return cx.fail("refused", "refused the second time"),
                        }
                    }
                    let o = &*obj;
                    let res = cx.lib("one-shot decryption", || o.one(false, &mut dst, &ct))?;
                    cx.event("recv1", &dst);
                    let what = format!("{}: one-shot decryption of {} damaged bytes", conf.name(), ct.len());
                    let want = if conf.mode == CTR_ { Want::Exactly(conf.ctr_xor(refc, 0, &ct)) } else { want_end(conf, refc, false, &ct) };
                    cx.state(&[1, conf.mode as i64, conf.pad as i64, bs as i64, (ct.len() % bs) as i64, matches!(want, Want::Error) as i64, ct.len().min(3 * bs) as i64]);
                    match (res, want) {
                        (Ok(n), Want::Exactly(v)) | (Ok(n), Want::OrError(v)) => {
                            cx.same(&dst, &v, "decryption", || what.clone())?;
                            cx.require(n == v.len(), "reported-length", || format!("{}: reported {} bytes", what, n))?;
                        }
                        (Err(_), Want::Error) | (Err(_), Want::OrError(_)) => cx.probe("refused"),
                        (Ok(_), Want::Error) => return cx.fail("damage-accepted", format!("{} accepted as {}", what, hex(&dst[..dst.len().min(32)]))),
                        (Err(_), Want::Exactly(_)) => return cx.fail("unexpected-error", format!("{} refused although well formed", what)),
                    }
                }
                "recv2" => {
                    let s = stream.as_mut().unwrap();
                    let mut out = vec![9u8; 3];
                    let mut pos = 0;
                    let draw = st.u(0);
                    let mut failed = false;
                    let mut cuts: Vec<usize> = st.a.iter().skip(1).map(|&x| x.max(0) as usize).collect();
                    cuts.push(usize::MAX);
                    for (k, n) in cuts.iter().enumerate() {
                        let n = (*n).min(ct.len() - pos);
                        let d = draw == 2 || (draw == 1 && k % 2 == 0);
                        let o = &mut out;
                        let part = &ct[pos..pos + n];
                        if cx.lib("stream write", || s.write(part, if d { Some(o) } else { None }))?.is_err() {
                            failed = true;
                            break;
                        }
                        pos += n;
                    }
                    let what = format!("{}: stream decryption of {} damaged bytes", conf.name(), ct.len());
                    cx.require(!failed, "unexpected-error", || format!("{}: a write failed", what))?;
                    let o = &mut out;
                    let res = cx.lib("stream finish", || s.finish(Some(o)))?;
                    cx.event("recv2", &out);
                    let want = if conf.mode == CTR_ { Want::Exactly(conf.ctr_xor(refc, 0, &ct)) } else { want_end(conf, refc, false, &ct) };
                    cx.state(&[2, conf.mode as i64, conf.pad as i64, bs as i64, (ct.len() % bs) as i64, matches!(want, Want::Error) as i64, ct.len().min(3 * bs) as i64, draw as i64]);
                    match (res, want) {
                        (Ok(_), Want::Exactly(v)) | (Ok(_), Want::OrError(v)) => cx.same(&out[3..], &v, "decryption", || what.clone())?,
                        (Err(_), Want::Error) | (Err(_), Want::OrError(_)) => {
                            cx.probe("refused");
                            // what was drawn before must still be right
                            if conf.mode != CTR_ {
                                let known = conf.known(refc, false, &ct);
                                let d = &out[3..];
                                cx.require(d.len() <= known.len() && d == &known[..d.len()], "stream-output", || format!("{}: bytes drawn before the refusal", what))?;
                            }
                        }
                        (Ok(_), Want::Error) => return cx.fail("damage-accepted", format!("{} accepted as {}", what, hex(&out[3..out.len().min(35)]))),
                        (Err(_), Want::Exactly(_)) => return cx.fail("unexpected-error", format!("{} refused although well formed", what)),
                    }
                    cx.lib("reset", || s.reset())?;
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = decryptions compared with strict reference decryption; a state is (one-shot or stream, mode, padding, block size, bytes over a whole block, must be refused, length up to 3 blocks, draw-off pattern)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto mode objects and decryption streams", "DefaultPadding, EmptyPadding", "rcrypto AES/DES/TDES/SM4"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["sender (reference encryption) and damaging channel", "fixed IV provider", "toy cipher"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a padding marker that lies before the last block may be refused or removed"]
    }
}
