//! Modes of operation: streams and one-shot objects under scheduled writes, draw-offs, resets,
//! cipher failures and dry counters (C01-C05).

use crate::engine::*;
use crate::refs::block::Block;
use crate::refs::modes as rm;
use crate::scen::modeobj::*;
use crate::seams::CipherTap;
use rcrypto::CryptoError;
use std::cell::Cell;
use std::rc::Rc;

const SLOTS: usize = 6;

/// what the end of a message must give
pub enum Want {
    Exactly(Vec<u8>),
    /// an error is allowed too: the padding marker lies before the last block
    OrError(Vec<u8>),
    Error,
}

pub fn want_end(c: &Conf, r: &Block, enc: bool, data: &[u8]) -> Want {
    match c.full(r, enc, data) {
        None => Want::Error,
        Some(v) => {
            if !enc && c.pad && data.len() - v.len() > c.bs {
                Want::OrError(v)
            } else {
                Want::Exactly(v)
            }
        }
    }
}

struct Sess {
    conf: Conf,
    refc: Block,
    tap: Rc<CipherTap>,
    limit: Option<Rc<Cell<u64>>>,
    stream: Box<dyn Stream>,
    plain: Obj,
    enc: bool,
    queue: Vec<u8>,
    qpos: usize,
    msg: Vec<u8>,
    out: Vec<u8>,
    junk: usize,
    broken: bool,
    /// output of a message whose end failed
    ended: Option<Vec<u8>>,
    messages: i64,
    // counter mode: blocks consumed, output known so far, bytes not yet a whole block
    kidx: u64,
    exp: Vec<u8>,
    tail: Vec<u8>,
    // one-shot object in counter mode
    /// counter positions the one-shot object can be at
    at: Vec<u64>,
}

impl Sess {
    fn ctr(&self) -> bool {
        self.conf.mode == CTR_
    }
    fn lim(&self) -> u64 {
        self.limit.as_ref().map(|l| l.get()).unwrap_or(u64::MAX)
    }
    fn known(&self) -> Vec<u8> {
        if let Some(v) = &self.ended {
            v.clone()
        } else if self.ctr() {
            self.exp.clone()
        } else {
            self.conf.known(&self.refc, self.enc, &self.msg)
        }
    }
    fn drawn(&self) -> &[u8] {
        &self.out[self.junk..]
    }
    fn fresh(&mut self) {
        self.msg.clear();
        self.exp.clear();
        self.tail.clear();
        self.junk = (self.messages as usize * 7) % 23;
        self.out = payload(self.messages * 16 + 9, self.junk);
        self.broken = false;
        self.ended = None;
    }
    fn restart(&mut self) {
        self.queue.clear();
        self.qpos = 0;
        self.kidx = 0;
        self.fresh();
    }
    fn what(&self) -> String {
        format!("{} {} stream, message {}, {} bytes fed", self.conf.name(), if self.enc { "encryption" } else { "decryption" }, self.messages, self.msg.len())
    }
}

fn err_text(e: &CryptoError) -> String {
    format!("{}", e)
}

pub struct Modes {
    pub id: &'static str,
    pub modes: &'static [usize],
}

pub const C01: Modes = Modes { id: "C01", modes: &[ECB_, CBC_, CBC_] };
pub const C02: Modes = Modes { id: "C02", modes: &[CFB_] };
pub const C03: Modes = Modes { id: "C03", modes: &[OFB_] };
pub const C04: Modes = Modes { id: "C04", modes: &[CTR_] };
pub const C05: Modes = Modes { id: "C05", modes: &[ECB_, CBC_, CFB_, OFB_, CTR_] };

fn open(cx: &mut Ctx, enc: bool, a: &[i64]) -> Result<Sess, Violation> {
    let conf = Conf::new(a);
    let tap = CipherTap::new();
    let name = conf.name();
    let mut limit = None;
    let made = {
        let ctr = if conf.mode == CTR_ {
            match cx.lib("counter", || conf.counter())? {
                Ok(c) => {
                    if let Ctr::Sim(s) = &c {
                        limit = Some(s.limit.clone());
                    }
                    Some(c)
                }
                Err(e) => return cx.fail("refused", format!("counter for {} refused: {}", name, err_text(&e))),
            }
        } else {
            None
        };
        let iv = Iv::Sim(crate::seams::SimIv::fixed(conf.iv.clone()));
        cx.lib("new", || conf.make_with(&tap, iv, ctr))?
    };
    let plain = match made {
        Ok(o) => o,
        Err(e) => return cx.fail("refused", format!("{} refused: {}", name, err_text(&e))),
    };
    sess_of(cx, conf, tap, limit, plain, enc)
}

fn sess_of(cx: &mut Ctx, conf: Conf, tap: Rc<CipherTap>, limit: Option<Rc<Cell<u64>>>, plain: Obj, enc: bool) -> Result<Sess, Violation> {
    let stream = cx.lib("clone and make stream", || plain.clone().stream(enc))?;
    sess_with(cx, conf, tap, limit, plain, stream, enc)
}

fn sess_with(cx: &mut Ctx, conf: Conf, tap: Rc<CipherTap>, limit: Option<Rc<Cell<u64>>>, plain: Obj, stream: Box<dyn Stream>, enc: bool) -> Result<Sess, Violation> {
    let bs = conf.bs;
    let b = plain.block_size();
    cx.require(b == Some(bs), "block-size", || format!("block size {:?} reported for blocks of {}", b, bs))?;
    let b = stream.block_size();
    cx.require(b == Some(bs), "block-size", || format!("block size {:?} reported for blocks of {}", b, bs))?;
    let refc = conf.refc();
    let mut s = Sess {
        conf,
        refc,
        tap,
        limit,
        stream,
        plain,
        enc,
        queue: vec![],
        qpos: 0,
        msg: vec![],
        out: vec![],
        junk: 0,
        broken: false,
        ended: None,
        messages: 0,
        kidx: 0,
        exp: vec![],
        tail: vec![],
        at: vec![0],
    };
    s.fresh();
    Ok(s)
}

/// input for a one-shot call or a message: plaintext, or the ciphertext of that plaintext
fn input(c: &Conf, r: &Block, enc: bool, seed: i64, len: usize) -> Vec<u8> {
    let p = payload(seed, len);
    if enc || c.mode == CTR_ {
        return p;
    }
    match c.full(r, true, &p) {
        Some(v) => v,
        None => c.full(r, true, &p[..len / c.unit() * c.unit()]).unwrap(),
    }
}

fn do_write(cx: &mut Ctx, s: &mut Sess, n: usize, draw: bool) -> Check {
    let n = n.min(s.queue.len() - s.qpos);
    if s.broken && n > 0 {
        return Ok(());
    }
    let data = s.queue[s.qpos..s.qpos + n].to_vec();
    s.qpos += n;
    s.msg.extend_from_slice(&data);
    if n == 0 {
        cx.fault("empty_write");
    }
    let mut must_fail = false;
    if s.ctr() && !s.broken {
        s.tail.extend_from_slice(&data);
        let full = s.tail.len() / s.conf.bs;
        let avail = s.lim().saturating_sub(s.kidx).min(full as u64) as usize;
        must_fail = avail < full;
        let take: Vec<u8> = s.tail.drain(..avail * s.conf.bs).collect();
        let x = s.conf.ctr_xor(&s.refc, s.kidx, &take);
        s.exp.extend(x);
        s.kidx += avail as u64;
    }
    let before = s.out.len();
    let failed = s.tap.failed.get();
    let res = {
        let (st, out) = (&mut s.stream, &mut s.out);
        cx.lib("stream write", || st.write(&data, if draw { Some(out) } else { None }))?
    };
    let hit = s.tap.failed.get() - failed;
    cx.faults_n("cipher_error", hit);
    let what = s.what();
    cx.event("wrote", &[n as u8, res.is_ok() as u8]);
    match res {
        Err(e) => {
            if hit == 0 && !must_fail {
                return cx.fail("unexpected-error", format!("{}: write of {} bytes failed: {}", what, n, err_text(&e)));
            }
            cx.require(s.out.len() == before, "output-with-error", || format!("{}: a failed write drew output", what))?;
            if must_fail {
                cx.fault("counter_dry");
            }
            s.broken = true;
        }
        Ok(k) => {
            cx.require(hit == 0, "error-swallowed", || format!("{}: the cipher failed but the write reported success", what))?;
            cx.require(!must_fail, "error-swallowed", || format!("{}: the counter ran dry but the write reported success", what))?;
            if draw {
                let got = s.out.len() - before;
                cx.event("drawn", &s.out[before..]);
                cx.require(k == got, "reported-length", || format!("{}: draw-off reported {} bytes but appended {}", what, k, got))?;
                let known = s.known();
                let d = s.drawn();
                if d.len() > known.len() {
                    return cx.fail("too-much-output", format!("{}: {} bytes drawn, only {} are determined", what, d.len(), known.len()));
                }
                cx.same(d, &known[..d.len()], "stream-output", || format!("{}: bytes drawn so far", what))?;
                if !s.broken {
                    let lag = s.msg.len() as i64 - d.len() as i64;
                    let bs = s.conf.bs as i64;
                    cx.require(lag <= 2 * bs, "held-back", || format!("{}: {} bytes held back", what, lag))?;
                    cx.state(&[1, s.conf.mode as i64, s.enc as i64, bs, s.conf.pad as i64, s.conf.s as i64, s.msg.len() as i64 % bs, lag, s.messages.min(2)]);
                } else {
                    cx.probe("drawn_after_failure");
                }
            }
        }
    }
    Ok(())
}

fn do_finish(cx: &mut Ctx, s: &mut Sess, draw: bool) -> Check {
    if s.broken {
        return Ok(());
    }
    let mut want = if s.ctr() {
        if s.tail.is_empty() {
            Want::Exactly(s.exp.clone())
        } else if s.kidx >= s.lim() {
            cx.fault("counter_dry");
            Want::Error
        } else {
            let mut e = s.exp.clone();
            e.extend(s.conf.ctr_xor(&s.refc, s.kidx, &s.tail));
            s.kidx += 1;
            Want::Exactly(e)
        }
    } else {
        want_end(&s.conf, &s.refc, s.enc, &s.msg)
    };
    let before = s.out.len();
    let failed = s.tap.failed.get();
    let res = {
        let (st, out) = (&mut s.stream, &mut s.out);
        cx.lib("stream finish", || st.finish(if draw { Some(out) } else { None }))?
    };
    let hit = s.tap.failed.get() - failed;
    cx.faults_n("cipher_error", hit);
    cx.event("finished", &[res.is_ok() as u8]);
    let what = s.what();
    if hit > 0 {
        s.ended = match want {
            Want::Exactly(v) if s.enc || s.ctr() => Some(v),
            _ => None,
        };
        want = Want::Error;
    }
    match (res, want) {
        (Err(_), Want::Error) | (Err(_), Want::OrError(_)) => {
            cx.require(s.out.len() == before, "output-with-error", || format!("{}: a failed finish drew output", what))?;
            if hit == 0 {
                cx.fault("end_of_message_refused");
            }
            s.broken = true;
        }
        (Err(e), _) => return cx.fail("unexpected-error", format!("{}: finish failed: {}", what, err_text(&e))),
        (Ok(_), Want::Error) => {
            let c = if hit > 0 { "error-swallowed" } else { "bad-end-accepted" };
            return cx.fail(c, format!("{}: finish reported success", what));
        }
        (Ok(k), Want::Exactly(v)) | (Ok(k), Want::OrError(v)) => {
            if draw {
                let got = s.out.len() - before;
                cx.event("drawn", &s.out[before..]);
                cx.require(k == got, "reported-length", || format!("{}: draw-off reported {} bytes but appended {}", what, k, got))?;
                cx.same(s.drawn(), &v, "stream-output", || format!("{}: whole output", what))?;
                let mlen = s.msg.len() as i64;
                cx.state(&[2, s.conf.mode as i64, s.enc as i64, s.conf.bs as i64, s.conf.pad as i64, s.conf.s as i64, mlen % s.conf.bs as i64, (mlen == 0) as i64, s.messages.min(2)]);
                cx.probe("message_completed");
            } else {
                cx.fault("finish_without_draw_off");
                let d = s.drawn();
                if d.len() > v.len() {
                    return cx.fail("too-much-output", format!("{}: {} bytes drawn of {}", what, d.len(), v.len()));
                }
                cx.same(d, &v[..d.len()], "stream-output", || format!("{}: bytes drawn before an undrawn finish", what))?;
            }
            s.messages += 1;
            if s.qpos >= s.queue.len() {
                s.queue.clear();
                s.qpos = 0;
            }
            s.fresh();
        }
    }
    Ok(())
}

fn do_one(cx: &mut Ctx, s: &mut Sess, enc: bool, seed: i64, len: usize, on_stream: bool, raw: bool) -> Check {
    let data = if raw { payload(seed, len) } else { input(&s.conf, &s.refc, enc, seed, len) };
    let need = ((data.len() + s.conf.bs - 1) / s.conf.bs) as u64;
    if s.ctr() && on_stream && (s.broken || !s.tail.is_empty()) {
        return Ok(());
    }
    let junk = payload(seed + 5, (seed.max(0) as usize / 8) % 40);
    let mut dst = junk.clone();
    let failed = s.tap.failed.get();
    let res = if on_stream {
        let st = &s.stream;
        cx.lib("one-shot call on a stream", || st.one(enc, &mut dst, &data))?
    } else {
        let o = &s.plain;
        cx.lib("one-shot call", || o.one(enc, &mut dst, &data))?
    };
    let hit = s.tap.failed.get() - failed;
    cx.faults_n("cipher_error", hit);
    if on_stream && !s.msg.is_empty() {
        cx.fault("one_shot_during_stream");
    }
    cx.event("one", &dst);
    let dir = if enc { "encryption" } else { "decryption" };
    let what = format!("{} one-shot {} of {} bytes", s.conf.name(), dir, data.len());
    // where the counter stands
    let at = if on_stream { vec![s.kidx] } else { s.at.clone() };
    let lim = s.lim();
    match res {
        Err(e) => {
            let allowed = if s.ctr() {
                let dry = at[at.len() - 1] + need > lim;
                if dry {
                    cx.fault("counter_dry");
                }
                hit > 0 || dry
            } else {
                hit > 0 || s.conf.full(&s.refc, enc, &data).is_none()
            };
            if !allowed {
                return cx.fail("unexpected-error", format!("{} failed: {}", what, err_text(&e)));
            }
            if !s.ctr() {
                let known = s.conf.known(&s.refc, enc, &data);
                let mut all = known.clone();
                if let (true, Some(v)) = (enc, s.conf.full(&s.refc, enc, &data)) {
                    all = v;
                }
                let ok = dst == junk || (dst.len() <= all.len() && dst[..] == all[..dst.len()]);
                cx.require(ok, "output-with-error", || format!("{} failed and left {} bytes that are not a prefix of the correct output", what, dst.len()))?;
            } else if on_stream {
                s.broken = true;
            } else {
                // a failed call may have used any number of counter values up to what it needed
                s.at = (at[0]..=at[at.len() - 1] + need).filter(|k| at.iter().any(|a| a <= k && *k <= a + need)).collect();
            }
        }
        Ok(n) => {
            cx.require(hit == 0, "error-swallowed", || format!("{}: the cipher failed but the call reported success", what))?;
            let got = dst.len();
            cx.require(n == got, "reported-length", || format!("{}: reported {} bytes, produced {}", what, n, got))?;
            if s.ctr() {
                cx.require(need == 0 || at[0] + need <= lim, "error-swallowed", || format!("{}: the counter ran dry but the call reported success", what))?;
                // short outputs can agree with several positions; all of them stay possible
                let left: Vec<u64> = at.iter().copied().filter(|&k| s.conf.ctr_xor(&s.refc, k, &data) == dst).map(|k| k + need).collect();
                if left.is_empty() {
                    let w = s.conf.ctr_xor(&s.refc, at[0], &data);
                    return cx.same(&dst, &w, "one-shot-output", || format!("{} from counter block {}", what, at[0]));
                }
                if on_stream {
                    s.kidx = left[0];
                } else {
                    s.at = left;
                }
                cx.checks += 1;
            } else {
                match s.conf.full(&s.refc, enc, &data) {
                    None => return cx.fail("bad-end-accepted", format!("{} accepted", what)),
                    Some(v) => cx.same(&dst, &v, "one-shot-output", || what.clone())?,
                }
            }
            cx.state(&[3, s.conf.mode as i64, enc as i64, s.conf.bs as i64, s.conf.pad as i64, s.conf.s as i64, (data.len() % s.conf.bs) as i64, on_stream as i64]);
        }
    }
    Ok(())
}

impl Modes {
    fn gen_session(&self, p: &mut Plan, r: &mut Rng, slot: i64, modes: &[usize], shared: Option<&[i64]>) -> (i64, i64) {
        let a = match shared {
            Some(a) => a.to_vec(),
            None => {
                let m = *r.pick(modes);
                conf_args(r, m)
            }
        };
        let dir = r.range(0, 1);
        let mut v = vec![slot, dir];
        v.extend(&a);
        p.push("open", &v);
        let c = Conf::new(&a);
        (c.bs as i64, c.s as i64)
    }
    fn chunk(r: &mut Rng, bs: i64) -> i64 {
        match r.below(8) {
            0 => 0,
            1 => 1,
            2 => bs,
            3 => bs - 1,
            4 => bs + 1,
            5 => r.range(1, bs),
            6 => bs * r.range(1, 3) + r.range(-1, 1),
            _ => r.range(0, 3 * bs),
        }
    }
}

impl Scenario for Modes {
    fn id(&self) -> &'static str {
        self.id
    }
    fn kinds(&self) -> Vec<RunKind> {
        let mut v = vec![
            RunKind { name: "fault-free", quick: 20000, thorough: 200000 },
            RunKind { name: "scheduled", quick: 60000, thorough: 600000 },
            RunKind { name: "long", quick: 300, thorough: 3000 },
        ];
        if self.id == "C05" {
            v.push(RunKind { name: "every-call-index", quick: 5 * 2 * 2 * 2 * 40 * 8, thorough: 5 * 2 * 2 * 2 * 40 * 8 * 6 });
        } else {
            v.push(RunKind { name: "every-length-and-cut", quick: 20000, thorough: 200000 });
        }
        v.push(RunKind { name: "long-life", quick: 400, thorough: 4000 });
        v
    }
    fn gen_indexed(&self, kind: usize, idx: u64, r: &mut Rng, tier: Tier) -> Plan {
        if kind != 3 {
            return self.gen(kind, r, tier);
        }
        let mut p = Plan::default();
        let mut i = idx as i64;
        let mut take = |n: i64| {
            let v = i % n;
            i /= n;
            v
        };
        if self.id == "C05" {
            let mode = take(5);
            let dir = take(2);
            let on_stream = take(2);
            let pad = take(2);
            let len_class = take(8);
            let fail_at = take(5);
            let style = take(3);
            let mut a = conf_args(r, mode as usize);
            a[1] = take(2) * 3 + 3 * (r.below(2) as i64);
            a[4] = pad;
            let c = Conf::new(&a);
            let bs = c.bs as i64;
            let len = [0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs - 1, 4 * bs][len_class as usize];
            let mut v = vec![0, dir];
            v.extend(&a);
            p.push("open", &v);
            let calls_per = if mode == 2 { bs / c.s as i64 } else { 1 };
            let at = fail_at * calls_per + r.range(0, calls_per - 1);
            p.push("arm", &[0, at, 1 + r.range(0, 1) * r.range(0, 5), style]);
            let seed = r.data_seed();
            if on_stream == 1 {
                p.push("msg", &[0, seed, len]);
                for _ in 0..r.range(1, 4) {
                    p.push("w", &[0, Self::chunk(r, bs), r.range(0, 1)]);
                }
                p.push("w", &[0, 1 << 20, 1]);
                p.push("fin", &[0, 1]);
                p.push("w", &[0, 0, 1]);
                p.push("disarm", &[0]);
                p.push("rst", &[0]);
                p.push("msg", &[0, r.data_seed(), r.range(0, 4 * bs)]);
                p.push("w", &[0, Self::chunk(r, bs), r.range(0, 1)]);
                p.push("w", &[0, 1 << 20, r.range(0, 1)]);
                p.push("fin", &[0, 1]);
            } else {
                p.push("one", &[0, 1 - dir, seed, len, 0, 0]);
                p.push("one", &[0, 1 - dir, seed, len, 0, 0]);
                p.push("disarm", &[0]);
                p.push("one", &[0, 1 - dir, r.data_seed(), r.range(0, 3 * bs), 0, 0]);
                p.push("one", &[0, dir, r.data_seed(), r.range(0, 3 * bs), 0, 0]);
            }
            return p;
        }
        // one message of every small length, cut in two at every place
        let m = *r.pick(self.modes);
        let mut a = conf_args(r, m);
        let sel = take(4);
        a[1] = [0, 3, 6, 5][sel as usize];
        let c = Conf::new(&a);
        let bs = c.bs as i64;
        let len = take(3 * bs + 1);
        let cut = if len == 0 { 0 } else { r.range(0, len) };
        let dir = r.range(0, 1);
        let mut v = vec![0, dir];
        v.extend(&a);
        p.push("open", &v);
        let draw = r.range(0, 3);
        for _ in 0..2 {
            p.push("msg", &[0, r.data_seed(), len]);
            p.push("w", &[0, cut, draw & 1]);
            p.push("w", &[0, 1 << 20, draw >> 1]);
            p.push("fin", &[0, 1]);
        }
        p.push("one", &[0, 0, r.data_seed(), len, 0, 0]);
        p.push("one", &[0, 1, r.data_seed(), len, 1, 0]);
        p
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let n = if kind == 1 { r.range(1, 4) } else { 1 };
        let mut bss = vec![];
        let m0 = *r.pick(self.modes);
        let shared = conf_args(r, m0);
        let share = r.chance(1, 3);
        for s in 0..n {
            let sh = if share && r.chance(2, 3) { Some(&shared[..]) } else { None };
            bss.push(self.gen_session(&mut p, r, s, self.modes, sh));
        }
        if kind == 4 {
            let bs = bss[0].0;
            let fails = if self.id == "C05" { r.range(0, 6) } else { 0 };
            for _ in 0..r.range(40, 300) {
                if fails > 0 && r.chance(fails as u64, 40) {
                    p.push("arm", &[0, r.range(0, 9), r.range(1, 3), r.range(0, 2)]);
                    p.push("msg", &[0, r.data_seed(), biased_len(r, bs, 6)]);
                    p.push("w", &[0, Self::chunk(r, bs), r.range(0, 1)]);
                    p.push("fin", &[0, 1]);
                    p.push("disarm", &[0]);
                    p.push("rst", &[0]);
                }
                p.push("msg", &[0, r.data_seed(), biased_len(r, bs, 6)]);
                for _ in 0..r.range(0, 2) {
                    p.push("w", &[0, Self::chunk(r, bs), r.range(0, 1)]);
                }
                p.push("w", &[0, 1 << 20, r.range(0, 1)]);
                p.push("fin", &[0, 1]);
                if r.chance(1, 8) {
                    p.push("one", &[0, r.range(0, 1), r.data_seed(), biased_len(r, bs, 4), 0, 0]);
                }
            }
            return p;
        }
        let faulty = kind == 1;
        let msgs = if kind == 2 { r.range(1, 2) } else { r.range(1, 3) };
        if kind != 1 {
            let bs = bss[0].0;
            for _ in 0..msgs {
                let len = if kind == 2 { r.range(500, 70000) } else { biased_len(r, bs, 10) };
                p.push("msg", &[0, r.data_seed(), len]);
                if kind == 2 {
                    for _ in 0..r.range(0, 6) {
                        p.push("w", &[0, r.range(0, 20000), r.range(0, 1)]);
                    }
                } else {
                    for _ in 0..r.range(0, 8) {
                        p.push("w", &[0, Self::chunk(r, bs), 1]);
                    }
                }
                p.push("w", &[0, 1 << 20, 1]);
                p.push("fin", &[0, 1]);
            }
            p.push("one", &[0, 0, r.data_seed(), if kind == 2 { r.range(500, 70000) } else { biased_len(r, bs, 10) }, 0, 0]);
            p.push("one", &[0, 1, r.data_seed(), biased_len(r, bs, 10), 0, 0]);
            return p;
        }
        let steps = r.range(6, 40);
        // swarm: which perturbations this run uses
        let use_one = r.chance(1, 2);
        let use_rst = r.chance(1, 2);
        let use_clone = r.chance(1, 3);
        let use_dry = self.id == "C04" && r.chance(1, 2);
        let use_arm = self.id == "C05";
        let draw_bias = r.range(0, 4) as u64;
        for _ in 0..steps {
            let s = r.range(0, n - 1);
            let (bs, _) = bss[s as usize];
            let draw = r.chance(draw_bias, 4) as i64;
            match r.below(16) {
                0 | 1 | 2 => p.push("msg", &[s, r.data_seed(), biased_len(r, bs, 6)]),
                3 | 4 | 5 | 6 | 7 => p.push("w", &[s, Self::chunk(r, bs), draw]),
                8 => {
                    p.push("w", &[s, 1 << 20, draw]);
                    p.push("fin", &[s, r.chance(7, 8) as i64]);
                }
                9 => p.push("fin", &[s, r.chance(7, 8) as i64]),
                10 if use_rst => p.push("rst", &[s]),
                11 | 12 if use_one => p.push("one", &[s, r.range(0, 1), r.data_seed(), biased_len(r, bs, 4), r.range(0, 1), r.chance(1, 8) as i64]),
                10 if use_one => p.push("turn", &[s, r.range(0, 1)]),
                13 if use_clone => p.push("clone", &[s, r.range(0, n), r.range(0, 1)]),
                14 if use_dry => p.push("dry", &[s, r.range(0, 6)]),
                14 if use_arm => p.push("arm", &[s, r.range(0, 8), r.range(1, 3), r.range(0, 2)]),
                15 if use_dry => p.push("refill", &[s]),
                15 if self.id == "C04" => p.push("setctr", &[s, r.data_seed(), r.range(0, 1 << 12), r.range(0, 2)]),
                15 if use_arm => {
                    p.push("disarm", &[s]);
                    p.push("rst", &[s]);
                }
                _ => p.push("w", &[s, Self::chunk(r, bs), draw]),
            }
        }
        for s in 0..n {
            // faults stop; every session must finish a message correctly after reset
            if faulty {
                p.push("disarm", &[s]);
                p.push("refill", &[s]);
            }
            if r.chance(1, 2) {
                p.push("rst", &[s]);
            }
            p.push("msg", &[s, r.data_seed(), biased_len(r, bss[s as usize].0, 4)]);
            p.push("w", &[s, 1 << 20, 1]);
            p.push("fin", &[s, 1]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut ss: Vec<Option<Sess>> = (0..SLOTS).map(|_| None).collect();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let slot = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "open" => {
                    let mut a = st.a.get(2..).map(|x| x.to_vec()).unwrap_or_default();
                    a.resize(8, 0);
                    if !self.modes.contains(&(a[0].rem_euclid(5) as usize)) {
                        a[0] = self.modes[0] as i64;
                    }
                    cx.sched(slot, "open");
                    let s = open(cx, st.u(1) & 1 == 0, &a)?;
                    cx.state(&[0, s.conf.mode as i64, s.conf.cipher as i64, s.conf.pad as i64, s.conf.s as i64, s.enc as i64]);
                    ss[slot] = Some(s);
                    continue;
                }
                "clone" => {
                    let d = st.u(1) % SLOTS;
                    if d == slot {
                        continue;
                    }
                    let made = match &ss[slot] {
                        Some(s) if !(s.ctr() && s.at != [0]) => {
                            cx.sched(slot, "clone");
                            cx.fault("object_cloned");
                            let c = cx.lib("clone", || s.plain.clone())?;
                            let enc = st.u(2) & 1 == 0;
                            Some(sess_of(cx, s.conf.clone(), s.tap.clone(), s.limit.clone(), c, enc)?)
                        }
                        _ => None,
                    };
                    if made.is_some() {
                        ss[d] = made;
                    }
                    continue;
                }
                _ => {}
            }
            let s = match ss[slot].as_mut() {
                Some(s) => s,
                None => continue,
            };
            cx.sched(slot, &st.op);
            match st.op.as_ref() {
                "msg" => {
                    if s.queue.len() > 200000 {
                        continue;
                    }
                    let v = input(&s.conf, &s.refc, s.enc, st.i(1), st.u(2).min(100000));
                    s.queue.extend(v);
                }
                "w" => do_write(cx, s, st.u(1), st.u(2) == 1)?,
                "fin" => do_finish(cx, s, st.u(1) == 1)?,
                "rst" => {
                    if !s.msg.is_empty() {
                        cx.fault("reset_mid_message");
                    }
                    if s.broken {
                        cx.probe("reset_after_failure");
                    }
                    let o = &mut s.stream;
                    cx.lib("reset", || o.reset())?;
                    s.restart();
                }
                "one" => do_one(cx, s, st.u(1) & 1 == 0, st.i(2), st.u(3).min(100000), st.u(4) == 1, st.u(5) == 1)?,
                "turn" => {
                    // the one-shot object itself, used or not, becomes the stream; a new one takes its place
                    let conf = s.conf.clone();
                    let tap = s.tap.clone();
                    let ctr = match &s.limit {
                        Some(l) => {
                            let mut c = crate::seams::SimCounter::new(conf.iv.clone());
                            c.limit = l.clone();
                            Some(Ctr::Sim(c))
                        }
                        None if conf.mode == CTR_ => match cx.lib("counter", || conf.counter())? {
                            Ok(c) => Some(c),
                            Err(e) => return cx.fail("refused", err_text(&e)),
                        },
                        None => None,
                    };
                    let iv = Iv::Sim(crate::seams::SimIv::fixed(conf.iv.clone()));
                    let new = match cx.lib("new", || conf.make_with(&tap, iv, ctr))? {
                        Ok(o) => o,
                        Err(e) => return cx.fail("refused", err_text(&e)),
                    };
                    let enc = st.u(1) & 1 == 0;
                    let used = std::mem::replace(&mut s.plain, new);
                    let stream = cx.lib("make stream", || used.stream(enc))?;
                    cx.fault("used_object_turned_into_stream");
                    let new = std::mem::replace(&mut s.plain, Obj::Ecb(rcrypto::cipher_mode::ECB::new(conf.tapped(&tap), Pad::None(rcrypto::cipher_mode::EmptyPadding::new()))));
                    let limit = s.limit.clone();
                    *s = sess_with(cx, conf, tap, limit, new, stream, enc)?;
                }
                "arm" => s.tap.arm(st.u(1) as u64, st.u(2) as u64, st.u(3) as u8 % 3),
                "disarm" => s.tap.disarm(),
                "dry" => {
                    if let Some(l) = &s.limit {
                        l.set(s.kidx.max(s.at[s.at.len() - 1]) + st.u(1) as u64);
                    }
                }
                "refill" => {
                    if let Some(l) = &s.limit {
                        l.set(u64::MAX);
                    }
                }
                "setctr" => {
                    if !s.ctr() {
                        continue;
                    }
                    let mut conf = s.conf.clone();
                    if st.u(3) == 0 {
                        // too short: must be refused and change nothing
                        let w = st.u(2) % conf.bs;
                        cx.fault("counter_too_short");
                        let long = cx.lib("counter", || rcrypto::cipher_mode::DefaultCounter::new(payload(st.i(1), w + 1 + st.u(2) / 64 % 3), w * 8))?;
                        cx.require(long.is_err(), "short-counter-accepted", || format!("a counter of {} bytes accepted a longer initial value", w))?;
                        let made = cx.lib("counter", || rcrypto::cipher_mode::DefaultCounter::new(payload(st.i(1), w), w * 8))?;
                        if let Ok(c) = made {
                            let c2 = c.clone();
                            let o = &mut s.plain;
                            let e = cx.lib("set_counter", || o.set_counter(Ctr::Def(c)))?.is_err();
                            cx.require(e, "short-counter-accepted", || format!("counter of {} bytes accepted for blocks of {}", w, conf.bs))?;
                            let t = conf.tapped(&s.tap);
                            let e = cx.lib("CTR::new", || rcrypto::cipher_mode::CTR::new(t, c2).is_err())?;
                            cx.require(e, "short-counter-accepted", || format!("counter of {} bytes accepted for blocks of {}", w, conf.bs))?;
                        }
                    } else {
                        let a = [CTR_ as i64, conf.cipher as i64, conf.seed, conf.w, 0, 0, st.i(1), st.i(2) & !1];
                        conf = Conf::new(&a);
                        conf.sim = false;
                        if let Ok(c) = cx.lib("counter", || conf.counter())? {
                            let o = &mut s.plain;
                            if let Err(e) = cx.lib("set_counter", || o.set_counter(c))? {
                                return cx.fail("refused", format!("set_counter for {} refused: {}", conf.name(), err_text(&e)));
                            }
                            cx.fault("counter_replaced");
                            // the one-shot object now differs from the stream: reopen the stream
                            let tap = s.tap.clone();
                            let plain = std::mem::replace(&mut s.plain, match cx.lib("new", || conf.make(&tap))? {
                                Ok(o) => o,
                                Err(e) => return cx.fail("refused", err_text(&e)),
                            });
                            let enc = s.enc;
                            let fresh = sess_of(cx, conf, tap, None, plain, enc)?;
                            *s = fresh;
                        }
                    }
                }
                _ => {}
            }
        }
        let _ = rm::xor_bytes;
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = outputs, prefixes, lengths and refusals compared with the model; a state is (operation, mode, direction, block size, padding, segment, bytes into the current block, bytes held back, message number up to 2)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto mode objects and streams", "rcrypto AES/DES/TDES/SM4", "DefaultPadding, EmptyPadding, DefaultCounter"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["fault layer in front of the cipher", "fixed IV provider", "counter that can run dry", "toy cipher with block sizes 1..32", "caller sessions"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["after an error a stream is only drawn from or reset, not written to", "one-shot calls on a CTR stream happen between blocks only"]
    }
}
