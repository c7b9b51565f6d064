//! Sessions of objects with hidden mutable state: Keccak sponges (D04), ZUC and 128-EEA3 (Z01),
//! block ciphers (B01).

use crate::engine::*;
use crate::refs::block::BlockRef;
use crate::refs::{keccak, zuc};
use crate::scen::ciph;
use rcrypto::{Cipher, Keccak, KeccakSponge, ZUCCipher, AES, SM4, ZUC};

const WIDTHS: [usize; 7] = [25, 50, 100, 200, 400, 800, 1600];
const SLOTS: usize = 8;

fn slots<T>() -> Vec<Option<T>> {
    (0..SLOTS).map(|_| None).collect()
}

// ---------------------------------------------------------------- D04

pub struct D04;

struct SpongeM {
    obj: KeccakSponge,
    l: u32,
    nr: u32,
    rate: usize,
    calls: i64,
}

impl Scenario for D04 {
    fn id(&self) -> &'static str {
        "D04"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 6000, thorough: 60000 },
            RunKind { name: "faulty", quick: 12000, thorough: 120000 },
            RunKind { name: "every-width-and-rate", quick: 3168, thorough: 3168 },
        ]
    }
    fn gen_indexed(&self, kind: usize, idx: u64, r: &mut Rng, tier: Tier) -> Plan {
        if kind != 2 {
            return self.gen(kind, r, tier);
        }
        // enumerate (width, rate) pairs, all valid ones and the invalid neighbours
        let mut p = Plan::default();
        let idx = if tier == Tier::Quick { (idx * 4 + r.below(4)) % 3168 } else { idx };
        let mut i = idx as i64;
        for (wi, &w) in WIDTHS.iter().enumerate() {
            let n = w as i64 - 1;
            if i < n {
                let rate = i + 1;
                p.push("k", &[0, wi as i64, 12 + 2 * wi as i64]);
                p.push("sp", &[0, 0, rate, 0]);
                for _ in 0..2 {
                    let bits = if rate < 16 { r.range(0, 24) } else { r.range(0, rate.min(400) * 2) };
                    let want = if rate < 16 { r.range(0, 40) } else { r.range(0, rate.min(400) * 2 + 9) };
                    p.push("call", &[0, r.data_seed(), bits, want, 1]);
                    p.push("near", &[0, r.data_seed(), r.range(0, 3), r.range(-3, 1), r.range(1, 4), r.range(-2, 2), 0]);
                }
                p.push("bad", &[0, r.range(0, 3), r.range(0, 70)]);
                return p;
            }
            i -= n;
        }
        p
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let wi0 = r.range(0, 6);
        let n = r.range(1, 3);
        for s in 0..n {
            let wi = if r.chance(2, 3) { wi0 } else { r.range(0, 6) };
            let std = 12 + 2 * wi;
            let nr = match r.below(6) {
                0 => r.range(0, std),
                1 => r.range(1, 4),
                2 => std + r.range(1, 30),
                3 if r.chance(1, 4) => r.range(std, 400),
                _ => std,
            };
            p.push("k", &[s, wi, nr]);
        }
        let steps = r.range(3, 14);
        for _ in 0..steps {
            let s = r.range(0, n - 1);
            let d = r.range(0, 3);
            match r.below(if kind == 0 { 6 } else { 10 }) {
                0 | 1 => {
                    let w = 1600;
                    p.push("sp", &[s, d, r.range(1, w), r.range(0, 1)])
                }
                6 => p.push("perm", &[s, r.data_seed(), r.range(0, 260)]),
                7 => p.push("clone", &[d, r.range(0, 3)]),
                8 => p.push("bad", &[s, r.range(0, 3), r.range(0, 2000)]),
                9 => p.push("kclone", &[s, r.range(0, n - 1)]),
                5 => p.push("near", &[d, r.data_seed(), r.range(0, 3), r.range(-3, 1), r.range(0, 4), r.range(-2, 2), r.range(0, 3)]),
                _ => {
                    let bits = match r.below(4) {
                        0 => 0,
                        1 => r.range(1, 16),
                        2 => r.range(0, 200),
                        _ => r.range(0, 2000),
                    };
                    let want = match r.below(4) {
                        0 => r.range(0, 9),
                        1 => 8 * r.range(0, 20),
                        _ => r.range(0, 400),
                    };
                    p.push("call", &[d, r.data_seed(), bits, want, r.range(0, 3)])
                }
            }
        }
        for d in 0..4 {
            p.push("call", &[d, r.data_seed(), r.range(0, 60), r.range(1, 60), 0]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut ks: Vec<Option<(Keccak, u32, u32)>> = slots();
        let mut sp: Vec<Option<SpongeM>> = slots();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "k" => {
                    let l = st.u(1).min(6);
                    let nr = st.u(2).min(400) as u32;
                    cx.sched(s, "k");
                    let k = cx.lib("Keccak::new", || Keccak::new(WIDTHS[l], nr))?;
                    match k {
                        Ok(k) => {
                            let w = k.widths();
                            cx.require(w == WIDTHS[l], "width", || format!("width {} reported as {}", WIDTHS[l], w))?;
                            ks[s] = Some((k, l as u32, nr));
                        }
                        Err(_) => return cx.fail("refused", format!("width {} refused", WIDTHS[l])),
                    }
                }
                "sp" => {
                    let d = st.u(1) % SLOTS;
                    if let Some((k, l, nr)) = &ks[s] {
                        let w = WIDTHS[*l as usize];
                        let rate = 1 + (st.u(2).max(1) - 1) % (w - 1);
                        // tiny rates make long runs; keep the work bounded
                        cx.sched(s, "sp");
                        let r = if st.u(3) == 0 { cx.lib("sponge", || k.sponge(rate))? } else { cx.lib("sponge", || KeccakSponge::new(k.clone(), rate))? };
                        match r {
                            Ok(obj) => sp[d] = Some(SpongeM { obj, l: *l, nr: *nr, rate, calls: 0 }),
                            Err(_) => return cx.fail("refused", format!("rate {} of width {} refused", rate, w)),
                        }
                    }
                }
                "bad" => {
                    if let Some((k, l, _)) = &ks[s] {
                        let w = WIDTHS[*l as usize];
                        let rate = match st.u(1) {
                            0 => 0,
                            1 => w,
                            2 => w + 1,
                            _ => w + st.u(2).min(100000),
                        };
                        cx.fault("invalid_rate");
                        let ok = cx.lib("sponge", || k.sponge(rate).is_ok())?;
                        cx.event("bad", &[ok as u8]);
                        cx.require(!ok, "bad-rate-accepted", || format!("rate {} accepted for width {}", rate, w))?;
                    }
                }
                "perm" => {
                    // unrelated use of the permutation the sponges were made from
                    if let Some((k, l, nr)) = ks[s].as_mut() {
                        let data = payload(st.i(1), st.u(2).min(300));
                        let mut out = payload(st.i(1) + 5, st.u(2) % 7);
                        cx.sched(s, "perm");
                        let need = (k.widths() + 7) / 8;
                        let r = cx.lib("permutation", || k.permutation(&data, &mut out))?;
                        if data.len() < need {
                            cx.fault("short_permutation_input");
                            cx.require(r.is_err(), "short-input-accepted", || "permutation accepted too little input".into())?;
                        } else {
                            let exp = keccak::to_bytes(&keccak::permute(*l, *nr, &keccak::to_bits(&data)));
                            cx.require(matches!(r, Ok(n) if n == k.widths()), "permutation-length", || format!("permutation of width {} reports another length", k.widths()))?;
                            cx.same(&out, &exp, "permutation", || format!("permutation of width {} with {} rounds", k.widths(), nr))?;
                        }
                        cx.fault("permutation_used_between_calls");
                        cx.event("perm", &out);
                    }
                }
                "kclone" => {
                    let d = st.u(1) % SLOTS;
                    if d != s {
                        if let Some((k, l, nr)) = &ks[s] {
                            let c = (k.clone(), *l, *nr);
                            cx.sched(s, "kclone");
                            ks[d] = Some(c);
                        }
                    }
                }
                "clone" => {
                    let d = st.u(1) % SLOTS;
                    if d != s {
                        if let Some(m) = &sp[s] {
                            let c = SpongeM { obj: m.obj.clone(), l: m.l, nr: m.nr, rate: m.rate, calls: m.calls };
                            cx.sched(s, "clone");
                            cx.fault("sponge_cloned");
                            sp[d] = Some(c);
                        }
                    }
                }
                "call" | "near" => {
                    if let Some(m) = sp[s].as_mut() {
                        let cap = m.rate * 40 + 8;
                        let (bits, want, extra) = if st.op == "call" {
                            (st.u(2).min(cap).min(4000), st.u(3).min(cap).min(4000), st.u(4).min(8))
                        } else {
                            // lengths around multiples of the rate
                            let at = |k: usize, d: i64| (k.min(4) as i64 * m.rate as i64 + d).clamp(0, 7000) as usize;
                            (at(st.u(2), st.i(3)), at(st.u(4), st.i(5)), st.u(6).min(8))
                        };
                        let data = payload(st.i(1), (bits + 7) / 8 + extra);
                        let mut out = payload(st.i(1) + 7, extra * 3 % 40);
                        cx.sched(s, "call");
                        let o = &mut m.obj;
                        cx.lib("sponge call", || o.sponge(&data, bits, want, &mut out))?;
                        cx.event("out", &out);
                        let all = keccak::to_bits(&data);
                        let exp = keccak::to_bytes(&keccak::sponge(m.l, m.nr, m.rate, &all[..bits], want));
                        let (l, nr, rate, calls) = (m.l, m.nr, m.rate, m.calls);
                        if calls > 0 {
                            cx.probe("object_reused");
                        }
                        cx.same(&out, &exp, "sponge", || format!("sponge of {} bits, width {}, {} rounds, rate {}, {} bits wanted, call {}", bits, WIDTHS[l as usize], nr, rate, want, calls))?;
                        m.calls += 1;
                        cx.state(&[l as i64, nr as i64, rate as i64, m.calls.min(2), (bits % rate == rate - 1) as i64, (want > rate) as i64]);
                        // a lie-in-wait: permutation count parity of the previous call
                        if (bits / rate + want / rate) % 2 == 1 {
                            cx.probe("odd_number_of_permutations");
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = sponge outputs compared with the reference (plus refusals checked); a state is (width, rounds, rate, call number on the object up to 2, padding spills into an extra block, several output blocks)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto Keccak and KeccakSponge"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller sessions"]
    }
}

// ---------------------------------------------------------------- Z01

pub struct Z01;

struct ZM {
    obj: ZUC,
    key: Vec<u8>,
    iv: Vec<u8>,
    pos: usize,
}
struct EM {
    obj: ZUCCipher,
    stream: Vec<u8>,
    key: [u8; 16],
    iv: [u8; 16],
    pos: usize,
    cut: Vec<u8>,
}

impl EM {
    fn xor(&mut self, d: &[u8]) -> Vec<u8> {
        let need = self.pos + d.len();
        if self.stream.len() < need {
            self.stream = zuc::stream_bytes(&self.key, &self.iv, need + 256);
        }
        let v = d.iter().zip(&self.stream[self.pos..]).map(|(a, b)| a ^ b).collect();
        self.pos = need;
        v
    }
}

fn sz(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => 0,
        1 => r.range(1, 3),
        2 => 4 * r.range(1, 6),
        3 => r.range(1, 9),
        4 => r.range(0, 70),
        _ => 4 * r.range(1, 6) + r.range(-1, 1),
    }
}

impl Scenario for Z01 {
    fn id(&self) -> &'static str {
        "Z01"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 50000, thorough: 500000 },
            RunKind { name: "faulty", quick: 120000, thorough: 1200000 },
            RunKind { name: "long", quick: 800, thorough: 8000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let n = r.range(1, 4);
        let shared = r.data_seed();
        for s in 0..n {
            let same = r.chance(1, 2);
            let k = if same { shared } else { r.data_seed() };
            if r.chance(1, 2) {
                p.push("z", &[s, k, r.data_seed()]);
            } else {
                p.push("c", &[s, k, if same { shared } else { r.data_seed() }]);
            }
        }
        let steps = if kind == 2 { r.range(3, 8) } else { r.range(3, 30) };
        for _ in 0..steps {
            let s = r.range(0, n - 1);
            let k = if kind == 0 { r.below(5) } else { r.below(12) };
            let mut size = |r: &mut Rng| if kind == 2 && r.chance(1, 12) { r.range(60000, 140000) } else if kind == 2 { r.range(1000, 9000) } else { sz(r) };
            match k {
                0 => p.push("next", &[s, size(r)]),
                1 => p.push("it", &[s, size(r)]),
                2 | 3 => p.push("enc", &[s, r.data_seed(), size(r), r.range(0, 9)]),
                4 => p.push("dec", &[s, r.data_seed(), size(r), r.range(0, 9)]),
                5 => p.push("set", &[s, r.data_seed(), r.data_seed()]),
                6 => p.push("clone", &[s, r.range(0, 3)]),
                7 => p.push("reset", &[s]),
                8 => p.push("badkey", &[s, r.range(0, 40), r.range(0, 40)]),
                9 => p.push("roundtrip", &[s]),
                10 => p.push("z", &[s, r.data_seed(), r.data_seed()]),
                _ => p.push("c", &[s, r.data_seed(), r.data_seed()]),
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut zs: Vec<Option<ZM>> = slots();
        let mut es: Vec<Option<EM>> = slots();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "z" => {
                    let (key, iv) = (payload(st.i(1), 16), payload(st.i(2), 16));
                    cx.sched(s, "z");
                    let obj = if st.i(1) % 2 == 0 {
                        cx.lib("ZUC::new", || ZUC::new(ciph::a16(&key), ciph::a16(&iv)))?
                    } else {
                        match cx.lib("ZUC::from_slice", || ZUC::from_slice(&key, &iv))? {
                            Ok(z) => z,
                            Err(_) => return cx.fail("refused", "16-byte key and IV refused"),
                        }
                    };
                    zs[s] = Some(ZM { obj, key, iv, pos: 0 });
                }
                "c" => {
                    let v = payload(st.i(1), 16);
                    let q = payload(st.i(2), 6);
                    let (count, bearer, dir) = (u32::from_be_bytes([q[0], q[1], q[2], q[3]]), q[4] & 31, q[5] & 1 == 1);
                    cx.sched(s, "c");
                    let key = ciph::a16(&v);
                    let obj = cx.lib("ZUCCipher::new", || ZUCCipher::new(count, bearer, dir, key))?;
                    es[s] = Some(EM { obj, stream: vec![], key, iv: zuc::eea3_iv(count, bearer, dir), pos: 0, cut: vec![] });
                }
                "next" | "it" => {
                    if let Some(z) = zs[s].as_mut() {
                        let n = st.u(1).min(150000);
                        cx.sched(s, &st.op);
                        let o = &mut z.obj;
                        let it = st.op == "it";
                        let got: Vec<u32> = if it {
                            cx.lib("iterator", || o.take(n).collect())?
                        } else {
                            cx.lib("zuc", || (0..n).map(|_| o.zuc()).collect())?
                        };
                        let all = zuc::keystream(&z.key, &z.iv, z.pos + n);
                        let want: Vec<u8> = all[z.pos..].iter().flat_map(|w| w.to_be_bytes()).collect();
                        let g: Vec<u8> = got.iter().flat_map(|w| w.to_be_bytes()).collect();
                        cx.event("words", &g);
                        let pos = z.pos;
                        cx.same(&g, &want, "keystream", || format!("{} words from position {}", n, pos))?;
                        z.pos += n;
                        cx.state(&[1, z.pos.min(64) as i64, it as i64]);
                    }
                }
                "set" => {
                    let (key, iv) = (payload(st.i(1), 16), payload(st.i(2), 16));
                    if let Some(z) = zs[s].as_mut() {
                        cx.sched(s, "set");
                        cx.fault("rekeyed");
                        let o = &mut z.obj;
                        if st.i(1) % 2 == 0 {
                            cx.lib("set", || o.set(ciph::a16(&key), ciph::a16(&iv)))?;
                        } else if cx.lib("set_slice", || o.set_slice(&key, &iv))?.is_err() {
                            return cx.fail("refused", "16-byte key and IV refused");
                        }
                        z.key = key;
                        z.iv = iv;
                        z.pos = 0;
                    }
                }
                "badkey" => {
                    let (a, b) = (st.u(1).min(64), st.u(2).min(64));
                    if a == 16 && b == 16 {
                        continue;
                    }
                    cx.fault("wrong_key_length");
                    if let Some(z) = zs[s].as_mut() {
                        let o = &mut z.obj;
                        let e = cx.lib("set_slice", || o.set_slice(&vec![1; a], &vec![2; b]).is_err())?;
                        cx.require(e, "bad-key-accepted", || format!("key of {} and IV of {} bytes accepted", a, b))?;
                    }
                    if a != 16 {
                        let e = cx.lib("from_slice", || ZUCCipher::from_slice(1, 2, false, &vec![1; a]).is_err())?;
                        cx.require(e, "bad-key-accepted", || format!("key of {} bytes accepted", a))?;
                    }
                }
                "clone" => {
                    let d = st.u(1) % SLOTS;
                    if d == s {
                        continue;
                    }
                    if let Some(z) = &zs[s] {
                        cx.sched(s, "clone");
                        cx.fault("forked_mid_stream");
                        let c = ZM { obj: z.obj.clone(), key: z.key.clone(), iv: z.iv.clone(), pos: z.pos };
                        zs[d] = Some(c);
                    }
                    if let Some(e) = &es[s] {
                        cx.sched(s, "clone");
                        cx.fault("forked_mid_stream");
                        let c = EM { obj: e.obj.clone(), stream: e.stream.clone(), key: e.key, iv: e.iv, pos: e.pos, cut: e.cut.clone() };
                        es[d] = Some(c);
                    }
                }
                "enc" | "dec" => {
                    if let Some(e) = es[s].as_mut() {
                        let d = payload(st.i(1), st.u(2).min(150000));
                        let mut out = payload(33, st.u(3).min(64));
                        cx.sched(s, &st.op);
                        let o = &e.obj;
                        let r = if st.op == "enc" { cx.lib("encrypt", || o.encrypt(&mut out, &d))? } else { cx.lib("decrypt", || o.decrypt(&mut out, &d))? };
                        cx.event("out", &out);
                        let pos = e.pos;
                        let want = e.xor(&d);
                        match r {
                            Err(_) => return cx.fail("refused", format!("{} bytes refused at position {}", d.len(), pos)),
                            Ok(n) => {
                                cx.same(&out, &want, "ciphertext", || format!("{} bytes from keystream position {}", d.len(), pos))?;
                                let l = out.len();
                                cx.require(n == l, "reported-length", || format!("{} bytes reported for {} produced, position {}", n, l, pos))?;
                            }
                        }
                        if pos % 4 != 0 {
                            cx.probe("call_starts_inside_a_word");
                            if (pos % 4) + d.len() <= 4 {
                                cx.probe("call_fits_in_leftover_keystream");
                            }
                        }
                        e.cut.extend(out);
                        cx.state(&[2, (pos % 4) as i64, d.len().min(9) as i64, (st.op == "enc") as i64]);
                    }
                }
                "reset" => {
                    if let Some(e) = es[s].as_mut() {
                        cx.sched(s, "reset");
                        if e.pos > 0 {
                            cx.fault("reset_mid_stream");
                        }
                        let o = &mut e.obj;
                        cx.lib("reset", || o.reset())?;
                        e.pos = 0;
                        e.cut.clear();
                    }
                }
                "roundtrip" => {
                    // after a reset the object must undo what it produced since the last reset
                    if let Some(e) = es[s].as_mut() {
                        cx.sched(s, "roundtrip");
                        let o = &mut e.obj;
                        cx.lib("reset", || o.reset())?;
                        e.pos = 0;
                        let ct = std::mem::take(&mut e.cut);
                        let want = e.xor(&ct);
                        let mut out = vec![];
                        let o = &e.obj;
                        let _ = cx.lib("decrypt", || o.decrypt(&mut out, &ct))?;
                        cx.same(&out, &want, "roundtrip", || format!("{} bytes after reset", ct.len()))?;
                        e.cut = out;
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = keystream words or cipher outputs compared with the reference keystream at the model's position; a state is (object kind, position in the 4-byte word, call size up to 9, method)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto ZUC and ZUCCipher"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller sessions"]
    }
}

// ---------------------------------------------------------------- B01

pub struct B01;

struct BM {
    obj: ciph::Any,
    kind: usize,
    seed: i64,
    used: u64,
}

impl Scenario for B01 {
    fn id(&self) -> &'static str {
        "B01"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 60000, thorough: 600000 },
            RunKind { name: "faulty", quick: 120000, thorough: 1200000 },
            RunKind { name: "long-life", quick: 120, thorough: 1200 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, tier: Tier) -> Plan {
        let mut p = Plan::default();
        if kind == 2 {
            p.push("new", &[0, r.range(0, 5), r.data_seed()]);
            for _ in 0..r.range(2, 12) {
                p.push("chain", &[0, r.range(100, 1000), r.data_seed()]);
                p.push("enc", &[0, r.data_seed(), 0]);
                p.push("dec", &[0, r.data_seed(), 0]);
            }
            return p;
        }
        let n = r.range(1, 5);
        let common = r.range(0, 5);
        let mix = r.chance(1, 2);
        for s in 0..n {
            p.push("new", &[s, if mix { r.range(0, 5) } else { common }, r.data_seed()]);
        }
        let steps = r.range(2, if tier == Tier::Thorough { 60 } else { 30 });
        for _ in 0..steps {
            let s = r.range(0, n - 1);
            match r.below(if kind == 0 { 6 } else { 10 }) {
                0 | 1 => p.push("enc", &[s, r.data_seed(), r.range(0, 20)]),
                2 | 3 => p.push("dec", &[s, r.data_seed(), r.range(0, 20)]),
                4 => p.push("chain", &[s, r.range(1, 20), r.data_seed()]),
                5 => p.push("inv", &[s, r.data_seed()]),
                6 | 7 => p.push("bad", &[s, r.range(0, 1), r.range(0, 40), r.data_seed()]),
                8 => p.push("clone", &[s, r.range(0, n - 1)]),
                _ if r.chance(1, 3) => p.push("badkey", &[s, r.range(0, 1), r.range(0, 70), r.data_seed()]),
                _ => p.push("new", &[s, r.range(0, 5), r.data_seed()]),
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut live: Vec<Option<BM>> = slots();
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            if st.op == "badkey" {
                let (aes, len) = (st.u(1) == 0, st.u(2).min(300));
                if len == 16 || (aes && (len == 24 || len == 32)) {
                    continue;
                }
                let key = payload(st.i(3), len);
                cx.sched(s, "badkey");
                cx.fault("wrong_key_length");
                let refused = cx.lib("construct", || if aes { AES::new(key).is_err() } else { SM4::from_slice(&key).is_err() })?;
                cx.require(refused, "bad-key-accepted", || format!("{} accepted a key of {} bytes", if aes { "AES" } else { "SM4" }, len))?;
                continue;
            }
            if st.op == "new" {
                let k = st.u(1) % 6;
                cx.sched(s, "new");
                // both constructors of the library where there are two
                let obj = if st.i(2) % 2 == 1 && (k <= 2 || k == 5) {
                    let key = payload(st.i(2), 64);
                    cx.lib("construct", || match k {
                        0 => ciph::Any::Aes(AES::aes_128(ciph::a16(&key))),
                        1 => {
                            let mut a = [0u8; 24];
                            a.copy_from_slice(&key[..24]);
                            ciph::Any::Aes(AES::aes_192(a))
                        }
                        2 => {
                            let mut a = [0u8; 32];
                            a.copy_from_slice(&key[..32]);
                            ciph::Any::Aes(AES::aes_256(a))
                        }
                        _ => ciph::Any::Sm4(SM4::from_slice(&key[..16]).unwrap()),
                    })?
                } else {
                    cx.lib("construct", || ciph::make(k, st.i(2), 0))?
                };
                live[s] = Some(BM { obj, kind: k, seed: st.i(2), used: 0 });
                continue;
            }
            let Some(m) = live[s].as_mut() else { continue };
            let rf = ciph::make_ref(m.kind, m.seed, 0);
            let bs = rf.bs();
            let name = ciph::cipher_name(m.kind);
            match st.op.as_ref() {
                "enc" | "dec" => {
                    let d = payload(st.i(1), bs);
                    let mut out = payload(st.i(1) + 9, st.u(2).min(40));
                    if !out.is_empty() {
                        cx.fault("dirty_output_buffer");
                    }
                    cx.sched(s, &st.op);
                    let o = &m.obj;
                    let enc = st.op == "enc";
                    let r = if enc { cx.lib("encrypt", || o.encrypt(&mut out, &d))? } else { cx.lib("decrypt", || o.decrypt(&mut out, &d))? };
                    cx.event("out", &out);
                    let want = if enc { rf.enc(&d) } else { rf.dec(&d) };
                    cx.require(r.is_ok(), "refused", || format!("{} refused a whole block", name))?;
                    cx.same(&out, &want, "block", || format!("{} {} after {} calls", name, st.op, m.used))?;
                    m.used += 1;
                    cx.state(&[m.kind as i64, enc as i64, m.used.min(8) as i64]);
                }
                "chain" => {
                    // output fed back as input, alternating directions now and then
                    let mut cur = payload(st.i(2), bs);
                    let mut rcur = cur.clone();
                    let mut out = vec![];
                    cx.sched(s, "chain");
                    for j in 0..st.u(1).min(1000) {
                        let o = &m.obj;
                        if (st.i(2) >> (j % 16)) & 1 == 0 {
                            let _ = cx.lib("encrypt", || o.encrypt(&mut out, &cur))?;
                            rcur = rf.enc(&rcur);
                        } else {
                            let _ = cx.lib("decrypt", || o.decrypt(&mut out, &cur))?;
                            rcur = rf.dec(&rcur);
                        }
                        std::mem::swap(&mut cur, &mut out);
                    }
                    cx.event("chain", &cur);
                    cx.same(&cur, &rcur, "block", || format!("{} chained calls", name))?;
                    m.used += 1;
                }
                "inv" => {
                    let d = payload(st.i(1), bs);
                    let (mut a, mut b) = (vec![], vec![]);
                    cx.sched(s, "inv");
                    let o = &m.obj;
                    let _ = cx.lib("encrypt", || o.encrypt(&mut a, &d))?;
                    let _ = cx.lib("decrypt", || o.decrypt(&mut b, &a))?;
                    cx.same(&b, &d, "inverse", || name.to_string())?;
                    m.used += 1;
                }
                "bad" => {
                    let len = st.u(2).min(64);
                    if len == bs {
                        continue;
                    }
                    let d = payload(st.i(3), len);
                    let before = payload(st.i(3) + 1, len % 23);
                    let mut out = before.clone();
                    cx.sched(s, "bad");
                    cx.fault("wrong_block_length");
                    let o = &m.obj;
                    let r = if st.u(1) == 0 { cx.lib("encrypt", || o.encrypt(&mut out, &d))? } else { cx.lib("decrypt", || o.decrypt(&mut out, &d))? };
                    cx.event("bad", &out);
                    cx.require(r.is_err(), "wrong-length-accepted", || format!("{} accepted {} bytes", name, len))?;
                    cx.same(&out, &before, "buffer-changed-on-error", || name.to_string())?;
                    cx.state(&[m.kind as i64, 10 + st.i(1), len as i64]);
                }
                "clone" => {
                    let d = st.u(1) % SLOTS;
                    if d == s {
                        continue;
                    }
                    cx.sched(s, "clone");
                    cx.fault("object_cloned");
                    let o = &m.obj;
                    let obj = cx.lib("clone", || o.clone())?;
                    let c = BM { obj, kind: m.kind, seed: m.seed, used: m.used };
                    live[d] = Some(c);
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = block outputs (or error reports and untouched buffers) compared with the reference cipher; a state is (cipher, direction or error, calls made on the object up to 8 or wrong length used)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto AES (hardware backend), DES, TDES, SM4"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["caller sessions"]
    }
}
