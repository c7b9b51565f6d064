//! RSA key generation under a degrading random source (R05) and private-key operations with any blinding randomness (R06).

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::rsa as rr;
use crate::scen::asym::*;
use crate::seams::{SimRng, RNG_FAULTS};
use rcrypto::rsa::{PrivateKey, PublicKey};
use rmath::bigint::Nat;
use std::rc::Rc;

/// what is wrong with a key, judged from its display
pub fn audit(k: &Key, bits: usize, primes: usize) -> Option<(&'static str, String)> {
    if k.n.bits() != bits {
        return Some(("modulus-size", format!("modulus has {} bits instead of {}", k.n.bits(), bits)));
    }
    let fs = match rr::factor(&k.n, &k.e, &k.d) {
        Some(f) => f,
        None => return Some(("exponents", "the exponents do not belong together".into())),
    };
    if !fs.iter().all(|p| p.is_prime()) {
        return Some(("exponents", format!("n = {}: no factorisation with e and d", k.n.show())));
    }
    if fs.len() != primes {
        return Some(("prime-count", format!("{} primes instead of {}", fs.len(), primes)));
    }
    if fs.windows(2).any(|w| w[0] == w[1]) {
        return Some(("repeated-prime", format!("n = {} has a repeated prime factor {}", k.n.show(), fs[0].show())));
    }
    let ed = k.e.mul(&k.d);
    for p in &fs {
        if !ed.rem(&p.sub(&Bn::one())).sub(&Bn::one()).is_zero() {
            return Some(("exponents", format!("e*d is not 1 modulo p-1 for p = {}", p.show())));
        }
    }
    None
}

fn words_of(v: &Bn, n: usize) -> Vec<u32> {
    let b = v.to_be_len(4 * n).unwrap_or_else(|| v.to_be()[v.to_be().len() - 4 * n..].to_vec());
    let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
    w.reverse();
    w
}

/// a prime p with the given bit length, top two bits set and p-1 divisible by 65537
fn unlucky_prime(bits: usize, seed: i64) -> Option<Bn> {
    if bits < 19 {
        return None;
    }
    let e = Bn::from_u64(2 * 65537);
    let lo = Bn::from_u64(3).shl(bits - 2);
    let span = bits - 2;
    let off = Bn::from_be(&payload(seed * 16 + 15, (span + 7) / 8)).rem(&Bn::one().shl(span));
    let mut k = lo.add(&off).div(&e);
    for _ in 0..4000 {
        let p = k.mul(&e).add(&Bn::one());
        if p.bits() > bits {
            k = lo.div(&e);
        } else if p >= lo && p.is_prime() {
            return Some(p);
        }
        k = k.add(&Bn::one());
    }
    None
}

pub struct R05;

impl Scenario for R05 {
    fn id(&self) -> &'static str {
        "R05"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 400, thorough: 6000 },
            RunKind { name: "small-primes", quick: 1500, thorough: 20000 },
            RunKind { name: "degraded-source", quick: 600, thorough: 8000 },
            RunKind { name: "failing-source", quick: 300, thorough: 4000 },
            RunKind { name: "unlucky-primes", quick: 400, thorough: 4000 },
            RunKind { name: "many-primes", quick: 300, thorough: 4000 },
            RunKind { name: "tiny", quick: 600, thorough: 6000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        let n = if kind == 1 { 6 } else { r.range(1, 3) };
        for _ in 0..n {
            if kind == 6 {
                let bits = if r.chance(1, 3) { r.range(60, 99) } else { r.range(1, 63) };
                p.push("gen", &[bits, if r.chance(1, 8) { r.range(10, 40) } else { r.range(0, 10) }, r.range(5, 15), r.range(0, 1)]);
                continue;
            }
            let primes = if kind == 5 { r.range(6, 10) } else { *r.pick(&[2i64, 2, 2, 3, 3, 4, 5]) };
            let per = match kind {
                5 => r.range(10, 24),
                1 => r.range(8, 12),
                4 => r.range(19, 70),
                _ => {
                    if r.chance(1, 2) {
                        r.range(8, 40)
                    } else {
                        r.range(30, if tier == Tier::Thorough { 200 } else { 110 })
                    }
                }
            };
            let bits = (per * primes + r.range(0, primes - 1)).max(24);
            let rounds = r.range(5, 15);
            match kind {
                2 => {
                    let k = r.range(1, RNG_FAULTS.len() as i64 - 2);
                    p.push("rng", &[k, r.range(0, 40), if r.chance(1, 2) { r.range(1, 30) } else { r.range(30, 1500) }]);
                }
                3 => {
                    let k = *r.pick(&[0i64, 0, 0, 1, 3, 6]);
                    p.push("rng", &[k, r.range(0, 60), *r.pick(&[1i64, 1, 1, 2, 5, 50])]);
                }
                4 => p.push("unlucky", &[bits, primes, r.data_seed()]),
                _ => {}
            }
            p.push("gen", &[bits, primes, rounds, r.range(0, 1)]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut rng = SimRng::new(0x9000 + plan.getu("seed") as u64);
        let mut seen: Vec<Bn> = Vec::new();
        let mut healthy = true;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            match st.op.as_ref() {
                "rng" => {
                    rng.disarm();
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(2000));
                    healthy = false;
                }
                "unlucky" => {
                    let (bits, primes) = (st.u(0).clamp(24, 1024), st.u(1).clamp(2, 5));
                    if let Some(p) = unlucky_prime(bits / primes, st.i(2)) {
                        rng.script(&words_of(&p, (bits / primes + 31) / 32));
                        cx.probe("scripted_prime_congruent_1_mod_e");
                        healthy = false;
                    }
                }
                "gen" => {
                    let (primes, rounds) = (st.u(1).min(50), st.u(2).clamp(3, 30));
                    let bits = st.u(0).clamp(1, 1024);
                    // fewer bits than this may be refused, but not searched for without end
                    let small = primes < 2 || bits < 24 || bits / primes < if primes > 5 { 10 } else { 8 };
                    rng.budget(400_000);
                    let (w0, e0) = rng.count();
                    cx.sched(0, "gen");
                    cx.real += 1;
                    let two = primes == 2 && st.u(3) == 1;
                    let res = guarded(|| if two { PrivateKey::generate_key(bits, rounds, &mut rng) } else { PrivateKey::generate_multi_prime_key(primes, bits, rounds, &mut rng) });
                    let (w1, e1) = rng.count();
                    let errs = e1 - e0;
                    rng.report(cx);
                    cx.state(&[bits as i64, primes as i64, (errs > 0) as i64, healthy as i64, 64 - ((w1 - w0) as u64).leading_zeros() as i64]);
                    let key = match res {
                        Ok(Ok(k)) => k,
                        Ok(Err(_)) => {
                            cx.event("error", &[]);
                            cx.require(errs > 0 || small, "refused", || format!("{} bits with {} primes refused although the source delivered", bits, primes))?;
                            continue;
                        }
                        Err(p) if p.budget.is_some() => return cx.fail("no-progress", format!("{} bits, {} primes: no key after 400000 words", bits, primes)),
                        Err(p) => {
                            let class = if errs > 0 && p.loc.contains("/rmath-") && p.loc.contains("/nat.rs") { "panic-in-rmath-prime-search-on-source-error" } else { "panic" };
                            return cx.fail(class, format!("{} bits, {} primes: {} at {}", bits, primes, p.msg, p.loc));
                        }
                    };
                    let valid = cx.lib("is_valid", || key.is_valid().is_ok())?;
                    let k = match Key::read(key) {
                        Some(k) => k,
                        None => return cx.fail("unreadable", "the key's display has no n, e, d"),
                    };
                    cx.event("n", &k.n.to_be());
                    cx.require(primes >= 2, "too-few-primes", || format!("a key of {} primes was made", primes))?;
                    if let Some((class, msg)) = audit(&k, bits, primes) {
                        return cx.fail(class, format!("{} bits, {} primes, {} words, {} errors: {}", bits, primes, w1 - w0, errs, msg));
                    }
                    cx.require(valid, "own-check", || format!("{} bits, {} primes: the key fails its own validity check", bits, primes))?;
                    let ml = (k.sk.modulus_len(), k.sk.public_key().modulus_len());
                    cx.require(ml == (k.k, k.k), "modulus-length", || format!("modulus length reported as {:?} instead of {}", ml, k.k))?;
                    // use the fresh key once
                    let c = Bn::from_be(&payload(i as i64 * 16 + 15, k.k)).rem(&k.n);
                    let ci = to_big(&c);
                    let m = cx.lib("decrypt", || k.sk.decrypt::<SimRng>(&ci, None))?;
                    let want = k.private_op(&c);
                    cx.require(m.ok().and_then(|m| from_big(&m)) == Some(want), "unusable", || format!("{} bits, {} primes: private operation of the new key is wrong", bits, primes))?;
                    if healthy && bits >= 96 {
                        cx.require(!seen.contains(&k.n), "same-key", || "two keys of one healthy source are equal".into())?;
                        seen.push(k.n.clone());
                    }
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = generated keys factored and audited by the reference, plus refusals judged; a state is (bits, primes, source failed, source healthy, log2 of words consumed)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto RSA key generation", "rmath prime search and integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["a key is demanded from 24 bits in all and 8 bits per prime (10 bits from six primes on); below that a refusal is allowed", "source faults last at most 2000 words; 400000 words are allowed per key", "n, e and d are read from the key's display"]
    }
}

// ---------------------------------------------------------------- R06

pub struct R06;

const BITS: [usize; 14] = [24, 31, 32, 33, 48, 63, 64, 65, 66, 96, 128, 130, 192, 256];

impl Scenario for R06 {
    fn id(&self) -> &'static str {
        "R06"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 4000, thorough: 60000 },
            RunKind { name: "degraded-source", quick: 6000, thorough: 100000 },
            RunKind { name: "scripted-blinding", quick: 6000, thorough: 100000 },
            RunKind { name: "large-keys", quick: 300, thorough: 4000 },
            RunKind { name: "imported-public-keys", quick: 2000, thorough: 30000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        if kind == 4 {
            p.push("key", &[0, BITS[r.below(BITS.len() as u64) as usize] as i64, 2, r.range(0, 11)]);
            for _ in 0..r.range(2, 8) {
                p.push("ext", &[0, r.range(0, 3), r.range(0, 5), r.range(0, 13), r.data_seed(), r.range(0, 5)]);
                for _ in 0..r.range(1, 3) {
                    p.push("epub", &[0, r.range(0, 7), r.data_seed()]);
                }
            }
            return p;
        }
        for s in 0..r.range(1, 2) {
            let bits = if kind == 3 { *r.pick(&[384i64, 512, 513, 576, 1024]) } else { BITS[r.below(BITS.len() as u64) as usize] as i64 };
            let mut primes = *r.pick(&[2i64, 2, 3, 3, 4, 5]);
            while bits / primes < 8 {
                primes -= 1;
            }
            p.push("key", &[s, bits, primes, r.range(0, 11)]);
        }
        for _ in 0..r.range(4, 16) {
            let s = r.range(0, 2);
            match r.below(8) {
                0 => p.push("clone", &[s, r.range(0, 2)]),
                1 | 2 if kind == 1 => p.push("rng", &[r.range(0, RNG_FAULTS.len() as i64 - 2), r.range(0, 12), r.range(1, 200)]),
                1..=3 if kind == 2 => {
                    p.push("script", &[s, r.range(0, 9), r.data_seed()]);
                    p.push("dec", &[s, r.range(0, 13), r.data_seed(), 1, r.range(0, 1)]);
                }
                3 => p.push("pub", &[s, r.range(0, 13), r.data_seed()]),
                _ => p.push("dec", &[s, r.range(0, 13), r.data_seed(), r.range(0, 1), r.range(0, 1)]),
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut rng = SimRng::new(0xb11d + plan.getu("seed") as u64);
        struct Slot {
            k: Rc<Key>,
            sk: PrivateKey,
            shown: String,
            fs: Vec<Bn>,
        }
        let mut slots: Vec<Option<Slot>> = vec![None, None, None];
        let mut ext: Option<(PublicKey, Bn, Bn)> = None;
        let value = |s: &Slot, kind: usize, seed: i64| -> Bn {
            let n = &s.k.n;
            let one = Bn::one();
            let rnd = Bn::from_be(&payload(seed * 16 + 15, s.k.k));
            let p = &s.fs[seed.unsigned_abs() as usize % s.fs.len()];
            match kind % 14 {
                0 => Bn::zero(),
                1 => one,
                2 => n.sub(&one),
                3 => n.clone(),
                4 => n.add(&one),
                5 => rnd.rem(n),
                6 => p.mul(&rnd.rem(&n.div(p))),
                7 => p.clone(),
                8 => n.sub(p),
                9 => n.add(n),
                10 => Bn::from_u64(seed.unsigned_abs() % 7),
                11 => Bn::one().shl(seed.unsigned_abs() as usize % n.bits()),
                12 => n.div(p),
                _ => rnd.mul(n).add(&rnd),
            }
        };
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % 3;
            match st.op.as_ref() {
                "key" => {
                    let primes = st.u(2).clamp(2, 5);
                    let bits = st.u(1).clamp((8 * primes).max(24), 1024);
                    let k = rsa_key(cx, bits, primes, st.i(3).rem_euclid(12))?;
                    let fs = match rr::factor(&k.n, &k.e, &k.d) {
                        Some(f) => f,
                        None => return cx.fail("keygen", "key cannot be factored"),
                    };
                    slots[s] = Some(Slot { sk: k.sk.clone(), shown: format!("{}", k.sk), k, fs });
                }
                "clone" => {
                    let d = st.u(1) % 3;
                    let made = match &slots[s] {
                        Some(x) => Some(Slot { k: x.k.clone(), sk: cx.lib("clone", || x.sk.clone())?, shown: x.shown.clone(), fs: x.fs.clone() }),
                        None => None,
                    };
                    if let Some(m) = made {
                        cx.sched(d, "clone");
                        slots[d] = Some(m);
                    }
                }
                "rng" => {
                    rng.disarm();
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                }
                "script" => {
                    // make the next blinding value a chosen one
                    if let Some(x) = &slots[s] {
                        let seed = st.i(2);
                        let v = match st.u(1) % 10 {
                            0 => Bn::zero(),
                            1 => Bn::one(),
                            2 => value(x, 2, seed),
                            3 => value(x, 6, seed),
                            4 => value(x, 7, seed),
                            5 => value(x, 8, seed),
                            6 => value(x, 12, seed),
                            7 => x.k.n.clone(),
                            8 => value(x, 10, seed),
                            _ => value(x, 11, seed),
                        };
                        rng.disarm();
                        rng.script(&words_of(&v, (x.k.n.bits() + 31) / 32));
                    }
                }
                "pub" => {
                    if let Some(x) = &slots[s] {
                        let m = value(x, st.u(1), st.i(2)).rem(&x.k.n);
                        let mi = to_big(&m);
                        cx.sched(s, "pub");
                        let c = cx.lib("encrypt", || x.sk.public_key().encrypt(&mi))?;
                        let want = x.k.public_op(&m);
                        cx.require(from_big(&c) == Some(want), "public-operation", || format!("{}-bit modulus: m^e mod n is wrong for m = {}", x.k.n.bits(), m.show()))?;
                        cx.require(from_big(&mi) == Some(m.clone()), "input-changed", || "the input integer changed".into())?;
                    }
                }
                "ext" => {
                    // a public key from numbers that arrive from outside, in one of the four forms
                    let seed = st.i(4);
                    let d = payload(seed * 16 + 15, 160);
                    let n = match (st.u(2) % 6, &slots[0]) {
                        (0 | 1, Some(x)) => x.k.n.clone(),
                        (2, _) => Bn::from_u64(1 + (d[0] as u64 * 256 + d[1] as u64) % 600 * 2),
                        (3, _) => Bn::one().shl(1 + d[0] as usize % 200).sub(&Bn::one()),
                        _ => {
                            let v = Bn::from_be(&d[2..3 + d[0] as usize % 120]);
                            if v.is_even() { v.add(&Bn::one()) } else { v }
                        }
                    };
                    let e = match st.u(3) % 14 {
                        0 => Bn::from_u64(3),
                        1 => Bn::from_u64(17),
                        2 => Bn::from_u64(65537),
                        3 => Bn::from_u64(d[140] as u64 % 3),
                        4 => n.clone(),
                        5 => n.add(&Bn::one()),
                        6 => n.sub(&Bn::one()),
                        7 => Bn::from_u64((1 << 31) - 1),
                        8 => Bn::from_u64((1 << 31) + d[140] as u64 % 3),
                        9 => Bn::from_u64(3 + d[140] as u64 % 300),
                        10 => Bn::from_u64(u32::MAX as u64 - d[140] as u64 % 2),
                        _ => Bn::from_be(&d[60..120]).rem(&n),
                    };
                    let form = st.u(1) % 4;
                    let lead = if form < 2 { st.u(5) % 4 } else { 0 };
                    let minus = if form == 2 { st.u(5) % 6 } else { 0 };
                    let bytes = |v: &Bn| {
                        let mut b = vec![0u8; lead];
                        b.extend(v.to_be());
                        if b.is_empty() {
                            b.push(0);
                        }
                        b
                    };
                    let (nb, eb) = (bytes(&n), bytes(&e));
                    cx.sched(0, "ext");
                    let got = cx.lib("public key", || match form {
                        0 => PublicKey::from_be_bytes(&nb, &eb),
                        1 => PublicKey::from_le_bytes(&nb.iter().rev().cloned().collect::<Vec<u8>>(), &eb.iter().rev().cloned().collect::<Vec<u8>>()),
                        2 => PublicKey::from_bigint(&if minus == 1 { -to_big(&n) } else { to_big(&n) }, &if minus == 2 { -to_big(&e) } else { to_big(&e) }),
                        _ => PublicKey::from_nat(&Nat::from_be_bytes(&nb), &Nat::from_be_bytes(&eb)),
                    })?;
                    let fine = e >= Bn::from_u64(3) && e < n && !(minus == 1 || minus == 2);
                    cx.state(&[100, form as i64, (st.u(2) % 6) as i64, (st.u(3) % 14) as i64, fine as i64]);
                    cx.require(got.is_ok() == fine, "import", || format!("a public key with n = {}{}, e = {}{} was {}", if minus == 1 { "-" } else { "" }, n.show(), if minus == 2 { "-" } else { "" }, e.show(), if fine { "refused" } else { "accepted" }))?;
                    ext = None;
                    match got {
                        Ok(k) => {
                            let t = cx.lib("display", || format!("{}", k))?;
                            let (gn, ge) = (display_field(&t, "n"), display_field(&t, "e"));
                            cx.require(gn.as_ref() == Some(&n) && ge.as_ref() == Some(&e), "import", || format!("a public key with n = {}, e = {} became {}", n.show(), e.show(), t))?;
                            let len = cx.lib("modulus_len", || k.modulus_len())?;
                            cx.require(len == (n.bits() + 7) / 8, "import", || format!("modulus_len {} for {} bits", len, n.bits()))?;
                            ext = Some((k, n, e));
                        }
                        Err(_) => cx.fault("unusable_public_key"),
                    }
                }
                "epub" => {
                    if let Some((k, n, e)) = &ext {
                        let seed = st.i(2);
                        let rnd = Bn::from_be(&payload(seed * 16 + 15, (n.bits() + 7) / 8 + 1)).rem(n);
                        let m = match st.u(1) % 8 {
                            0 => n.sub(&Bn::one()),
                            1 => Bn::from_u64(2 + seed.unsigned_abs() % 7).rem(n),
                            2 => Bn::one().shl(seed.unsigned_abs() as usize % n.bits()).rem(n),
                            _ => rnd,
                        };
                        if m < Bn::from_u64(2) {
                            continue;
                        }
                        let mi = to_big(&m);
                        cx.sched(0, "epub");
                        let c = cx.lib("encrypt", || k.encrypt(&mi))?;
                        let want = m.powmod(e, n);
                        cx.event("c", &want.to_be());
                        cx.require(from_big(&c) == Some(want), "public-operation", || format!("n = {}, e = {}: m^e mod n is wrong for m = {}", n.show(), e.show(), m.show()))?;
                        cx.require(from_big(&mi) == Some(m.clone()), "input-changed", || "the input integer changed".into())?;
                    }
                }
                "dec" => {
                    if let Some(x) = &slots[s] {
                        let c = value(x, st.u(1), st.i(2));
                        let ci = to_big(&c);
                        let (blind, check) = (st.u(3) == 1, st.u(4) == 1);
                        rng.budget(20_000);
                        let (w0, e0) = rng.count();
                        cx.sched(s, "dec");
                        let res = {
                            let rd = &mut rng;
                            cx.lib("decrypt", || {
                                let rd = if blind { Some(rd) } else { None };
                                if check {
                                    x.sk.decrypt_and_check(&ci, rd)
                                } else {
                                    x.sk.decrypt(&ci, rd)
                                }
                            })?
                        };
                        let (w1, e1) = rng.count();
                        let (bits, np) = (x.k.n.bits(), x.fs.len());
                        cx.state(&[bits as i64, np as i64, (st.u(1) % 14) as i64, blind as i64, check as i64, ((w1 - w0) as i64).min(40), (e1 > e0) as i64]);
                        if c >= x.k.n {
                            cx.require(res.is_err(), "too-big-accepted", || format!("{}-bit modulus: integer {} not below n was accepted", bits, c.show()))?;
                        } else {
                            let want = x.k.private_op(&c);
                            match res {
                                Ok(m) => {
                                    let got = from_big(&m);
                                    cx.event("m", &got.as_ref().map(|g| g.to_be()).unwrap_or_default());
                                    let ok = got.as_ref() == Some(&want);
                                    cx.require(ok, "wrong-result", || {
                                        format!("{}-bit modulus, {} primes, c = {}, blinding {}, words {:?}: got {} instead of {}", bits, np, c.show(), blind, rng.out_from(rng.delivered() - (w1 - w0) as usize), got.map(|g| g.show()).unwrap_or("no number".into()), want.show())
                                    })?;
                                }
                                Err(_) => {
                                    cx.require(blind && e1 > e0, "refused", || format!("{}-bit modulus, {} primes: c = {} refused, blinding {}", bits, np, c.show(), blind))?;
                                }
                            }
                        }
                        cx.require(from_big(&ci) == Some(c.clone()), "input-changed", || "the input integer changed".into())?;
                    }
                }
                _ => {}
            }
            for x in slots.iter().flatten() {
                let now = format!("{}", x.sk);
                cx.require(now == x.shown, "key-changed", || format!("key changed from {} to {}", x.shown, now))?;
            }
        }
        rng.report(cx);
        for x in slots.iter().flatten() {
            let ok = cx.lib("is_valid", || x.sk.is_valid().is_ok())?;
            cx.require(ok, "key-invalid", || "key no longer valid after use".into())?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = private and public operations compared with the reference and key-unchanged comparisons; a state is (modulus bits, primes, input class, blinding, checked, words drawn up to 40, source failed)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto RSA private and public operations", "rmath integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["keys come from the library's own generator with a healthy source (checked by R05)", "source faults last at most 400 words", "non-negative input integers"]
    }
}
