//! Elliptic-curve key generation (S04), point exchange between parties (S05), DSA parameter and key generation (S06).

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::ec::{Curve, Pt};
use crate::scen::asym::*;
use crate::scen::dss::{AnyHash, DssObj, Group, BACKENDS};
use crate::seams::{SimRng, RNG_FAULTS};
use rcrypto::dsa::{self, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{CurveP224, CurveP256, CurveParams, EllipticCurve, PrivateKey};
use rcrypto::CryptoError;
use rmath::bigint::Nat;

pub fn params(i: usize) -> Result<CurveParams, CryptoError> {
    match i {
        0 => CurveParams::p224(),
        1 => CurveParams::p256(),
        2 => CurveParams::p384(),
        _ => CurveParams::p521(),
    }
}

pub fn backend(i: usize) -> Result<Box<dyn EllipticCurve>, CryptoError> {
    Ok(match i {
        0 => Box::new(CurveP224::new()?) as Box<dyn EllipticCurve>,
        1 => Box::new(CurveParams::p224()?),
        2 => Box::new(CurveP256::new()?),
        3 => Box::new(CurveParams::p256()?),
        4 => Box::new(CurveParams::p384()?),
        _ => Box::new(CurveParams::p521()?),
    })
}

fn be_words(v: &Bn, bytes: usize) -> Vec<u32> {
    let n = (bytes + 3) / 4 * 4;
    let mut b = v.to_be_len(bytes).unwrap_or_else(|| v.to_be()[v.to_be().len() - bytes..].to_vec());
    b.resize(n, 0x5a);
    b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect()
}

fn auto(i: usize, hash: usize, rd: SimRng) -> Result<(Box<dyn DssObj>, String), CryptoError> {
    macro_rules! go {
        ($c:expr) => {{
            let o = ECDSA::auto_generate_key(AnyHash::get(hash), rd, $c)?;
            let t = format!("{}", o.public_key());
            Ok((Box::new(o) as Box<dyn DssObj>, t))
        }};
    }
    match i {
        0 => go!(CurveP224::new()?),
        1 => go!(CurveParams::p224()?),
        2 => go!(CurveP256::new()?),
        3 => go!(CurveParams::p256()?),
        4 => go!(CurveParams::p384()?),
        _ => go!(CurveParams::p521()?),
    }
}

// ---------------------------------------------------------------- S04

pub struct S04;

impl Scenario for S04 {
    fn id(&self) -> &'static str {
        "S04"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 250, thorough: 4000 },
            RunKind { name: "failing-source", quick: 500, thorough: 8000 },
            RunKind { name: "degraded-source", quick: 300, thorough: 4000 },
            RunKind { name: "candidates-around-the-bounds", quick: 700, thorough: 8000 },
            RunKind { name: "many-keys", quick: 12, thorough: 100 },
            RunKind { name: "source-bytes-changed", quick: 12, thorough: 100 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        if kind == 4 {
            let g = r.range(0, 5);
            for _ in 0..60 {
                p.push("gen", &[g]);
            }
            return p;
        }
        if kind == 5 {
            p.push("flip", &[r.range(0, 5), r.range(0, 3), r.data_seed()]);
            return p;
        }
        for _ in 0..r.range(1, 2) {
            let g = *r.pick(&[0i64, 0, 0, 1, 1, 2, 2, 2, 3, 4, 5]);
            match kind {
                1 => p.push("rng", &[0, r.range(0, 20), if r.chance(1, 3) { r.range(2, 60) } else { 1 }]),
                2 => p.push("rng", &[r.range(1, RNG_FAULTS.len() as i64 - 2), r.range(0, 20), r.range(1, 400)]),
                3 => p.push("script", &[g, r.range(0, 13), r.range(0, 3), r.data_seed()]),
                _ => {}
            }
            if kind == 3 && r.chance(1, 6) {
                p.push("rng", &[0, r.range(0, 3), 1]);
            }
            if r.chance(1, 2) {
                p.push("gen", &[g]);
            } else {
                p.push("auto", &[g, r.range(0, 8), r.data_seed()]);
            }
            if r.chance(1, 2) {
                p.push("heal", &[]);
                p.push("gen", &[g]);
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let mut rng = SimRng::new(0x5041 + plan.getu("seed") as u64);
        let mut healthy = true;
        let mut seen: Vec<(Bn, Bn)> = Vec::new();
        let mut spread = Spread::default();
        let mut nbits = usize::MAX;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            match st.op.as_ref() {
                "rng" => {
                    rng.disarm();
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                    healthy = false;
                }
                "heal" => {
                    rng.disarm();
                    healthy = true;
                }
                "script" => {
                    // the next candidate is a chosen number, as drawn and as the mixing of the second byte leaves it
                    let c = Group::curve(st.u(0) % BACKENDS.len());
                    let one = Bn::one();
                    let v = match st.u(1) % 14 {
                        0 => Bn::zero(),
                        1 => one,
                        2 => Bn::from_u64(2),
                        3 => c.n.sub(&one),
                        4 => c.n.clone(),
                        5 => c.n.add(&one),
                        6 => c.n.sub(&Bn::from_u64(2)),
                        7 => c.p.sub(&one),
                        8 => Bn::one().shl(c.n.bits()).sub(&one),
                        9 => Bn::one().shl(c.n.bits() - 1),
                        10 => Bn::one().shl(st.u(3) % c.n.bits()),
                        11 => Bn::from_be(&payload(st.i(3) * 16 + 15, 20)),
                        12 => c.n.shr(8),
                        _ => c.n.add(&Bn::from_u64(1 + st.u(3) as u64 % 1000)),
                    };
                    let len = (c.n.bits() + 7) / 8;
                    rng.disarm();
                    match st.u(2) % 4 {
                        0 => rng.script(&be_words(&v, len)),
                        1 | 2 => {
                            let mut b = v.to_be_len(len).unwrap_or(vec![0; len]);
                            b[1] ^= 0x42;
                            rng.script(&be_words(&Bn::from_be(&b), len));
                        }
                        _ => {
                            // as many bytes as the ECDSA generator draws
                            rng.script(&be_words(&v, (c.n.bits() >> 3) + 8));
                        }
                    }
                    cx.probe("scripted_candidate");
                    healthy = false;
                }
                "gen" => {
                    let b = st.u(0) % BACKENDS.len();
                    let c = Group::curve(b);
                    let cp = match params(BACKENDS[b].1) {
                        Ok(c) => c,
                        Err(_) => return cx.fail("refused", "curve cannot be made"),
                    };
                    rng.budget(20_000);
                    let (w0, e0) = rng.count();
                    cx.sched(0, "gen");
                    let res = cx.lib("generate_key", || cp.generate_key(&mut rng))?;
                    let (w1, e1) = rng.count();
                    cx.state(&[0, BACKENDS[b].1 as i64, (e1 - e0).min(3) as i64, ((w1 - w0) as i64).min(60), res.is_ok() as i64]);
                    match res {
                        Ok(k) => {
                            let d = self.judge(cx, c, &k, w1 - w0, e1 - e0, healthy, &mut seen)?;
                            if healthy {
                                nbits = nbits.min(c.n.bits());
                                spread.add("private key", &d.to_be_len((c.n.bits() + 7) / 8).unwrap_or_default());
                            }
                        }
                        Err(_) => cx.require(e1 > e0, "refused", || format!("{}: refused although the source delivered", c.name))?,
                    }
                }
                "flip" => {
                    // the same source with one byte changed must give another key, for as many bytes as the order has
                    let b = st.u(0) % BACKENDS.len();
                    let c = Group::curve(b);
                    let own = st.u(1) == 0;
                    let mut words: Vec<u32> = payload(st.i(2) * 16 + 15, 400).chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
                    let key = |cx: &mut Ctx, words: &[u32]| -> Result<(Option<String>, u64), Violation> {
                        let mut rd = SimRng::new(0xf11b);
                        rd.script(words);
                        rd.budget(20_000);
                        let t = if own {
                            match params(BACKENDS[b].1) {
                                Ok(cp) => cx.lib("generate_key", || cp.generate_key(&mut rd))?.ok().map(|k| format!("{}", k)),
                                Err(_) => None,
                            }
                        } else {
                            cx.lib("auto_generate_key", || auto(b, 1, rd.clone()))?.ok().map(|x| x.1)
                        };
                        Ok((t, rd.count().0))
                    };
                    let (first, used) = key(cx, &words)?;
                    cx.require(first.is_some(), "refused", || format!("{}: refused although the source delivered", c.name))?;
                    let mut counts = 0;
                    for at in 0..(4 * used as usize).min(400) {
                        words[at / 4] ^= 0xff << (24 - 8 * (at % 4));
                        cx.fault("source_byte_changed");
                        if key(cx, &words)?.0 != first {
                            counts += 1;
                        }
                        words[at / 4] ^= 0xff << (24 - 8 * (at % 4));
                    }
                    cx.state(&[2, b as i64, own as i64, counts]);
                    cx.event("bytes", &[counts as u8]);
                    cx.require(counts as usize * 8 >= c.n.bits(), "too-little-randomness", || format!("{}: a key depends on {} bytes of the source only", c.name, counts))?;
                }
                "auto" => {
                    let b = st.u(0) % BACKENDS.len();
                    let c = Group::curve(b);
                    let hash = st.u(1) % NHASH;
                    rng.budget(20_000);
                    let (w0, e0) = rng.count();
                    cx.sched(1, "auto");
                    let res = cx.lib("auto_generate_key", || auto(b, hash, rng.clone()))?;
                    let (w1, e1) = rng.count();
                    cx.state(&[1, b as i64, (e1 - e0).min(3) as i64, ((w1 - w0) as i64).min(60), res.is_ok() as i64]);
                    let (mut obj, text) = match res {
                        Ok(x) => x,
                        Err(_) => {
                            cx.require(e1 > e0, "refused", || format!("{}: refused although the source delivered", c.name))?;
                            continue;
                        }
                    };
                    let q = match (display_field(&text, "qx"), display_field(&text, "qy")) {
                        (Some(x), Some(y)) => (x, y),
                        _ => return cx.fail("no-key", format!("{}: the public key is no point: {} ({} words, {} errors)", c.name, text, w1 - w0, e1 - e0)),
                    };
                    cx.event("q", &q.0.to_be());
                    cx.require(c.on_curve(&Some(q.clone())), "off-curve", || format!("{}: public key is not on the curve: {}", c.name, text))?;
                    self.enough(cx, c, w1 - w0, e1 - e0)?;
                    if healthy {
                        cx.require(!seen.contains(&q), "same-key", || format!("{}: two keys of one healthy source are equal", c.name))?;
                        seen.push(q.clone());
                    }
                    // the private key is not shown: it belongs to the point if its signatures verify
                    rng.disarm();
                    let msg = payload(st.i(2), 13);
                    let mut sc = SignatureContent::new();
                    let ok = cx.lib("sign", || obj.sig(&mut sc, &msg).is_ok())?;
                    let (r, s) = sc.to_bigint();
                    let good = match (ok, from_big(&r), from_big(&s)) {
                        (true, Some(r), Some(s)) => c.ecdsa_verify(&Some(q), &ref_hash(hash, &msg), &r, &s),
                        _ => false,
                    };
                    cx.require(good, "mismatch", || format!("{}: a signature of the new key does not verify with its public key", c.name))?;
                }
                _ => {}
            }
        }
        spread.check(cx, nbits)?;
        rng.report(cx);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = generated keys judged by the reference and refusals judged; a state is (generator, curve backend, source errors up to 3, words consumed up to 60, key or error)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto elliptic-curve key generation", "rcrypto ECDSA", "rcrypto curve backends", "rmath integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["source faults last at most 400 words; 20000 words are allowed per key", "keys are read from their display", "a key needs at least as many bits from the source as the group order has"]
    }
}

impl S04 {
    fn enough(&self, cx: &mut Ctx, c: &Curve, words: u64, errs: u64) -> Check {
        cx.require(words as usize * 32 >= c.n.bits(), "too-little-randomness", || format!("{}: a key from {} words of randomness ({} errors)", c.name, words, errs))
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, cx: &mut Ctx, c: &Curve, k: &PrivateKey, words: u64, errs: u64, healthy: bool, seen: &mut Vec<(Bn, Bn)>) -> Result<Bn, Violation> {
        let t = format!("{}", k);
        let (d, x, y) = match (display_field(&t, "d"), display_field(&t, "qx"), display_field(&t, "qy")) {
            (Some(d), Some(x), Some(y)) => (d, x, y),
            _ => return cx.fail("no-key", format!("{}: key without numbers: {} ({} words, {} errors)", c.name, t, words, errs)),
        };
        cx.event("d", &d.to_be());
        cx.require(!d.is_zero() && d < c.n, "range", || format!("{}: private key outside [1, n-1]: {} ({} words, {} errors)", c.name, d.show(), words, errs))?;
        let q = (x, y);
        cx.require(c.base(&d) == Some(q.clone()), "mismatch", || format!("{}: public point does not belong to the private key", c.name))?;
        self.enough(cx, c, words, errs)?;
        if healthy {
            cx.require(!seen.contains(&q), "same-key", || format!("{}: two keys of one healthy source are equal", c.name))?;
            cx.require(d.bits() + 64 > c.n.bits(), "short-key", || format!("{}: private key of {} bits from a healthy source", c.name, d.bits()))?;
            seen.push(q);
        }
        Ok(d)
    }
}

// ---------------------------------------------------------------- S05

pub struct S05;

const PT_FAULTS: [&str; 10] = ["point_negated", "x_bit_flipped", "y_bit_flipped", "coordinates_swapped", "replaced_by_infinity", "point_duplicated", "y_lost", "x_lost", "replaced_by_small_coordinates", "y_square_off_by_one_bit"];

fn show(p: &Pt) -> String {
    match p {
        Some((x, y)) => format!("({}, {})", x.show(), y.show()),
        None => "infinity".into(),
    }
}

/// a scalar of the kinds that meet the corner cases
fn scalar(c: &Curve, kind: usize, seed: i64) -> Bn {
    let s = seed.unsigned_abs();
    let one = Bn::one();
    match kind % 16 {
        0 => Bn::zero(),
        1 => one,
        2 => Bn::from_u64(2),
        3 => c.n.sub(&one),
        4 => c.n.clone(),
        // n + 2 makes double-and-add meet the point itself in its last step, or earlier when bits follow
        5 => match s % 12 {
            d @ 0..=7 => c.n.add(&Bn::from_u64(1 + d % 4)),
            d => c.n.add(&Bn::from_u64(1 + d % 2)).shl(1 + (s / 12) as usize % 8).add(&Bn::from_u64(s / 96 % 2)),
        },
        6 => Bn::one().shl(s as usize % c.n.bits()),
        7 => Bn::from_u64(s % 300),
        8 => c.n.sub(&Bn::from_u64(s % 300)),
        9 => c.n.add(&c.n).add(&Bn::from_u64(s % 3)),
        10 => Bn::from_be(&payload(seed * 16 + 15, c.n.bits() / 8 + 6)),
        11 => c.n.shr(1).add(&Bn::from_u64(s % 3)),
        12 => Bn::one().shl(s as usize % c.n.bits()).sub(&one),
        13 => Bn::from_be(&vec![[0x11u8, 0x88, 0xf0, 0x0f, 0x80, 0x01, 0xff][s as usize % 7]; c.n.bits() / 8]).rem(&c.n),
        _ => Bn::from_be(&payload(seed * 16 + 15, 80)).rem(&c.n),
    }
}

/// coordinates at the edges of the field and of the limbs it may be kept in
fn edge_value(c: &Curve, kind: usize, seed: i64) -> Bn {
    let d = payload(seed * 16 + 15, 160);
    let s = u64::from_be_bytes([d[150], d[151], d[152], d[153], d[154], d[155], d[156], d[157]]);
    let limbs = |w: &[usize]| -> Bn {
        let (mut v, mut at, mut i) = (Bn::zero(), 0, 0);
        while at < c.p.bits() {
            let wi = w[i % w.len()];
            let top = Bn::one().shl(wi).sub(&Bn::one());
            let limb = match d[i % 128] % 8 {
                0 | 1 => Bn::zero(),
                2 | 3 => top,
                4 => Bn::one(),
                5 => top.sub(&Bn::one()),
                6 => Bn::one().shl(wi - 1),
                _ => Bn::from_be(&payload((seed * 32 + i as i64) * 16 + 15, 8)).rem(&top),
            };
            v = v.add(&limb.shl(at));
            at += wi;
            i += 1;
        }
        v.rem(&c.p)
    };
    match kind % 18 {
        0 => Bn::from_u64(s % [1, 4, 64][d[0] as usize % 3]),
        1 => c.p.sub(&Bn::from_u64(1 + s % [1, 4, 64][d[0] as usize % 3])),
        2 | 10..=12 => {
            let w = [28usize, 28, 28, 28, 29, 32, 57, 64][d[0] as usize % 8];
            let k = Bn::from_be(&d[1..2 + d[2] as usize % 9]).add(&Bn::one());
            k.shl(w).sub(&Bn::from_u64([0, 1, 1, 2][s as usize % 4])).rem(&c.p)
        }
        3 => Bn::one().shl(s as usize % c.p.bits()).add(&Bn::from_u64(d[0] as u64 % 4)).rem(&c.p),
        4 => c.p.sub(&Bn::one().shl(s as usize % (c.p.bits() - 1))).add(&Bn::from_u64(d[0] as u64 % 4)).rem(&c.p),
        5 => limbs(&[28]),
        6 => limbs(&[32]),
        7 => limbs(&[64]),
        8 => limbs(&[29, 28]),
        // between the order and the prime
        13 => c.n.add(&Bn::from_u64(s % 200)),
        14 => c.n.add(&Bn::from_be(&d[0..80]).rem(&c.p.sub(&c.n))),
        15 => c.n.sub(&Bn::from_u64(1 + s % 200)),
        // one limb, or the bits from one place upwards, and zero elsewhere
        16 => {
            let w = [28usize, 29, 32, 57, 64][d[0] as usize % 5];
            let at = match d[1] % 3 {
                0 => s as usize % c.p.bits(),
                1 => s as usize % ((c.p.bits() - 1) / w + 1) * w,
                _ => (c.p.bits() - 1) / w * w,
            };
            Bn::from_u64(1 + (s >> 16) % ((1 << w.min(40)) - 1)).shl(at).rem(&c.p)
        }
        17 => {
            let at = 1 + s as usize % (c.p.bits() - 1);
            Bn::from_be(&d[0..70]).rem(&c.p).shr(at).shl(at)
        }
        // the same patterns after a conversion by the power of two a field may work with
        _ => {
            let r = [257usize, 256, 224, 384, 521, 544][if c.p.bits() == 256 { d[140] as usize % 2 } else { d[140] as usize % 6 }];
            let w: &[usize] = if c.p.bits() == 256 { &[29, 28] } else { &[32] };
            limbs(w).mulmod(&Bn::one().shl(r).rem(&c.p).inv(&c.p).unwrap(), &c.p)
        }
    }
}

/// a point of the curve one of whose coordinates, or a value early in its doubling, is such a value
pub fn edge_point(c: &Curve, role: usize, kind: usize, seed: i64) -> Pt {
    // of the two square roots at most one has a root itself when p is 3 modulo 4
    let root4 = |v: &Bn| c.sqrt(v).and_then(|r| c.sqrt(&r).or_else(|| c.sqrt(&Bn::zero().submod(&r, &c.p))));
    (0..24).find_map(|t| {
        let v = edge_value(c, kind, seed * 24 + t);
        let p = match role {
            0 => c.with_x(&v),
            1 => c.with_y(&v),
            2 => c.sqrt(&v).and_then(|y| c.with_y(&y)),
            3 => root4(&v).and_then(|y| c.with_y(&y)),
            4 => c.sqrt(&v).and_then(|x| c.with_x(&x)),
            _ => c.sqrt(&v.addmod(&Bn::one(), &c.p)).and_then(|x| c.with_x(&x)),
        };
        if c.on_curve(&p) { p } else { None }
    })
}

impl Scenario for S05 {
    fn id(&self) -> &'static str {
        "S05"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 400, thorough: 6000 },
            RunKind { name: "faulty-channel", quick: 700, thorough: 10000 },
            RunKind { name: "additions-only", quick: 1500, thorough: 20000 },
            RunKind { name: "edge-coordinates", quick: 3000, thorough: 20000 },
            RunKind { name: "many-multiples", quick: 400, thorough: 6000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        let curve = *r.pick(&[0i64, 0, 0, 1, 1, 1, 2, 3]);
        p.set("curve", curve);
        let parties = r.range(2, 3);
        for i in 0..parties {
            let b = match curve {
                0 => *r.pick(&[0i64, 0, 1]),
                1 => *r.pick(&[2i64, 2, 3]),
                2 => 4,
                _ => 5,
            };
            p.push("party", &[i, b, if r.chance(1, 4) { r.range(1, 13) } else { 15 }, r.data_seed()]);
        }
        for w in 0..4 {
            p.push("fixed", &[w, r.range(0, 15), r.data_seed()]);
        }
        if kind == 4 {
            // the dedicated backends only: their rare carries need many multiplications
            p.set("curve", curve % 2);
            p.steps.retain(|s| s.op != "party");
            p.push("party", &[0, curve % 2 * 2, 15, 0]);
            p.push("vol", &[0, r.range(0, 3), 600, r.data_seed(), r.range(0, 1)]);
            return p;
        }
        if kind == 3 {
            for _ in 0..r.range(3, 7) {
                let a = r.range(0, parties - 1);
                let w = r.range(0, 3);
                if r.chance(1, 6) {
                    p.push("flt", &[w, 9, r.range(0, 1 << 12)]);
                    p.push("take", &[a, w]);
                    continue;
                }
                let form = r.range(0, 5);
                let (mk, ms) = (r.range(0, 15), r.data_seed());
                p.push("edge", &[w, a, r.range(0, 5), r.range(0, 17), r.range(0, 3000), form, mk, ms]);
                match form {
                    0 => match r.below(3) {
                        0 => p.push("mul", &[a, w, mk, ms]),
                        1 => p.push("add", &[a, w]),
                        _ => {
                            p.push("take", &[a, w]);
                            p.push(*r.pick(&["dbl", "dbl", "take"]), &[a, w]);
                        }
                    },
                    1 => {
                        p.push("take", &[a, w]);
                        p.push("dbl", &[a]);
                    }
                    2 | 4 | 5 => p.push("add", &[a, w]),
                    _ => p.push("mul", &[a, w, mk, ms]),
                }
            }
            return p;
        }
        for _ in 0..(if kind == 2 { r.range(6, 30) } else { r.range(3, 8) }) {
            let a = r.range(0, parties - 1);
            let w = r.range(0, 3);
            match r.below(if kind == 2 { 7 } else { 12 }) {
                0..=2 => p.push("add", &[a, w]),
                3 => p.push("dbl", &[a]),
                4 => p.push("send", &[a, w]),
                5 if kind > 0 => p.push("flt", &[w, r.range(0, PT_FAULTS.len() as i64 - 1), r.range(0, 1 << 12)]),
                5 => p.push("take", &[a, w]),
                6 => p.push("take", &[a, w]),
                7 => p.push("pub", &[a, w]),
                8 => p.push("mul", &[a, w, r.range(0, 15), r.data_seed()]),
                9 => p.push("base", &[a, r.range(0, 15), r.data_seed()]),
                10 if kind > 0 => p.push("flt", &[w, r.range(0, PT_FAULTS.len() as i64 - 1), r.range(0, 1 << 12)]),
                _ => {
                    p.push("pub", &[a, w]);
                    p.push("agree", &[r.range(0, parties - 1), w]);
                }
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        struct Party {
            c: Box<dyn EllipticCurve>,
            b: usize,
            d: Bn,
            acc: Pt,
        }
        let ci = plan.getu("curve") % 4;
        let c = Curve::get(ci);
        let mut ps: Vec<Option<Party>> = vec![None, None, None];
        // what is on the wire: two coordinates, (0, 0) being infinity
        let mut wires: Vec<(Bn, Bn)> = vec![(Bn::zero(), Bn::zero()); 4];
        let enc = |p: &Pt| -> (Bn, Bn) {
            match p {
                Some((x, y)) => (x.clone(), y.clone()),
                None => (Bn::zero(), Bn::zero()),
            }
        };
        let dec = |w: &(Bn, Bn)| -> Pt {
            if w.0.is_zero() && w.1.is_zero() {
                None
            } else {
                Some(w.clone())
            }
        };
        let parity = |p: &Pt| -> i64 { p.as_ref().map_or(0, |x| 1 + (x.1.is_even() as i64)) };
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let a = st.u(0) % 3;
            let op = st.op.as_ref();
            match op {
                "party" => {
                    let b = st.u(1) % BACKENDS.len();
                    if BACKENDS[b].1 != ci {
                        continue;
                    }
                    match cx.lib("curve", || backend(b))? {
                        Ok(cv) => {
                            let bits = cv.curve_params().field_bits_size();
                            cx.require(bits == c.p.bits(), "field-size", || format!("{}: the curve says its field has {} bits instead of {}", BACKENDS[b].0, bits, c.p.bits()))?;
                            ps[a] = Some(Party { c: cv, b, d: scalar(c, st.u(2), st.i(3)), acc: None });
                        }
                        Err(_) => return cx.fail("refused", "curve cannot be made"),
                    }
                    continue;
                }
                "fixed" => {
                    wires[st.u(0) % 4] = enc(&c.base(&scalar(c, st.u(1), st.i(2))));
                    continue;
                }
                "edge" => {
                    // the point itself, or one from which the next operation has to arrive at it
                    let e = edge_point(c, st.u(2), st.u(3), st.i(4));
                    let neg = |p: &Pt| p.as_ref().map(|(x, y)| (x.clone(), if y.is_zero() { y.clone() } else { c.p.sub(y) }));
                    let acc = ps[st.u(1) % 3].as_ref().and_then(|p| p.acc.clone());
                    let from = match st.u(5) % 6 {
                        0 => e,
                        // a point whose x or y differs from that of the accumulated point by such a value
                        4 | 5 => acc.and_then(|(x, y)| {
                            (0..24).find_map(|t| {
                                let v = edge_value(c, st.u(3), st.i(4) * 24 + t);
                                let p = if st.u(5) % 6 == 4 { c.with_x(&x.addmod(&v, &c.p)) } else { c.with_y(&y.addmod(&v, &c.p)) };
                                if c.on_curve(&p) { p } else { None }
                            })
                        }),
                        1 => c.mul(&c.n.add(&Bn::one()).shr(1), &e),
                        2 => c.add(&e, &neg(&acc)),
                        _ => match scalar(c, st.u(6), st.i(7)).rem(&c.n).inv(&c.n) {
                            Some(k) => c.mul(&k, &e),
                            None => e,
                        },
                    };
                    wires[st.u(0) % 4] = enc(&from);
                    continue;
                }
                "flt" => {
                    let w = st.u(0) % 4;
                    let k = st.u(1) % PT_FAULTS.len();
                    let arg = st.u(2);
                    let flip = |v: &Bn| {
                        let bit = Bn::one().shl(arg % c.p.bits());
                        if v.bit(arg % c.p.bits()) { v.sub(&bit) } else { v.add(&bit).rem(&c.p) }
                    };
                    match k {
                        0 => {
                            if !wires[w].1.is_zero() {
                                wires[w].1 = c.p.sub(&wires[w].1);
                            }
                        }
                        1 => wires[w].0 = flip(&wires[w].0),
                        2 => wires[w].1 = flip(&wires[w].1),
                        3 => wires[w] = (wires[w].1.clone(), wires[w].0.clone()),
                        4 => wires[w] = (Bn::zero(), Bn::zero()),
                        5 => wires[w] = wires[arg % 4].clone(),
                        6 => wires[w].1 = Bn::zero(),
                        7 => wires[w].0 = Bn::zero(),
                        8 => wires[w] = (Bn::from_u64(arg as u64 % 8), Bn::from_u64(arg as u64 / 8 % 8)),
                        // the two sides of the curve equation differ in a single bit
                        _ => {
                            let bit = Bn::one().shl(arg % c.p.bits()).rem(&c.p);
                            for _ in 0..16 {
                                let t = if arg % 2 == 0 { c.rhs(&wires[w].0).addmod(&bit, &c.p) } else { c.rhs(&wires[w].0).submod(&bit, &c.p) };
                                if let Some(y) = c.sqrt(&t) {
                                    wires[w].1 = y;
                                    break;
                                }
                                wires[w].0 = wires[w].0.addmod(&Bn::one(), &c.p);
                            }
                        }
                    }
                    cx.fault(PT_FAULTS[k]);
                    continue;
                }
                _ => {}
            }
            let p = match ps[a].as_mut() {
                Some(p) => p,
                None => continue,
            };
            let name = BACKENDS[p.b].0;
            let wi = st.u(1) % 4;
            // a received point is checked first; an invalid one is not used
            let mut got: Pt = None;
            if matches!(op, "add" | "take" | "mul" | "agree" | "vol") {
                let (x, y) = (to_big(&wires[wi].0), to_big(&wires[wi].1));
                got = dec(&wires[wi]);
                if got.is_some() {
                    let on = cx.lib("is_on_curve", || p.c.is_on_curve(&x, &y))?;
                    let want = c.on_curve(&got);
                    cx.require(on == want, "on-curve", || format!("{}: point {} reported as {} the curve", name, show(&got), if on { "on" } else { "off" }))?;
                    cx.state(&[9, p.b as i64, want as i64, wires[wi].0.is_zero() as i64, wires[wi].1.is_zero() as i64]);
                    if !want {
                        cx.probe("invalid_point_refused");
                        continue;
                    }
                }
            }
            let (gx, gy) = { let e = enc(&got); (to_big(&e.0), to_big(&e.1)) };
            let (ax, ay) = { let e = enc(&p.acc); (to_big(&e.0), to_big(&e.1)) };
            cx.sched(a, op);
            let (res, want, what) = match op {
                "add" => {
                    let rel = match (&got, &p.acc) {
                        (None, None) => 0,
                        (None, _) => 1,
                        (_, None) => 2,
                        (g, h) if g == h => 3,
                        (Some(g), Some(h)) if g.0 == h.0 => 4,
                        _ => 5,
                    };
                    cx.state(&[0, p.b as i64, rel, parity(&got), parity(&p.acc)]);
                    (cx.lib("add", || p.c.add(&ax, &ay, &gx, &gy))?, c.add(&p.acc, &got), format!("{} + {}", show(&p.acc), show(&got)))
                }
                "vol" => {
                    // scalars k, l, k + l, k + 2l, ...: each multiple is the sum of the two before it
                    let of = if st.u(4) == 1 { Some((c.gx.clone(), c.gy.clone())) } else { got.clone() };
                    if of.is_none() {
                        continue;
                    }
                    let mut ks: Vec<Bn> = (0..2).map(|j| Bn::from_be(&payload(st.i(3) * 32 + 15 + 16 * j, 66)).rem(&c.n)).collect();
                    let mut pts: Vec<Pt> = ks.iter().map(|k| c.mul(k, &of)).collect();
                    for _ in 0..st.u(2).min(5000) {
                        let k = ks[0].addmod(&ks[1], &c.n);
                        let kn = to_big(&k);
                        let res = if st.u(4) == 1 { cx.lib("scalar_base_point", || p.c.scalar_base_point(kn.as_ref()))? } else { cx.lib("scalar", || p.c.scalar(&gx, &gy, kn.as_ref()))? };
                        let w = match (from_big(&res.0), from_big(&res.1)) {
                            (Some(x), Some(y)) => (x, y),
                            _ => return cx.fail("no-point", format!("{}: {} * {} gives no numbers", name, k.show(), show(&of))),
                        };
                        let sum = dec(&w);
                        if !c.is_sum(&pts[0], &pts[1], &sum) {
                            let want = c.mul(&k, &of);
                            cx.require(sum == want, "wrong-point", || format!("{}: {} * {} gives {} instead of {}", name, k.show(), show(&of), show(&sum), show(&want)))?;
                        }
                        ks = vec![ks.remove(1), k];
                        pts = vec![pts.remove(1), sum];
                    }
                    cx.event(op, &pts[1].as_ref().map_or(vec![], |x| x.0.to_be()));
                    cx.require(true, "wrong-point", String::new)?;
                    cx.state(&[5, p.b as i64, st.i(4), parity(&pts[1])]);
                    continue;
                }
                "dbl" => {
                    cx.state(&[1, p.b as i64, parity(&p.acc)]);
                    (cx.lib("double", || p.c.double(&ax, &ay))?, c.add(&p.acc, &p.acc), format!("2 * {}", show(&p.acc)))
                }
                "take" => {
                    p.acc = got;
                    continue;
                }
                "send" => {
                    wires[wi] = enc(&p.acc);
                    continue;
                }
                "mul" | "agree" => {
                    let k = if op == "mul" { scalar(c, st.u(2), st.i(3)) } else { p.d.clone() };
                    let kn = to_big(&k);
                    cx.state(&[2, p.b as i64, parity(&got), (k.bits() as i64 + 7) / 8, k.is_even() as i64]);
                    (cx.lib("scalar", || p.c.scalar(&gx, &gy, kn.as_ref()))?, c.mul(&k, &got), format!("{} * {}", k.show(), show(&got)))
                }
                "pub" | "base" => {
                    let k = if op == "base" { scalar(c, st.u(1), st.i(2)) } else { p.d.clone() };
                    let kn = to_big(&k);
                    cx.state(&[3, p.b as i64, (k.bits() as i64 + 7) / 8, k.is_even() as i64]);
                    (cx.lib("scalar_base_point", || p.c.scalar_base_point(kn.as_ref()))?, c.base(&k), format!("{} * G", k.show()))
                }
                _ => continue,
            };
            let w = match (from_big(&res.0), from_big(&res.1)) {
                (Some(x), Some(y)) => (x, y),
                _ => return cx.fail("no-point", format!("{}: {} gives no numbers", name, what)),
            };
            cx.event(op, &w.0.to_be());
            cx.require(w == enc(&want), "wrong-point", || format!("{}: {} gives {} instead of {}", name, what, show(&dec(&w)), show(&want)))?;
            match op {
                "pub" => wires[wi] = w,
                _ => p.acc = dec(&w),
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = points computed by a party or membership decisions, each compared with the reference group law; a state is (operation, backend, relation of the operands, parity of coordinates or length of the scalar)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto curve backends (P-224, P-256 dedicated; generic for all four curves)", "rmath integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["parties and channel (accumulators and wire slots)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["coordinates are below the field prime", "points off the curve are only tested for membership", "(0, 0) stands for infinity, as the library documents"]
    }
}

// ---------------------------------------------------------------- S06

pub struct S06;

type Gen = DSA<AnyHash, SimRng>;

fn dsa_params(size: usize, rd: &mut SimRng) -> Result<dsa::DomainParameters, CryptoError> {
    match size {
        0 => Gen::l1024_n160(rd),
        1 => Gen::l2048_n224(rd),
        2 => Gen::l2048_n256(rd),
        _ => Gen::l3072_n256(rd),
    }
}

fn dsa_key(size: usize, rd: &mut SimRng) -> Result<dsa::PrivateKey, CryptoError> {
    match size {
        0 => Gen::l1024_n160_key(rd),
        1 => Gen::l2048_n224_key(rd),
        2 => Gen::l2048_n256_key(rd),
        _ => Gen::l3072_n256_key(rd),
    }
}

/// a signing object together with the display of its key: made from a new key, or by one call
fn dsa_object(size: usize, whole: bool, rd: &mut SimRng) -> Result<(Gen, String), CryptoError> {
    let (h, r) = (AnyHash::get(1), rd.clone());
    let o = match (whole, size) {
        (false, _) => DSA::new_uncheck(h, r, dsa::KeyPair::from(dsa_key(size, rd)?))?,
        (_, 0) => Gen::new_with_l1024_n160(h, r)?,
        (_, 1) => Gen::new_with_l2048_n224(h, r)?,
        (_, 2) => Gen::new_with_l2048_n256(h, r)?,
        _ => Gen::new_with_l3072_n256(h, r)?,
    };
    let t = o.key_pair().private_key().map(|k| format!("{}", k)).unwrap_or_default();
    Ok((o, t))
}

const SIZES: [(usize, usize); 4] = [(1024, 160), (2048, 224), (2048, 256), (3072, 256)];

impl Scenario for S06 {
    fn id(&self) -> &'static str {
        "S06"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 8, thorough: 60 },
            RunKind { name: "failing-source", quick: 40, thorough: 400 },
            RunKind { name: "degraded-source", quick: 16, thorough: 160 },
            RunKind { name: "chosen-private-key", quick: 24, thorough: 200 },
            RunKind { name: "larger-sizes", quick: 6, thorough: 16 },
            RunKind { name: "short-prime-offered", quick: 6, thorough: 40 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.range(0, 1 << 30));
        // in the quick tier the longest parameters are made once at most
        let size = match (kind, tier) {
            (4, Tier::Quick) => 1 + r.range(0, 10) % 2,
            (4, _) => r.range(1, 3),
            _ => 0,
        };
        match kind {
            1 => {
                let skip = match r.below(3) {
                    0 => r.range(0, 40),
                    1 => r.range(0, 400),
                    _ => r.range(0, 6000),
                };
                p.push("rng", &[0, skip, if r.chance(1, 3) { r.range(2, 60) } else { 1 }]);
            }
            2 => p.push("rng", &[r.range(1, RNG_FAULTS.len() as i64 - 2), r.range(0, 1000), r.range(1, 400)]),
            _ => {}
        }
        if kind == 5 {
            p.push("short", &[size, r.data_seed()]);
        }
        if kind == 3 {
            p.push("pick", &[size, r.range(0, 6), r.data_seed()]);
        } else {
            p.push("gen", &[size, r.range(0, 1)]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let seed = 0xd5a0 + plan.getu("seed") as u64;
        let mut rng = SimRng::new(seed);
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let size = st.u(0) % SIZES.len();
            match st.op.as_ref() {
                "rng" => {
                    rng.disarm();
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                }
                "short" => {
                    // words that lead to a q whose nearest p from numbers with leading zero words is a prime one bit short
                    let (l, n) = SIZES[size];
                    let mut r = Rng::new(st.i(1) as u64 ^ 0x2e05);
                    let (one, top) = (Bn::one(), Bn::one().shl(l - 1));
                    for _ in 0..150_000 {
                        let mut c: Vec<u32> = (0..n / 32).map(|_| r.next() as u32).collect();
                        c[0] |= 1;
                        c[n / 32 - 1] |= 3 << 30;
                        let b: Vec<u8> = c.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
                        let q = Bn::from_be(&b);
                        let x = top.add(&one);
                        let p = x.sub(&x.rem(&q)).add(&one);
                        if p.is_even() || !q.is_prime() || !p.is_prime() {
                            continue;
                        }
                        let mut dry = SimRng::new(seed);
                        dry.budget(4_000_000);
                        dry.script(&c);
                        let got = guarded(|| Nat::generate_prime(n, Gen::test_round_times(), &mut dry));
                        if matches!(&got, Ok(Ok(v)) if Bn::from_be(&v.to_be_bytes()) == q) {
                            rng.script(&dry.out_from(0));
                            rng.script(&vec![0; l / 32]);
                            cx.fault("leading_words_zero");
                        }
                        break;
                    }
                }
                "gen" | "pick" => {
                    if st.op == "pick" {
                        // learn how many words the parameters take, then choose what the key is drawn from
                        let mut dry = SimRng::new(seed);
                        dry.budget(4_000_000);
                        if cx.lib("parameters", || dsa_params(size, &mut dry))?.is_err() {
                            return cx.fail("refused", "parameter generation failed with a healthy source");
                        }
                        let used = dry.count().0;
                        rng = SimRng::new(seed);
                        match st.u(1) % 7 {
                            0 | 1 => rng.arm(1, used, (SIZES[size].1 / 32) as u64),
                            2 => rng.arm(2, used, (SIZES[size].1 / 32) as u64),
                            3 => rng.arm(0, used + st.u(2) as u64 % 6, 1),
                            4 => rng.arm(1, used + 1, (SIZES[size].1 / 32 - 1) as u64),
                            5 => rng.arm(1, used, (SIZES[size].1 / 32 * 3) as u64),
                            _ => rng.arm(3, used, 3),
                        }
                        cx.fault("fault_placed_at_key_draw");
                    }
                    rng.budget(4_000_000);
                    let (w0, e0) = rng.count();
                    cx.sched(0, "gen");
                    cx.real += 1;
                    let whole = st.op == "gen" && st.u(1) == 1;
                    let res = guarded(|| dsa_object(size, whole, &mut rng));
                    let (w1, e1) = rng.count();
                    let errs = e1 - e0;
                    rng.report(cx);
                    let (mut obj, t) = match res {
                        Ok(Ok(k)) => k,
                        Ok(Err(_)) => {
                            cx.event("error", &[]);
                            cx.state(&[size as i64, 0, errs.min(3) as i64, 64 - (w1 - w0).leading_zeros() as i64]);
                            cx.require(errs > 0, "refused", || format!("{:?}: refused although the source delivered", SIZES[size]))?;
                            continue;
                        }
                        Err(p) if p.budget.is_some() => return cx.fail("no-progress", format!("{:?}: no key after 4000000 words", SIZES[size])),
                        Err(p) => {
                            let class = if errs > 0 && p.loc.contains("/rmath-") && p.loc.contains("/nat.rs") { "panic-in-rmath-prime-search-on-source-error" } else { "panic" };
                            return cx.fail(class, format!("{:?}: {} at {}", SIZES[size], p.msg, p.loc));
                        }
                    };
                    cx.state(&[size as i64, 1, errs.min(3) as i64, 64 - (w1 - w0).leading_zeros() as i64]);
                    let f = |n: &str| display_field(&t, n);
                    let (x, y, p, q, g) = match (f("x"), f("y"), f("p"), f("q"), f("g")) {
                        (Some(x), Some(y), Some(p), Some(q), Some(g)) => (x, y, p, q, g),
                        _ => return cx.fail("no-key", format!("key without numbers: {}", t)),
                    };
                    cx.event("p", &p.to_be());
                    cx.event("x", &x.to_be());
                    let one = Bn::one();
                    cx.require((p.bits(), q.bits()) == SIZES[size], "size", || format!("{:?}: p has {} bits, q has {}", SIZES[size], p.bits(), q.bits()))?;
                    cx.require(p.sub(&one).rem(&q).is_zero(), "subgroup", || format!("{:?}: q does not divide p-1", SIZES[size]))?;
                    cx.require(p.is_prime() && q.is_prime(), "prime", || format!("{:?}: p or q is composite", SIZES[size]))?;
                    cx.require(one < g && g < p && g.powmod(&q, &p) == one, "generator", || format!("{:?}: g has not order q", SIZES[size]))?;
                    cx.require(!x.is_zero() && x < q, "range", || format!("{:?}: private key outside [1, q-1]: {}", SIZES[size], x.show()))?;
                    cx.require(g.powmod(&x, &p) == y, "mismatch", || format!("{:?}: public key does not belong to the private key", SIZES[size]))?;
                    // use the fresh key once
                    rng.disarm();
                    let msg = payload(i as i64 + 3, 21);
                    let mut sc = SignatureContent::new();
                    let d = crate::refs::ec::Dsa { p, q, g };
                    let good = cx.lib("sign", || {
                        obj.sig(&mut sc, &msg)?;
                        obj.ver(&sc, &msg)
                    })?;
                    let (r, s) = sc.to_bigint();
                    let ok = good.is_ok() && matches!((from_big(&r), from_big(&s)), (Some(r), Some(s)) if d.verify(&y, &ref_hash(1, &msg), &r, &s));
                    cx.require(ok, "unusable", || format!("{:?}: signing with the new key fails", SIZES[size]))?;
                }
                _ => {}
            }
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = generated parameter sets and keys audited by the reference, plus refusals judged; a state is (size, key or error, source errors up to 3, log2 of words consumed)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto DSA parameter and key generation", "rmath prime search and integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["mostly 1024-bit parameters and six times 2048-bit ones in the quick tier, all four sizes in the thorough tier", "source faults last at most 400 words; 4000000 words are allowed per key", "numbers are read from the key's display"]
    }
}
