//! The caller's integers after they went into or came out of the library (K01): keys, parameters, curves and
//! signatures keep their values whatever the caller does to its own integers afterwards, and no call changes them.

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::ec::{Curve, Pt};
use crate::scen::asym::*;
use crate::scen::dss::BACKENDS;
use crate::scen::ecdh::backend;
use crate::seams::SimRng;
use rcrypto::dsa::{self, SignatureContent};
use rcrypto::elliptic::{self, EllipticCurve};
use rcrypto::rsa;
use rmath::bigint::{BigInt, Nat};

pub struct K01;

const NI: usize = 8;
const NN: usize = 3;
const NO: usize = 6;

const CHANGES: [&str; 8] = [
    "caller_adds_in_place", "caller_subtracts_in_place", "caller_multiplies_in_place", "caller_shifts_left_in_place",
    "caller_shifts_right_in_place", "caller_reduces_in_place", "caller_flips_bits_in_place", "caller_drops_integer",
];

enum Obj {
    RsaPub(rsa::PublicKey),
    RsaPri(rsa::PrivateKey),
    Dp(dsa::DomainParameters),
    DsaPub(dsa::PublicKey),
    DsaPri(dsa::PrivateKey),
    EcPub(elliptic::PublicKey),
    EcPri(elliptic::PrivateKey),
    Sig(SignatureContent),
}

impl Obj {
    fn text(&self) -> String {
        match self {
            Obj::RsaPub(k) => format!("{}", k),
            Obj::RsaPri(k) => format!("{}", k),
            Obj::Dp(k) => format!("{}", k),
            Obj::DsaPub(k) => format!("{}", k),
            Obj::DsaPri(k) => format!("{}", k),
            Obj::EcPub(k) => format!("{}", k),
            Obj::EcPri(k) => format!("{}", k),
            Obj::Sig(_) => String::new(),
        }
    }
    fn copy(&self) -> Obj {
        match self {
            Obj::RsaPub(k) => Obj::RsaPub(k.clone()),
            Obj::RsaPri(k) => Obj::RsaPri(k.clone()),
            Obj::Dp(k) => Obj::Dp(k.clone()),
            Obj::DsaPub(k) => Obj::DsaPub(k.clone()),
            Obj::DsaPri(k) => Obj::DsaPri(k.clone()),
            Obj::EcPub(k) => Obj::EcPub(k.clone()),
            Obj::EcPri(k) => Obj::EcPri(k.clone()),
            Obj::Sig(s) => {
                let (r, v) = s.to_bigint();
                Obj::Sig(SignatureContent::form_bigint(&r, &v))
            }
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Obj::RsaPub(_) => "RSA public key",
            Obj::RsaPri(_) => "RSA private key",
            Obj::Dp(_) => "DSA domain parameters",
            Obj::DsaPub(_) => "DSA public key",
            Obj::DsaPri(_) => "DSA private key",
            Obj::EcPub(_) => "curve public key",
            Obj::EcPri(_) => "curve private key",
            Obj::Sig(_) => "signature",
        }
    }
    fn rank(&self) -> i64 {
        match self {
            Obj::RsaPub(_) => 0,
            Obj::RsaPri(_) => 1,
            Obj::Dp(_) => 2,
            Obj::DsaPub(_) => 3,
            Obj::DsaPri(_) => 4,
            Obj::EcPub(_) => 5,
            Obj::EcPri(_) => 6,
            Obj::Sig(_) => 7,
        }
    }
}

type Fields = Vec<(&'static str, Bn)>;

fn to_nat(b: &Bn) -> Nat {
    let v = b.to_be();
    Nat::from_be_bytes(if v.is_empty() { &[0] } else { &v })
}

/// a change in place, by the integer library; false where it does not apply
macro_rules! change {
    ($make:expr, $v:expr, $m:expr, $how:expr, $amount:expr) => {{
        let a = Bn::from_u64($amount as u64 % 0xffff_fff0 + 1);
        match $how {
            0 => { *$v += $make(&a); true }
            1 if *$m > a => { *$v -= $make(&a); true }
            2 if $m.bits() < 1200 => { *$v *= $make(&a); true }
            3 if $m.bits() < 1200 => { *$v <<= $amount % 31 + 1; true }
            4 if $m.bits() > 60 => { *$v >>= $amount % 31 + 1; true }
            5 if $m.bits() > 40 => { *$v %= $make(&a); true }
            6 => { *$v ^= $make(&a); true }
            _ => false,
        }
    }};
}

struct World {
    ints: Vec<Option<(BigInt, Bn)>>,
    nats: Vec<Option<(Nat, Bn)>>,
    objs: Vec<Option<(Obj, Fields)>>,
}

impl World {
    /// everything still has the value the model gives it
    fn audit(&self, cx: &mut Ctx, after: &str) -> Check {
        for (i, s) in self.ints.iter().enumerate() {
            if let Some((v, m)) = s {
                let got = from_big(v);
                cx.require(got.as_ref() == Some(m), "integer-changed", || {
                    format!("after {}: the caller's integer {} is {} instead of {}", after, i, got.map_or("not a number".into(), |x| x.show()), m.show())
                })?;
            }
        }
        for (i, s) in self.nats.iter().enumerate() {
            if let Some((v, m)) = s {
                let got = Bn::from_be(&v.to_be_bytes());
                cx.require(got == *m, "integer-changed", || format!("after {}: the caller's natural number {} is {} instead of {}", after, i, got.show(), m.show()))?;
            }
        }
        for s in self.objs.iter().flatten() {
            let name = s.0.name();
            if let Obj::Sig(c) = &s.0 {
                let (r, v) = cx.lib("to_bigint", || c.to_bigint())?;
                let got = (from_big(&r), from_big(&v));
                let want = (Some(s.1[0].1.clone()), Some(s.1[1].1.clone()));
                cx.require(got == want, "object-changed", || format!("after {}: the signature's numbers are no longer {} and {}", after, s.1[0].1.show(), s.1[1].1.show()))?;
                continue;
            }
            let t = cx.lib("display", || s.0.text())?;
            for (f, m) in &s.1 {
                let got = display_field(&t, f);
                cx.require(got.as_ref() == Some(m), "object-changed", || {
                    format!("after {}: {} of the {} is {} instead of {}", after, f, name, got.map_or("missing".into(), |x| x.show()), m.show())
                })?;
            }
        }
        Ok(())
    }
    fn pair(&self, p: usize) -> Option<(Bn, Bn)> {
        match (&self.ints[2 * p], &self.ints[2 * p + 1]) {
            (Some(a), Some(b)) => Some((a.1.clone(), b.1.clone())),
            _ => None,
        }
    }
    /// the point in a pair of slots, if it is one of the curve (or infinity)
    fn point(&self, c: &Curve, p: usize) -> Option<Pt> {
        let (x, y) = self.pair(p)?;
        if x.is_zero() && y.is_zero() {
            return Some(None);
        }
        if x >= c.p || y >= c.p {
            return None;
        }
        let q = Some((x, y));
        if c.on_curve(&q) { Some(q) } else { None }
    }
}

fn value(bits: usize, seed: i64) -> Bn {
    let v = Bn::from_be(&payload(seed * 16 + 15, (bits + 7) / 8)).rem(&Bn::one().shl(bits));
    if v.is_even() { v.add(&Bn::one()) } else { v }
}

impl Scenario for K01 {
    fn id(&self) -> &'static str {
        "K01"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "caller-keeps-its-integers", quick: 600, thorough: 8000 },
            RunKind { name: "caller-changes-its-integers", quick: 6000, thorough: 90000 },
            RunKind { name: "curve-results-changed", quick: 800, thorough: 12000 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        let back = *r.pick(&[0i64, 0, 1, 2, 2, 3, 4, 5]);
        p.set("backend", back);
        for i in 0..NI as i64 {
            p.push("int", &[i, *r.pick(&[2i64, 17, 33, 64, 90, 160, 256, 384, 512]), r.data_seed()]);
        }
        for i in 0..NN as i64 {
            p.push("nat", &[i, *r.pick(&[2i64, 17, 33, 64, 90, 256, 512]), r.data_seed()]);
        }
        if kind == 2 || r.chance(1, 4) {
            for q in 0..r.range(1, 3) {
                p.push("pt", &[q, r.range(0, 4), r.data_seed()]);
            }
        }
        let int = NI as i64 - 1;
        let obj = NO as i64 - 1;
        if kind < 2 && r.chance(1, 2) {
            // one object of every kind, built on integers that fit
            for (i, bits) in [400i64, 160, 390, 300, 100, 200, 250, 64].iter().enumerate() {
                p.push("int", &[i as i64, *bits, r.data_seed()]);
            }
            p.push("dp", &[0, 0, 1, 2]);
            p.push("dpub", &[1, 0, 3]);
            p.push("dpri", &[2, 1, 4]);
            p.push("ecpub", &[3, r.range(0, 3)]);
            p.push("ecpri", &[4, 3, r.range(0, int)]);
            match r.below(3) {
                0 => p.push("rsak", &[5, r.range(48, 130), r.range(2, 4), r.data_seed()]),
                1 => p.push("rsab", &[5, 0, r.range(1, int)]),
                _ => p.push("sig", &[5, r.range(0, int), r.range(0, int)]),
            }
        }
        for _ in 0..r.range(4, if kind == 2 { 12 } else { 30 }) {
            if kind > 0 && r.chance(1, 3) {
                if r.chance(1, 4) {
                    p.push("chn", &[r.range(0, NN as i64 - 1), r.range(0, 7), r.data_seed()]);
                } else {
                    p.push("chg", &[r.range(0, int), r.range(0, 7), r.data_seed()]);
                }
                continue;
            }
            if kind == 2 {
                match r.below(10) {
                    0..=2 => p.push("add", &[r.range(0, 3), r.range(0, 3), r.range(0, 3)]),
                    3 => p.push("dbl", &[r.range(0, 3), r.range(0, 3)]),
                    4 => p.push("mul", &[r.range(0, 3), r.range(0, int), r.range(0, 3)]),
                    5..=6 => p.push("bas", &[r.range(0, int), r.range(0, 3)]),
                    7 => p.push("pt", &[r.range(0, 3), r.range(0, 4), r.data_seed()]),
                    8 if r.chance(1, 2) => p.push("ecpub", &[r.range(0, obj), r.range(0, 3)]),
                    8 => p.push("on", &[r.range(0, 3)]),
                    _ => p.push("int", &[r.range(0, int), *r.pick(&[1i64, 1, 2, 8, 64, 256]), r.data_seed()]),
                }
                continue;
            }
            match r.below(22) {
                0..=2 => p.push("rsab", &[r.range(0, obj), r.range(0, int), r.range(0, int)]),
                3..=4 => p.push("rsan", &[r.range(0, obj), r.range(0, NN as i64 - 1), r.range(0, NN as i64 - 1)]),
                5 => p.push("rsak", &[r.range(0, obj), r.range(48, 130), r.range(2, 4), r.data_seed()]),
                6 => p.push("dp", &[r.range(0, obj), r.range(0, int), r.range(0, int), r.range(0, int)]),
                7 => p.push("dpub", &[r.range(0, obj), r.range(0, obj), r.range(0, int)]),
                8 => p.push("dpri", &[r.range(0, obj), r.range(0, obj), r.range(0, int)]),
                9 => p.push("ecpub", &[r.range(0, obj), r.range(0, 3)]),
                10 => p.push("ecpri", &[r.range(0, obj), r.range(0, obj), r.range(0, int)]),
                11 => p.push("sig", &[r.range(0, obj), r.range(0, int), r.range(0, int)]),
                12 => p.push("sigset", &[r.range(0, obj), r.range(0, int), r.range(0, int)]),
                13 => p.push("sigget", &[r.range(0, obj), r.range(0, 3)]),
                14..=15 => p.push("copy", &[r.range(0, obj), r.range(0, obj)]),
                16..=17 => p.push("enc", &[r.range(0, obj), r.range(0, int), r.range(0, int)]),
                18 => p.push("dec", &[r.range(0, obj), r.range(0, int), r.range(0, int), r.range(0, 2)]),
                19 => p.push("part", &[r.range(0, obj), r.range(0, obj)]),
                20 => p.push("int", &[r.range(0, int), *r.pick(&[1i64, 2, 17, 33, 64, 90, 160, 256, 512]), r.data_seed()]),
                _ => p.push("nat", &[r.range(0, NN as i64 - 1), *r.pick(&[2i64, 17, 64, 90, 256, 512]), r.data_seed()]),
            }
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let b = plan.getu("backend") % BACKENDS.len();
        let c = Curve::get(BACKENDS[b].1);
        let mut curve: Option<Box<dyn EllipticCurve>> = None;
        let mut rng = SimRng::new(0xa11a5 + plan.getu("seed") as u64);
        rng.budget(2_000_000);
        let mut w = World { ints: (0..NI).map(|_| None).collect(), nats: (0..NN).map(|_| None).collect(), objs: (0..NO).map(|_| None).collect() };
        let mut changed = 0i64;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let op = st.op.as_ref();
            match op {
                "int" => {
                    let m = value(st.u(1) % 600 + 1, st.i(2));
                    w.ints[st.u(0) % NI] = Some((to_big(&m), m));
                    continue;
                }
                "nat" => {
                    let m = value(st.u(1) % 600 + 1, st.i(2));
                    w.nats[st.u(0) % NN] = Some((to_nat(&m), m));
                    continue;
                }
                "pt" => {
                    let k = match st.u(1) % 5 {
                        0 => Bn::zero(),
                        1 => Bn::one(),
                        2 => c.n.sub(&Bn::one()),
                        _ => value(c.n.bits(), st.i(2)).rem(&c.n),
                    };
                    let (x, y) = c.base(&k).unwrap_or((Bn::zero(), Bn::zero()));
                    let q = st.u(0) % 4;
                    w.ints[2 * q] = Some((to_big(&x), x));
                    w.ints[2 * q + 1] = Some((to_big(&y), y));
                    continue;
                }
                "chg" | "chn" => {
                    let (how, amount) = (st.u(1) % CHANGES.len(), st.u(2));
                    let done = if op == "chg" {
                        let s = &mut w.ints[st.u(0) % NI];
                        if how == 7 {
                            s.take().is_some()
                        } else {
                            let done = s.as_mut().map_or(false, |(v, m)| change!(to_big, v, m, how, amount));
                            // what the changed integer is now is the integer library's business
                            *s = s.take().and_then(|(v, _)| from_big(&v).map(|m| (v, m)));
                            done
                        }
                    } else {
                        let s = &mut w.nats[st.u(0) % NN];
                        if how == 7 {
                            s.take().is_some()
                        } else {
                            let done = s.as_mut().map_or(false, |(v, m)| change!(to_nat, v, m, how, amount));
                            *s = s.take().map(|(v, _)| { let m = Bn::from_be(&v.to_be_bytes()); (v, m) });
                            done
                        }
                    };
                    if done {
                        cx.fault(CHANGES[how]);
                        changed += 1;
                        cx.sched(0, CHANGES[how]);
                        let live: i64 = w.objs.iter().flatten().fold(0, |a, o| a | 1 << o.0.rank());
                        cx.state(&[0, how as i64, live]);
                        w.audit(cx, CHANGES[how])?;
                    }
                    continue;
                }
                _ => {}
            }
            if curve.is_none() && matches!(op, "add" | "dbl" | "mul" | "bas" | "on") {
                match cx.lib("curve", || backend(b))? {
                    Ok(cv) => curve = Some(cv),
                    Err(_) => return cx.fail("refused", "curve cannot be made"),
                }
            }
            cx.sched(1, op);
            let o = st.u(0) % NO;
            let int = |w: &World, k: usize| w.ints[st.u(k) % NI].as_ref().map(|x| x.1.clone());
            match op {
                "rsab" | "rsan" => {
                    let big = op == "rsab";
                    let (ni, ei) = if big { (st.u(1) % NI, st.u(2) % NI) } else { (st.u(1) % NN, st.u(2) % NN) };
                    let (n, e) = match if big { (w.ints[ni].as_ref().map(|x| &x.1), w.ints[ei].as_ref().map(|x| &x.1)) } else { (w.nats[ni].as_ref().map(|x| &x.1), w.nats[ei].as_ref().map(|x| &x.1)) } {
                        (Some(n), Some(e)) if n > e && *e >= Bn::from_u64(3) => (n.clone(), e.clone()),
                        _ => continue,
                    };
                    let res = if big {
                        let (x, y) = (&w.ints[ni].as_ref().unwrap().0, &w.ints[ei].as_ref().unwrap().0);
                        cx.lib("from_bigint", || rsa::PublicKey::from_bigint(x, y))?
                    } else {
                        let (x, y) = (&w.nats[ni].as_ref().unwrap().0, &w.nats[ei].as_ref().unwrap().0);
                        cx.lib("from_nat", || rsa::PublicKey::from_nat(x, y))?
                    };
                    match res {
                        Ok(k) => w.objs[o] = Some((Obj::RsaPub(k), vec![("n", n), ("e", e)])),
                        Err(_) => return cx.fail("refused", format!("RSA public key refused for n = {}, e = {}", n.show(), e.show())),
                    }
                }
                "rsak" => {
                    let (bits, primes) = (st.u(1).max(48) % 160, st.u(2) % 4 + 2);
                    let mut r2 = SimRng::new(st.i(3) as u64);
                    r2.budget(2_000_000);
                    let k = cx.lib("generate_multi_prime_key", || rsa::PrivateKey::generate_multi_prime_key(primes.min(bits / 16), bits.max(48), 6, &mut r2))?;
                    if let Some(k) = k.ok().and_then(Key::read) {
                        w.objs[o] = Some((Obj::RsaPri(k.sk), vec![("n", k.n), ("e", k.e), ("d", k.d)]));
                    }
                }
                "dp" => {
                    let (a, q, g) = match (int(&w, 1), int(&w, 2), int(&w, 3)) {
                        (Some(a), Some(q), Some(g)) if g.bits() <= a.bits() && !q.is_zero() && !g.is_zero() => (a, q, g),
                        _ => continue,
                    };
                    let s = |k: usize| &w.ints[st.u(k) % NI].as_ref().unwrap().0;
                    match cx.lib("new_uncheck", || dsa::DomainParameters::new_uncheck(s(1), s(2), s(3)))? {
                        Ok(d) => w.objs[o] = Some((Obj::Dp(d), vec![("p", a), ("q", q), ("g", g)])),
                        Err(_) => return cx.fail("refused", format!("domain parameters refused: p = {}, q = {}, g = {}", a.show(), q.show(), g.show())),
                    }
                }
                "dpub" => {
                    let y = match int(&w, 2) {
                        Some(y) => y,
                        _ => continue,
                    };
                    let (k, mut f) = match &w.objs[st.u(1) % NO] {
                        Some((Obj::Dp(d), f)) if !y.is_zero() && y.bits() <= f[0].1.bits() => {
                            (cx.lib("new_uncheck", || dsa::PublicKey::new_uncheck(d, &w.ints[st.u(2) % NI].as_ref().unwrap().0))?, f.clone())
                        }
                        _ => continue,
                    };
                    f.push(("y", y));
                    match k {
                        Ok(k) => w.objs[o] = Some((Obj::DsaPub(k), f)),
                        Err(_) => return cx.fail("refused", "DSA public key refused"),
                    }
                }
                "dpri" => {
                    let x = match int(&w, 2) {
                        Some(x) => x,
                        _ => continue,
                    };
                    let (k, mut f) = match &w.objs[st.u(1) % NO] {
                        Some((Obj::DsaPub(d), f)) if !x.is_zero() && x < f[1].1 => {
                            (cx.lib("new_uncheck", || dsa::PrivateKey::new_uncheck(d, &w.ints[st.u(2) % NI].as_ref().unwrap().0))?, f.clone())
                        }
                        _ => continue,
                    };
                    f.push(("x", x));
                    match k {
                        Ok(k) => w.objs[o] = Some((Obj::DsaPri(k), f)),
                        Err(_) => return cx.fail("refused", "DSA private key refused"),
                    }
                }
                "ecpub" => {
                    let q = st.u(1) % 4;
                    let (x, y) = match w.pair(q) {
                        Some(p) => p,
                        None => continue,
                    };
                    let k = {
                        let (a, b) = (&w.ints[2 * q].as_ref().unwrap().0, &w.ints[2 * q + 1].as_ref().unwrap().0);
                        cx.lib("new_uncheck", || elliptic::PublicKey::new_uncheck(a, b))?
                    };
                    w.objs[o] = Some((Obj::EcPub(k), vec![("qx", x), ("qy", y)]));
                }
                "ecpri" => {
                    let d = match int(&w, 2) {
                        Some(d) => d,
                        None => continue,
                    };
                    let (k, mut f) = match &w.objs[st.u(1) % NO] {
                        Some((Obj::EcPub(p), f)) => (cx.lib("new_uncheck", || elliptic::PrivateKey::new_uncheck(p.clone(), &w.ints[st.u(2) % NI].as_ref().unwrap().0))?, f.clone()),
                        _ => continue,
                    };
                    f.push(("d", d));
                    w.objs[o] = Some((Obj::EcPri(k), f));
                }
                "sig" => {
                    if let (Some(r), Some(s)) = (int(&w, 1), int(&w, 2)) {
                        let c = {
                            let (a, b) = (&w.ints[st.u(1) % NI].as_ref().unwrap().0, &w.ints[st.u(2) % NI].as_ref().unwrap().0);
                            cx.lib("form_bigint", || SignatureContent::form_bigint(a, b))?
                        };
                        w.objs[o] = Some((Obj::Sig(c), vec![("r", r), ("s", s)]));
                    }
                }
                "sigset" => {
                    if let (Some(r), Some(s)) = (int(&w, 1), int(&w, 2)) {
                        let (a, b) = (to_big(&r), to_big(&s));
                        if let Some((Obj::Sig(c), f)) = w.objs[o].as_mut() {
                            cx.lib("set", || c.set(a, b))?;
                            *f = vec![("r", r), ("s", s)];
                        }
                    }
                }
                "sigget" => {
                    let q = st.u(1) % 4;
                    let (r, s, f) = match &w.objs[o] {
                        Some((Obj::Sig(c), f)) => {
                            let (r, s) = cx.lib("to_bigint", || c.to_bigint())?;
                            (r, s, f.clone())
                        }
                        _ => continue,
                    };
                    w.ints[2 * q] = Some((r, f[0].1.clone()));
                    w.ints[2 * q + 1] = Some((s, f[1].1.clone()));
                }
                "copy" => {
                    if let Some((k, f)) = &w.objs[st.u(1) % NO] {
                        let n = (cx.lib("clone", || k.copy())?, f.clone());
                        w.objs[o] = Some(n);
                    }
                }
                "part" => {
                    // the public part of a private key, taken out of it
                    let n = match &w.objs[st.u(1) % NO] {
                        Some((Obj::RsaPri(k), f)) => (Obj::RsaPub(k.public_key().clone()), f[..2].to_vec()),
                        Some((Obj::DsaPri(k), f)) => (Obj::DsaPub(k.public_key().clone()), f[..4].to_vec()),
                        Some((Obj::DsaPub(k), f)) => (Obj::Dp(k.domain_parameters().clone()), f[..3].to_vec()),
                        Some((Obj::EcPri(k), f)) => (Obj::EcPub(k.public_key().clone()), f[..2].to_vec()),
                        _ => continue,
                    };
                    w.objs[o] = Some(n);
                }
                "enc" => {
                    let m = match int(&w, 1) {
                        Some(m) => m,
                        None => continue,
                    };
                    let (res, want) = {
                        let (pk, f) = match &w.objs[o] {
                            Some((Obj::RsaPub(k), f)) => (k, f),
                            Some((Obj::RsaPri(k), f)) => (k.public_key(), f),
                            _ => continue,
                        };
                        if m <= Bn::one() || m >= f[0].1 || f[0].1.is_even() {
                            continue;
                        }
                        let v = &w.ints[st.u(1) % NI].as_ref().unwrap().0;
                        (cx.lib("encrypt", || pk.encrypt(v))?, m.powmod(&f[1].1, &f[0].1))
                    };
                    cx.require(from_big(&res).as_ref() == Some(&want), "wrong-result", || format!("encrypt({}) is not {}", m.show(), want.show()))?;
                    w.ints[st.u(2) % NI] = Some((res, want));
                }
                "dec" => {
                    let m = match int(&w, 1) {
                        Some(m) => m,
                        None => continue,
                    };
                    let (res, want) = match &w.objs[o] {
                        Some((Obj::RsaPri(k), f)) if m < f[0].1 => {
                            let v = &w.ints[st.u(1) % NI].as_ref().unwrap().0;
                            let res = match st.u(3) % 3 {
                                0 => cx.lib("decrypt", || k.decrypt(v, None::<&mut SimRng>))?,
                                1 => cx.lib("decrypt", || k.decrypt(v, Some(&mut rng)))?,
                                _ => cx.lib("decrypt_and_check", || k.decrypt_and_check(v, Some(&mut rng)))?,
                            };
                            (res, m.powmod(&f[2].1, &f[0].1))
                        }
                        _ => continue,
                    };
                    match res {
                        Ok(res) => {
                            cx.require(from_big(&res).as_ref() == Some(&want), "wrong-result", || format!("decrypt({}) is not {}", m.show(), want.show()))?;
                            w.ints[st.u(2) % NI] = Some((res, want));
                        }
                        Err(_) => return cx.fail("refused", format!("decrypt({}) refused", m.show())),
                    }
                }
                "on" => {
                    let q = st.u(0) % 4;
                    let want = match w.pair(q) {
                        Some((x, y)) if x < c.p && y < c.p => c.on_curve(&Some((x, y))),
                        _ => continue,
                    };
                    let cv = curve.as_ref().unwrap();
                    let at = |k: usize| &w.ints[k].as_ref().unwrap().0;
                    let got = cx.lib("is_on_curve", || cv.is_on_curve(at(2 * q), at(2 * q + 1)))?;
                    cx.require(got == want, "wrong-result", || format!("{}: is_on_curve is {}", BACKENDS[b].0, got))?;
                }
                "add" | "dbl" | "mul" | "bas" => {
                    let cv = curve.as_ref().unwrap();
                    let q = st.u(0) % 4;
                    let at = |k: usize| &w.ints[k].as_ref().unwrap().0;
                    let (res, want, out) = match op {
                        "add" => {
                            let q2 = st.u(1) % 4;
                            match (w.point(c, q), w.point(c, q2)) {
                                (Some(a), Some(b)) => (cx.lib("add", || cv.add(at(2 * q), at(2 * q + 1), at(2 * q2), at(2 * q2 + 1)))?, c.add(&a, &b), st.u(2) % 4),
                                _ => continue,
                            }
                        }
                        "dbl" => match w.point(c, q) {
                            Some(a) => (cx.lib("double", || cv.double(at(2 * q), at(2 * q + 1)))?, c.add(&a, &a), st.u(1) % 4),
                            _ => continue,
                        },
                        "mul" => match (w.point(c, q), int(&w, 1)) {
                            (Some(a), Some(k)) => (cx.lib("scalar", || cv.scalar(at(2 * q), at(2 * q + 1), at(st.u(1) % NI).as_ref()))?, c.mul(&k, &a), st.u(2) % 4),
                            _ => continue,
                        },
                        _ => match int(&w, 0) {
                            Some(k) => (cx.lib("scalar_base_point", || cv.scalar_base_point(at(st.u(0) % NI).as_ref()))?, c.base(&k), st.u(1) % 4),
                            _ => continue,
                        },
                    };
                    let (x, y) = want.unwrap_or((Bn::zero(), Bn::zero()));
                    cx.require(from_big(&res.0).as_ref() == Some(&x) && from_big(&res.1).as_ref() == Some(&y), "wrong-result", || {
                        format!("{}: {} is not ({}, {}) after {} changes by the caller", BACKENDS[b].0, op, x.show(), y.show(), changed)
                    })?;
                    w.ints[2 * out] = Some((res.0, x));
                    w.ints[2 * out + 1] = Some((res.1, y));
                }
                _ => continue,
            }
            let live: i64 = w.objs.iter().flatten().fold(0, |a, o| a | 1 << o.0.rank());
            cx.state(&[1, fnv(7, op.as_bytes()) as i64, changed.min(4), live]);
            cx.event(op, &[live as u8]);
            w.audit(cx, op)?;
        }
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = values of the caller's integers, of keys, parameters, signatures and results compared with the model after every step; a state is (operation or kind of change, kinds of objects alive, number of changes so far)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto RSA, DSA and curve keys, domain parameters, signature container, curve backends", "rmath integers and their in-place operations"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["the caller that owns, changes and drops the integers", "random source (seeded)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["copies of an integer made by the integer library itself may share storage; the simulated caller makes its own from bytes", "points off the curve and messages above the modulus are not used"]
    }
}
