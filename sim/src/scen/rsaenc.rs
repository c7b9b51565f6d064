//! RSA encryption over a faulty channel with a faulty random source: R01 (PKCS#1 v1.5), R02 (OAEP).
//! Nodes are sender and receiver objects sharing one random device; ciphertexts travel in wire slots
//! where the channel can damage, replace or cross them.

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::rsa as rr;
use crate::scen::asym::*;
use crate::scen::dig::used;
use crate::seams::{SimRng, RNG_FAULTS};
use crate::with_hash;
use rcrypto::rsa::{KeyPair, PrivateKey, OAEP, PKCS1};
use rcrypto::{Cipher, CryptoError, Digest};
use std::any::Any;
use std::rc::Rc;

type R<T> = Result<T, CryptoError>;

trait EncObj {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> R<()>;
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> R<()>;
    fn label(&mut self, _l: Vec<u8>) {}
    fn max(&self) -> usize;
    fn klen(&self) -> usize;
    fn public(&self) -> String;
}

impl<H: Digest> EncObj for OAEP<H, SimRng> {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> R<()> {
        self.encrypt(dst, m)
    }
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> R<()> {
        self.decrypt(dst, c)
    }
    fn label(&mut self, l: Vec<u8>) {
        self.set_label(l)
    }
    fn max(&self) -> usize {
        self.max_message_len()
    }
    fn klen(&self) -> usize {
        self.modulus_len()
    }
    fn public(&self) -> String {
        format!("{}", self.public_key())
    }
}

impl<H: Digest + Any> EncObj for PKCS1<H, SimRng> {
    fn enc(&self, dst: &mut Vec<u8>, m: &[u8]) -> R<()> {
        self.encrypt(dst, m)
    }
    fn dec(&self, dst: &mut Vec<u8>, c: &[u8]) -> R<()> {
        self.decrypt(dst, c)
    }
    fn max(&self) -> usize {
        self.encrypt_max_message_len()
    }
    fn klen(&self) -> usize {
        self.modulus_len()
    }
    fn public(&self) -> String {
        format!("{}", self.public_key())
    }
}

struct Node {
    obj: Box<dyn EncObj>,
    key: Rc<Key>,
    hash: usize,
    private: bool,
    blind: bool,
    label: Vec<u8>,
    fails: i64,
}

pub struct Enc {
    pub oaep: bool,
}
pub const R01: Enc = Enc { oaep: false };
pub const R02: Enc = Enc { oaep: true };

const SLOTS: usize = 4;
const WIRES: usize = 6;
const SIZES: [usize; 10] = [512, 520, 513, 519, 600, 768, 777, 1024, 1536, 2048];

impl Enc {
    fn key_of(&self, cx: &mut Ctx, st: &Step) -> Result<Rc<Key>, Violation> {
        let bits = SIZES[st.u(1) % SIZES.len()];
        rsa_key(cx, bits, 2 + (st.u(2) % 7 == 6) as usize, st.i(2).rem_euclid(3))
    }
    fn limit(&self, k: usize, hash: usize) -> Option<usize> {
        if self.oaep {
            k.checked_sub(2 * HASH_LEN[hash] + 2)
        } else {
            k.checked_sub(11)
        }
    }
    fn decode(&self, key: &Key, hash: usize, label: &[u8], c: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
        if c.len() != key.k {
            return None;
        }
        let ci = Bn::from_be(c);
        if ci >= key.n {
            return None;
        }
        let em = key.private_op(&ci).to_be_len(key.k)?;
        if self.oaep {
            rr::oaep_decode(&|m: &[u8]| ref_hash(hash, m), label, &em)
        } else {
            let m = rr::eme_pkcs1_decode(&em)?;
            Some((em[2..em.len() - m.len() - 1].to_vec(), m))
        }
    }
    fn craft(&self, key: &Key, kind: usize, seed: i64, len: usize, hash: usize, label: &[u8]) -> Vec<u8> {
        let k = key.k;
        let h = |m: &[u8]| ref_hash(hash, m);
        let seal = |em: &[u8]| key.public_op(&Bn::from_be(em).rem(&key.n)).to_be_len(k).unwrap();
        if self.oaep {
            let hl = HASH_LEN[hash];
            let max = match self.limit(k, hash) {
                Some(m) => m,
                None => return payload(seed, k),
            };
            let len = match kind {
                6 => 0,
                7 => max,
                _ => len % (max + 1),
            };
            let msg = payload(seed, len);
            let sd = payload(seed * 16 + 15, hl);
            let rebuild = |f: &dyn Fn(&mut Vec<u8>)| {
                // db with a deliberate flaw, masked correctly
                let mut db = h(label);
                db.resize(k - hl - 1 - msg.len() - 1, 0);
                db.push(1);
                db.extend_from_slice(&msg);
                f(&mut db);
                let mdb: Vec<u8> = db.iter().zip(rr::mgf1(&h, &sd, db.len())).map(|(a, b)| a ^ b).collect();
                let ms: Vec<u8> = sd.iter().zip(rr::mgf1(&h, &mdb, hl)).map(|(a, b)| a ^ b).collect();
                let mut em = vec![0];
                em.extend(ms);
                em.extend(mdb);
                em
            };
            let em = match kind {
                1 => rr::oaep_encode(&h, k, &payload(seed + 3, len % 7 + 1), &sd, &msg),
                2 => rebuild(&|db| {
                    let n = db.len();
                    for x in db[hl..n].iter_mut() {
                        *x = 0;
                    }
                }),
                3 => rebuild(&|db| {
                    let i = db.len() - msg.len() - 1;
                    db[i] = 2;
                }),
                4 => {
                    let mut em = rr::oaep_encode(&h, k, label, &sd, &msg);
                    em[0] = 1 + (len % 3) as u8;
                    em
                }
                5 => rebuild(&|db| db[len % hl] ^= 1 << (len % 8)),
                8 => rebuild(&|db| {
                    // a second separator-like byte inside the padding
                    let i = db.len() - msg.len() - 1;
                    if i > hl {
                        db[hl + len % (i - hl)] = 3;
                    }
                }),
                9 => {
                    for t in 0..800i64 {
                        let em = rr::oaep_encode(&h, k, label, &payload((seed + t) * 16 + 15, hl), &msg);
                        let c = seal(&em);
                        if c[0] == 0 {
                            return c;
                        }
                    }
                    rr::oaep_encode(&h, k, label, &sd, &msg)
                }
                _ => rr::oaep_encode(&h, k, label, &sd, &msg),
            };
            seal(&em)
        } else {
            let max = k - 11;
            let len = match kind {
                7 => 0,
                2 => max,
                1 => max + 1,
                6 => k - 3,
                _ => len % (max + 1),
            };
            let nz = |n: usize, t: i64| -> Vec<u8> { payload((seed + t) * 16 + 15, n).into_iter().map(|b| if b == 0 { 1 } else { b }).collect() };
            let msg = payload(seed, len);
            let mut em = vec![0, 2];
            em.extend(nz(k - len - 3, 0));
            em.push(0);
            em.extend_from_slice(&msg);
            match kind {
                3 => em = [vec![0, 2], nz(k - 2, 0)].concat(),
                4 => em[1] = (len % 2) as u8,
                5 => em[0] = 1 + (len % 3) as u8,
                8 => em[2 + len % 8] = 0,
                9 => {
                    for t in 0..800 {
                        let em = [vec![0, 2], nz(k - len - 3, t), vec![0], msg.clone()].concat();
                        let c = seal(&em);
                        if c[0] == 0 {
                            return c;
                        }
                    }
                }
                _ => {}
            }
            seal(&em)
        }
    }
}

impl Scenario for Enc {
    fn id(&self) -> &'static str {
        if self.oaep {
            "R02"
        } else {
            "R01"
        }
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 1500, thorough: 20000 },
            RunKind { name: "faulty-channel", quick: 2500, thorough: 40000 },
            RunKind { name: "faulty-random-source", quick: 2000, thorough: 30000 },
            RunKind { name: "everything", quick: 2000, thorough: 30000 },
            RunKind { name: "own-key", quick: 60, thorough: 600 },
            RunKind { name: "large-keys", quick: 24, thorough: 300 },
            RunKind { name: "many-encryptions", quick: 12, thorough: 100 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        if kind == 6 {
            let h = if self.oaep { *r.pick(&[0i64, 1, 2]) } else { r.range(0, 5) };
            p.push("key", &[0, r.range(0, 3), r.range(0, 20)]);
            p.push("obj", &[0, 0, h, 0, r.data_seed(), 5, r.data_seed()]);
            let len = r.range(0, 3);
            for _ in 0..60 {
                p.push("enc", &[0, 0, r.data_seed(), 0, len]);
            }
            return p;
        }
        let chan = kind == 1 || kind == 3 || kind == 5;
        let rnd = kind == 2 || kind == 3;
        let nk = r.range(1, 2);
        let large = kind == 5;
        // larger moduli are slower; keep most runs small
        for i in 0..nk {
            let sz = if large { r.range(8, 9) } else if r.chance(1, 4) { r.range(5, 7) } else { r.range(0, 4) };
            p.push("key", &[i, sz, if large { 0 } else { r.range(0, 20) }]);
        }
        let h = if self.oaep { *r.pick(&[0i64, 1, 1, 2, 3, 6, 7, 8]) } else { *r.pick(&[1i64, 3, 0, 5, 6]) };
        let (ls, ll) = (r.data_seed(), r.range(0, 40));
        // a sender with only the public key, a receiver, and others
        let old = |r: &mut Rng| if r.chance(1, 3) { r.data_seed() } else { 0 };
        p.push("obj", &[0, 0, h, r.range(0, 1) * 4, ls, ll, old(r)]);
        p.push("obj", &[1, 0, h, 1 + r.range(0, 3) * 2, ls, ll, old(r)]);
        if r.chance(1, 2) {
            p.push("obj", &[2, r.range(0, nk - 1), h, r.range(0, 7), ls, ll, old(r)]);
        }
        if r.chance(1, 4) {
            p.push("obj", &[3, r.range(0, nk - 1), r.range(0, 8), r.range(0, 7), r.data_seed(), r.range(0, 100)]);
        }
        if kind == 4 {
            p.push("auto", &[2, r.range(0, 26), h, r.range(0, 1), ls, ll]);
        }
        let steps = if large { r.range(2, 4) } else { r.range(3, 12) };
        let top = if large { 250 } else { 60 };
        for _ in 0..steps {
            let o = r.range(0, 3);
            let w = r.range(0, WIRES as i64 - 1);
            match r.below(14) {
                0..=3 => {
                    let mode = *r.pick(&[0i64, 0, 0, 1, 1, 2]);
                    let len = if mode == 0 { r.range(0, top) } else { r.range(0, 3) };
                    p.push("enc", &[o, w, r.data_seed(), mode, len]);
                    if r.chance(1, 2) {
                        p.push("dec", &[1, w, 0]);
                    }
                }
                4..=6 => p.push("dec", &[o, w, r.range(0, 2)]),
                7 | 8 if chan => {
                    p.push("dmg", &[w, r.range(0, DAMAGE.len() as i64 - 1), r.range(0, 1 << 16)]);
                    p.push("dec", &[1, w, r.range(0, 2)]);
                }
                9 | 10 if chan => {
                    p.push("craft", &[w, 0, r.range(0, if large { 8 } else { 9 }), r.data_seed(), r.range(0, top), h, ls, ll]);
                    p.push("dec", &[*r.pick(&[1i64, 1, 2]), w, r.range(0, 2)]);
                }
                11 | 12 if rnd => {
                    let k = r.range(0, RNG_FAULTS.len() as i64 - 2);
                    let len = if r.chance(1, 3) { r.range(20, 300) } else { r.range(1, 20) };
                    p.push("rng", &[k, r.range(0, 30), len]);
                }
                13 if rnd => p.push("heal", &[]),
                11 if self.oaep => p.push("label", &[o, *r.pick(&[ls, ls + 1]), *r.pick(&[ll, ll, 0, 100])]),
                _ => {
                    p.push("enc", &[0, w, r.data_seed(), 0, r.range(0, 20)]);
                    p.push("dec", &[1, w, 0]);
                }
            }
        }
        p.push("heal", &[]);
        for o in 0..3 {
            p.push("enc", &[o, 0, r.data_seed(), 0, r.range(0, 30)]);
            p.push("dec", &[if o == 2 { 2 } else { 1 }, 0, 0]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let rng = SimRng::new(0x1234 + plan.steps.len() as u64);
        let mut keys: Vec<Option<Rc<Key>>> = vec![None; 4];
        let mut objs: Vec<Option<Node>> = (0..SLOTS).map(|_| None).collect();
        let mut wires: Vec<Vec<u8>> = vec![vec![]; WIRES];
        // halves of the random parts seen while the source was healthy
        let mut fresh: Vec<(Vec<u8>, usize)> = Vec::new();
        let mut spread = Spread::default();
        let mut healthy = true;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "key" => keys[s] = Some(self.key_of(cx, st)?),
                "obj" => {
                    let key = match &keys[st.u(1) % 4] {
                        Some(k) => k.clone(),
                        None => continue,
                    };
                    let hi = st.u(2) % NHASH;
                    let f = st.u(3);
                    let (private, blind, checked) = (f & 1 == 1, f & 2 == 2, f & 4 == 4);
                    let label = if self.oaep { payload(st.i(4), st.u(5).min(200)) } else { vec![] };
                    let kp = if private {
                        KeyPair::from(key.sk.clone())
                    } else {
                        match key.public() {
                            Some(p) => KeyPair::from(p),
                            None => return cx.fail("public-key-refused", "the public half of a generated key is refused"),
                        }
                    };
                    cx.sched(s, "obj");
                    let l = label.clone();
                    let rd = rng.clone();
                    let oaep = self.oaep;
                    let old = st.i(6);
                    if old != 0 {
                        cx.fault("used_hash_handed_over");
                    }
                    let made: R<Box<dyn EncObj>> = cx.lib("constructor", || {
                        with_hash!(hi, h, if oaep {
                            let h = used(h, old);
                            let o = if checked { OAEP::new(h, rd, kp, l, blind) } else { OAEP::new_uncheck(h, rd, kp, l, blind) };
                            o.map(|x| Box::new(x) as Box<dyn EncObj>)
                        } else {
                            let h = used(h, old);
                            let o = if checked { PKCS1::new(h, rd, kp, blind) } else { PKCS1::new_uncheck(h, rd, kp, blind) };
                            o.map(|x| Box::new(x) as Box<dyn EncObj>)
                        })
                    })?;
                    let limit = self.limit(key.k, hi);
                    match made {
                        Ok(o) => {
                            let limit = match limit {
                                Some(l) => l,
                                None => return cx.fail("too-small-accepted", format!("{}-byte modulus accepted with {}", key.k, HASH_NAMES[hi])),
                            };
                            let (mx, kl) = (cx.lib("max", || o.max())?, o.klen());
                            cx.require(mx == limit && kl == key.k, "limit", || format!("limit {} instead of {}, modulus length {} instead of {}", mx, limit, kl, key.k))?;
                            objs[s] = Some(Node { obj: o, key, hash: hi, private, blind, label, fails: 0 });
                        }
                        Err(_) => {
                            // no room at all, or (not claimed) a hash the scheme cannot sign with
                            let none = limit.map(|l| l == 0).unwrap_or(true) || (!self.oaep && hi >= NHASH_PKCS1);
                            cx.require(none, "refused", || format!("constructor refused a {}-byte modulus with {}", key.k, HASH_NAMES[hi]))?;
                            objs[s] = None;
                        }
                    }
                }
                "auto" => {
                    // an object that makes its own key; the same source gives the key to the reference
                    let hi = if self.oaep { st.u(2) % NHASH } else { st.u(2) % NHASH_PKCS1 };
                    let bits = 504 + 8 * (st.u(1) % 3) + st.u(1) % 9;
                    let label = if self.oaep { payload(st.i(4), st.u(5).min(200)) } else { vec![] };
                    let blind = st.u(3) & 1 == 1;
                    let (mut own, rd) = (SimRng::new(0xa070 + st.u(1) as u64), SimRng::new(0xa070 + st.u(1) as u64));
                    own.budget(2_000_000);
                    rd.budget(2_000_000);
                    let sk = match guarded(|| PrivateKey::generate_key(bits, 8, &mut own)) {
                        Ok(Ok(k)) => k,
                        _ => return cx.fail("keygen", format!("no {}-bit key from a healthy source", bits)),
                    };
                    let key = match Key::read(sk) {
                        Some(k) => Rc::new(k),
                        None => return cx.fail("keygen", "unreadable key"),
                    };
                    let (l, oaep) = (label.clone(), self.oaep);
                    cx.sched(s, "auto");
                    let made: R<Box<dyn EncObj>> = cx.lib("auto_generate_key", || {
                        with_hash!(hi, h, if oaep {
                            OAEP::auto_generate_key(bits, 8, h, rd, l, blind).map(|x| Box::new(x) as Box<dyn EncObj>)
                        } else {
                            PKCS1::auto_generate_key(bits, 8, h, rd, blind).map(|x| Box::new(x) as Box<dyn EncObj>)
                        })
                    })?;
                    objs[s] = None;
                    match made {
                        Ok(o) => {
                            let limit = match self.limit((bits + 7) / 8, hi) {
                                Some(l) => l,
                                None => return cx.fail("too-small-accepted", format!("{}-bit key made for {}", bits, HASH_NAMES[hi])),
                            };
                            let (mx, n) = (cx.lib("max", || o.max())?, display_field(&o.public(), "n"));
                            cx.require(mx == limit, "limit", || format!("limit {} instead of {}", mx, limit))?;
                            cx.require(n.as_ref().map(|n| n.bits() == bits).unwrap_or(false), "keygen", || format!("made a key that has not {} bits", bits))?;
                            cx.probe("own_key");
                            // the generator may draw in another order; then only the round trip below is known
                            let msg = payload(st.i(4) + 1, st.u(5).min(limit));
                            let (mut c, mut m) = (vec![], vec![]);
                            let a = cx.lib("encrypt", || o.enc(&mut c, &msg))?;
                            let b = cx.lib("decrypt", || o.dec(&mut m, &c))?;
                            cx.require(a.is_ok() && b.is_ok(), "refused", || "round trip with an own key refused".into())?;
                            cx.same(&m, &msg, "plaintext", || "round trip with an own key".into())?;
                            if n.as_ref() == Some(&key.n) {
                                objs[s] = Some(Node { obj: o, key, hash: hi, private: true, blind, label, fails: 0 });
                            }
                        }
                        Err(_) => {
                            let none = self.limit((bits + 7) / 8, hi).map(|l| l == 0).unwrap_or(true);
                            cx.require(none, "refused", || format!("no {}-bit key made for {}", bits, HASH_NAMES[hi]))?;
                        }
                    }
                }
                "label" => {
                    if let Some(n) = objs[s].as_mut() {
                        n.label = payload(st.i(1), st.u(2).min(200));
                        let l = n.label.clone();
                        cx.sched(s, "label");
                        cx.fault("label_changed");
                        cx.lib("set_label", || n.obj.label(l))?;
                    }
                }
                "rng" => {
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                    healthy = false;
                }
                "heal" => rng.disarm(),
                "enc" => {
                    if let Some(n) = objs[s].as_mut() {
                        let limit = self.limit(n.key.k, n.hash).unwrap_or(0);
                        let len = match st.u(3) {
                            0 => st.u(4).min(limit),
                            1 => limit.saturating_sub(st.u(4)),
                            _ => limit + 1 + st.u(4).min(500),
                        };
                        let msg = payload(st.i(2), len);
                        let mut out = payload(st.i(2) + 5, st.u(2) % 90);
                        rng.budget(40_000);
                        let e0 = rng.count().1;
                        cx.sched(s, "enc");
                        let res = cx.lib("encrypt", || n.obj.enc(&mut out, &msg))?;
                        let errs = rng.count().1 - e0;
                        if errs > 0 {
                            cx.probe("source_failed_during_encrypt");
                        }
                        let (k, hn) = (n.key.k, HASH_NAMES[n.hash]);
                        cx.state(&[0, n.key.n.bits() as i64, n.hash as i64, n.private as i64, (len > limit) as i64, (errs > 0) as i64, n.fails.min(2), (len == limit) as i64]);
                        match res {
                            Ok(()) => {
                                cx.event("c", &out);
                                cx.require(len <= limit, "too-long-accepted", || format!("{} bytes encrypted, limit {}", len, limit))?;
                                cx.require(out.len() == k, "length", || format!("ciphertext of {} bytes for a {}-byte modulus, message {} bytes", out.len(), k, len))?;
                                match self.decode(&n.key, n.hash, &n.label, &out) {
                                    None => {
                                        let l = n.label.len();
                                        return cx.fail("malformed", format!("ciphertext of {} bytes is not a valid encoding (modulus {} bytes, hash {}, label {} bytes, {} source errors)", len, k, hn, l, errs));
                                    }
                                    Some((rnd, m)) => {
                                        cx.same(&m, &msg, "message", || "decoded message".into())?;
                                        if healthy {
                                            spread.add(if self.oaep { "seed" } else { "padding" }, &rnd);
                                        }
                                        if healthy && rnd.len() >= 16 {
                                            let parts = if self.oaep { vec![rnd[..8].to_vec(), rnd[rnd.len() - 8..].to_vec()] } else { vec![rnd[..8].to_vec(), rnd[rnd.len() - 8..].to_vec()] };
                                            for pt in parts {
                                                cx.require(!fresh.iter().any(|(f, _)| *f == pt), "randomness-repeats", || "random part of the encoding repeats with a healthy source".into())?;
                                                fresh.push((pt, i));
                                            }
                                        }
                                    }
                                }
                                if out[0] == 0 {
                                    cx.probe("ciphertext_with_leading_zero");
                                }
                                wires[st.u(1) % WIRES] = out;
                            }
                            Err(_) => {
                                cx.event("refused", &[]);
                                cx.require(len > limit || errs > 0, "refused", || format!("{} bytes refused, limit {}, hash {}", len, limit, hn))?;
                                n.fails += 1;
                            }
                        }
                    }
                }
                "dec" => {
                    if let Some(n) = objs[s].as_mut() {
                        let w = &wires[st.u(1) % WIRES];
                        let mut out = payload(st.i(2), st.u(2) * 30);
                        rng.budget(40_000);
                        let e0 = rng.count().1;
                        cx.sched(s, "dec");
                        let res = cx.lib("decrypt", || n.obj.dec(&mut out, w))?;
                        let errs = rng.count().1 - e0;
                        let want = if n.private { self.decode(&n.key, n.hash, &n.label, w).map(|x| x.1) } else { None };
                        cx.state(&[1, n.key.n.bits() as i64, n.hash as i64, n.private as i64, n.blind as i64, want.is_some() as i64, (errs > 0) as i64, n.fails.min(2)]);
                        match (res, want) {
                            (Ok(()), Some(m)) => {
                                cx.event("m", &out);
                                cx.probe("decrypted");
                                cx.same(&out, &m, "plaintext", || "decrypted message".into())?;
                            }
                            (Ok(()), None) => {
                                let (l, k) = (w.len(), n.key.k);
                                return cx.fail("accepted", format!("a {}-byte string that is no valid ciphertext for the {}-byte modulus was accepted", l, k));
                            }
                            (Err(_), Some(_)) => {
                                cx.require(errs > 0, "rejected", || "a valid ciphertext was rejected".into())?;
                            }
                            (Err(_), None) => {
                                cx.event("rejected", &[]);
                                cx.checks += 1;
                                cx.probe("rejected");
                                n.fails += 1;
                            }
                        }
                    }
                }
                "dmg" => {
                    let w = st.u(0) % WIRES;
                    let kd = st.u(1) % DAMAGE.len();
                    if let Some(k) = &keys[0] {
                        wires[w] = damage(kd, st.u(2), &wires[w], &k.n, k.k);
                        cx.fault(DAMAGE[kd]);
                    }
                }
                "craft" => {
                    let w = st.u(0) % WIRES;
                    if let Some(k) = keys[st.u(1) % 4].clone() {
                        cx.fault("crafted_ciphertext");
                        wires[w] = self.craft(&k, st.u(2) % 10, st.i(3), st.u(4), st.u(5) % NHASH, &payload(st.i(6), st.u(7).min(200)));
                    }
                }
                _ => {}
            }
        }
        spread.check(cx, usize::MAX)?;
        rng.report(cx);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = encryptions decoded by the reference and decryptions compared with the reference decision; a state is (operation, modulus bits, hash, private key held, blinding or length class, valid or not, source failed during the call, earlier failures on the object up to 2)"
    }
    fn real(&self) -> &'static [&'static str] {
        if self.oaep {
            &["rcrypto OAEP", "rcrypto RSA keys and private operation", "rcrypto digests", "rmath integers"]
        } else {
            &["rcrypto PKCS1", "rcrypto RSA keys and private operation", "rmath integers"]
        }
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)", "channel (wire slots)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["keys come from the library's own generator with a healthy source (checked by R05)", "n, e and d are read from the key's display", "random-source faults last at most 400 words per fault"]
    }
}
