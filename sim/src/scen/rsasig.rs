//! RSA signatures over a faulty channel with a faulty random source: R03 (PKCS#1 v1.5), R04 (PSS).

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::rsa as rr;
use crate::scen::asym::*;
use crate::scen::dig::used;
use crate::seams::{SimRng, RNG_FAULTS};
use crate::with_hash;
use rcrypto::rsa::{KeyPair, SignatureContent, PKCS1, PSS};
use rcrypto::{CryptoError, Digest, Signature};
use std::any::Any;
use std::rc::Rc;

type R<T> = Result<T, CryptoError>;

/// a signature object with these bytes, by one of the ways there are
fn sig_content(b: &[u8], way: usize) -> SignatureContent {
    match way % 6 {
        0 => SignatureContent::from(b.to_vec()),
        1 => SignatureContent::from(b),
        2 => {
            let mut s = SignatureContent::new();
            AsMut::<Vec<u8>>::as_mut(&mut s).extend_from_slice(b);
            s
        }
        3 => {
            let mut s = SignatureContent::with_capacity(b.len() / 2);
            *AsMut::<Vec<u8>>::as_mut(&mut s) = b.to_vec();
            s
        }
        4 => {
            let mut s = SignatureContent::from(vec![0x5a; b.len()]);
            s.as_mut_slice().copy_from_slice(b);
            s
        }
        _ => SignatureContent::from(b).clone(),
    }
}

/// its bytes, by one of the ways there are
fn sig_bytes(s: &mut SignatureContent, way: usize) -> Vec<u8> {
    match way % 5 {
        0 => s.as_slice().to_vec(),
        1 => AsRef::<Vec<u8>>::as_ref(s).clone(),
        2 => AsRef::<[u8]>::as_ref(s).to_vec(),
        3 => s.as_mut_slice().to_vec(),
        _ => s.clone().as_slice().to_vec(),
    }
}

trait SigObj {
    fn sig(&mut self, s: &mut SignatureContent, m: &[u8]) -> R<()>;
    fn ver(&mut self, s: &SignatureContent, m: &[u8]) -> R<()>;
    fn salt(&self) -> usize {
        0
    }
    fn klen(&self) -> usize;
    fn public(&self) -> String;
}

impl<H: Digest> SigObj for PSS<H, SimRng> {
    fn sig(&mut self, s: &mut SignatureContent, m: &[u8]) -> R<()> {
        self.sign(s, m)
    }
    fn ver(&mut self, s: &SignatureContent, m: &[u8]) -> R<()> {
        self.verify(s, m)
    }
    fn salt(&self) -> usize {
        self.salt_len()
    }
    fn klen(&self) -> usize {
        self.modulus_len()
    }
    fn public(&self) -> String {
        format!("{}", self.public_key())
    }
}

impl<H: Digest + Any> SigObj for PKCS1<H, SimRng> {
    fn sig(&mut self, s: &mut SignatureContent, m: &[u8]) -> R<()> {
        self.sign(s, m)
    }
    fn ver(&mut self, s: &SignatureContent, m: &[u8]) -> R<()> {
        self.verify(s, m)
    }
    fn klen(&self) -> usize {
        self.modulus_len()
    }
    fn public(&self) -> String {
        format!("{}", self.public_key())
    }
}

/// public side of a key, all the reference needs to judge a signature
#[derive(Clone)]
struct Pub {
    n: Bn,
    e: Bn,
    k: usize,
}

struct Node {
    obj: Box<dyn SigObj>,
    key: Pub,
    hash: usize,
    private: bool,
    blind: bool,
    slen: usize,
    fails: i64,
}

#[derive(Clone, Default)]
struct Wire {
    sig: Vec<u8>,
    msg: Vec<u8>,
}

pub struct Sig {
    pub pss: bool,
}
pub const R03: Sig = Sig { pss: false };
pub const R04: Sig = Sig { pss: true };

const SLOTS: usize = 4;
const WIRES: usize = 5;

impl Sig {
    fn bits(&self, i: usize) -> usize {
        if self.pss {
            // every remainder modulo 8 several times, then bigger ones
            match i % 35 {
                x @ 0..=15 => 512 + x,
                x @ 16..=23 => 344 + x - 16,
                x @ 24..=27 => 768 + 2 * (x - 24) + 1,
                x => [1024, 1025, 1031, 1032, 1537, 2047, 2048][x - 28],
            }
        } else {
            [512, 513, 519, 520, 600, 768, 775, 1024, 1536, 2048][i % 10]
        }
    }
    /// reference decision: is `sig` a signature of `msg`; for PSS also the salt
    fn judge(&self, key: &Pub, hash: usize, slen: usize, sig: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
        if sig.len() != key.k {
            return None;
        }
        let s = Bn::from_be(sig);
        if s >= key.n {
            return None;
        }
        let m = s.powmod(&key.e, &key.n);
        let mh = ref_hash(hash, msg);
        if self.pss {
            let em_bits = key.n.bits() - 1;
            let em = m.to_be_len((em_bits + 7) / 8)?;
            rr::pss_salt(&|x: &[u8]| ref_hash(hash, x), &mh, &em, em_bits, slen)
        } else {
            let em = m.to_be_len(key.k)?;
            if rr::emsa_pkcs1(key.k, HASH_NAMES[hash], &mh)? == em {
                Some(vec![])
            } else {
                None
            }
        }
    }
    /// salt setting; 1000 and more are sizes around the largest that fits
    fn salt(&self, v: i64, bits: usize, hash: usize) -> i64 {
        if v < 1000 {
            v.min(300)
        } else {
            (((bits + 6) / 8) as i64 - HASH_LEN[hash] as i64 - 2 + v - 1004).clamp(1, 300)
        }
    }
    /// can this configuration sign at all
    fn fits(&self, key: &Pub, hash: usize, slen: usize) -> bool {
        if self.pss {
            (key.n.bits() + 6) / 8 >= HASH_LEN[hash] + slen + 2
        } else {
            match rr::digest_info(HASH_NAMES[hash]) {
                Some(p) => key.k >= p.len() + HASH_LEN[hash] + 11,
                None => false,
            }
        }
    }
    fn craft(&self, key: &Key, kind: usize, seed: i64, msg: &[u8], hash: usize, slen: usize) -> Vec<u8> {
        let h = |m: &[u8]| ref_hash(hash, m);
        let mh = h(msg);
        let seal = |em: &[u8]| key.private_op(&Bn::from_be(em).rem(&key.n)).to_be_len(key.k).unwrap();
        let noise = payload(seed * 16 + 15, 1024);
        if self.pss {
            let em_bits = key.n.bits() - 1;
            let em_len = (em_bits + 7) / 8;
            let hl = HASH_LEN[hash];
            let max = match em_len.checked_sub(hl + 2) {
                Some(m) => m,
                None => return payload(seed, key.k),
            };
            let sl = match kind {
                1 => slen + 1,
                2 => slen.saturating_sub(1),
                3 => 0,
                4 => max,
                _ => slen,
            }
            .min(max);
            let salt = &noise[..sl];
            let mut em = rr::pss_encode(&h, &mh, em_bits, salt);
            let mask = 0xffu8 >> (8 * em_len - em_bits);
            match kind {
                5 => em[em_len - 1] = 0xcc,
                6 => em[0] |= !mask,
                7..=9 => {
                    // flaw inside the masked block, masked correctly: padding byte, separator, or salt
                    let hh = em[em_len - hl - 1..em_len - 1].to_vec();
                    let dl = em_len - hl - 1;
                    let at = match kind {
                        7 if dl > sl + 1 => (seed.unsigned_abs() as usize) % (dl - sl - 1),
                        9 if sl > 0 => dl - 1 - (seed.unsigned_abs() as usize) % sl,
                        _ => dl - sl - 1,
                    };
                    let _ = hh;
                    em[at] ^= if at == 0 { 1 } else { 1 << (seed.unsigned_abs() % 8) };
                    em[0] &= mask;
                }
                10 => em[em_len - 2] ^= 0x10,
                11 => {
                    // hash of the message used directly in place of the salted hash
                    em[em_len - hl - 1..em_len - 1].copy_from_slice(&mh);
                }
                _ => {}
            }
            seal(&em)
        } else {
            let k = key.k;
            let t = match rr::digest_info(HASH_NAMES[hash]) {
                Some(p) => [p, mh.clone()].concat(),
                None => mh.clone(),
            };
            if k < t.len() + 11 {
                return payload(seed, k);
            }
            let em = |ps: usize, t: &[u8], tail: &[u8]| [vec![0u8, 1], vec![0xff; ps], vec![0], t.to_vec(), tail.to_vec()].concat();
            let full = k - 3 - t.len();
            let e = match kind {
                1 => em(full - 1, &t, &noise[..1]),
                2 => em(8.min(full), &t, &noise[..full - 8.min(full)]),
                3 => {
                    let mut e = em(full, &t, &[]);
                    e[2 + seed.unsigned_abs() as usize % full] = 0xfe;
                    e
                }
                4 => {
                    let mut e = em(full, &t, &[]);
                    e[1] = 2;
                    e
                }
                5 => {
                    // digest info of another hash around this hash value
                    let other = rr::digest_info(HASH_NAMES[(hash + 1) % NHASH_PKCS1]).unwrap();
                    let t2 = [other, mh.clone()].concat();
                    em(k.saturating_sub(3 + t2.len()), &t2, &[])
                }
                6 => em(k - 3 - mh.len(), &mh, &[]),
                7 => {
                    let mut e = em(full, &t, &[]);
                    e[2 + full] = 1 + noise[0] % 255;
                    e
                }
                8 => {
                    let mut e = em(full, &t, &[]);
                    e[3 + full + seed.unsigned_abs() as usize % t.len()] ^= 1 << (noise[0] % 8);
                    e
                }
                9 => {
                    let mut e = em(full, &t, &[]);
                    e[2 + seed.unsigned_abs() as usize % full] = 0;
                    e
                }
                10 => {
                    let mut e = em(full, &t, &[]);
                    e[0] = 1;
                    e
                }
                _ => em(full, &t, &[]),
            };
            seal(&e)
        }
    }
}

impl Scenario for Sig {
    fn id(&self) -> &'static str {
        if self.pss {
            "R04"
        } else {
            "R03"
        }
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "fault-free", quick: 1500, thorough: 20000 },
            RunKind { name: "faulty-channel", quick: 2500, thorough: 40000 },
            RunKind { name: "faulty-random-source", quick: 1500, thorough: 30000 },
            RunKind { name: "everything", quick: 2000, thorough: 30000 },
            RunKind { name: "own-key", quick: 60, thorough: 600 },
            RunKind { name: "large-keys", quick: 24, thorough: 300 },
            RunKind { name: "many-signatures", quick: if self.pss { 12 } else { 0 }, thorough: if self.pss { 100 } else { 0 } },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        if kind == 6 {
            p.push("key", &[0, r.range(0, 23), r.range(0, 20)]);
            p.push("obj", &[0, 0, r.range(0, 1), 1 + 2 * r.range(0, 1), *r.pick(&[-1i64, 0, 7, 20]), r.data_seed()]);
            for _ in 0..60 {
                p.push("sign", &[0, 0, r.data_seed(), 5]);
            }
            return p;
        }
        let chan = kind == 1 || kind == 3 || kind == 5;
        let large = kind == 5;
        let rnd = kind == 2 || kind == 3;
        let mut ks = Vec::new();
        let nk = r.range(1, 2);
        for i in 0..nk {
            let sz = if large { if self.pss { r.range(32, 34) } else { r.range(8, 9) } } else if self.pss { if r.chance(1, 6) { r.range(24, 31) } else { r.range(0, 23) } } else if r.chance(1, 4) { r.range(5, 7) } else { r.range(0, 4) };
            ks.push(sz);
            p.push("key", &[i, sz, if large { 0 } else { r.range(0, 20) }]);
        }
        let (h, salt) = if self.pss {
            let h = *r.pick(&[0i64, 1, 0, 1, 2, 3, 6, 7, 8, 5]);
            (h, *r.pick(&[-1i64, -1, 0, 0, 0, 0, 1, 1, 2, 2, 8, 8, 16, 20, 100, 1000, 1003, 1004, 1004, 1005, 1006]))
        } else {
            (if r.chance(1, 12) { r.range(6, 8) } else { r.range(0, 5) }, 0)
        };
        if kind == 4 {
            p.push("auto", &[0, r.range(0, 9), h % 4, r.range(0, 1), salt]);
        } else {
            let old = |r: &mut Rng| if r.chance(1, 3) { r.data_seed() } else { 0 };
            p.push("obj", &[0, 0, h, 1 + r.range(0, 3) * 2, salt, old(r)]);
            p.push("obj", &[1, 0, h, r.range(0, 1) * 4, salt, old(r)]);
            if r.chance(1, 2) {
                p.push("obj", &[2, r.range(0, nk - 1), h, r.range(0, 7), salt, old(r)]);
            }
            if r.chance(1, 3) {
                p.push("obj", &[3, 0, r.range(0, 8), r.range(0, 7), r.range(-1, 40)]);
            }
        }
        let steps = if large { r.range(2, 4) } else { r.range(3, 12) };
        for _ in 0..steps {
            let o = r.range(0, 3);
            let w = r.range(0, WIRES as i64 - 1);
            match r.below(14) {
                0..=2 => {
                    p.push("sign", &[o, w, r.data_seed(), *r.pick(&[0i64, 1, 20, 64, 65, 200])]);
                    p.push("ver", &[r.range(0, 2), w]);
                }
                3..=5 => p.push("ver", &[o, w]),
                6 | 7 if chan => {
                    p.push("dmg", &[w, r.range(0, DAMAGE.len() as i64 - 1), r.range(0, 1 << 16)]);
                    p.push("ver", &[r.range(0, 1), w]);
                }
                8 if chan => {
                    p.push("msg", &[w, r.range(0, 4), r.range(0, 1 << 12)]);
                    p.push("ver", &[r.range(0, 1), w]);
                }
                9 | 10 if chan => {
                    p.push("craft", &[w, 0, r.range(0, 12), r.data_seed(), r.range(0, 70), h, salt]);
                    p.push("ver", &[r.range(0, 2), w]);
                }
                11 | 12 if rnd => {
                    let k = r.range(0, RNG_FAULTS.len() as i64 - 2);
                    let len = if r.chance(1, 3) { r.range(20, 300) } else { r.range(1, 20) };
                    p.push("rng", &[k, r.range(0, 20), len]);
                }
                13 if rnd => p.push("heal", &[]),
                _ => {
                    p.push("sign", &[0, w, r.data_seed(), r.range(0, 30)]);
                    p.push("ver", &[1, w]);
                }
            }
        }
        p.push("heal", &[]);
        p.push("sign", &[0, 0, r.data_seed(), 9]);
        p.push("ver", &[0, 0]);
        p.push("ver", &[1, 0]);
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let rng = SimRng::new(0x4321 + plan.steps.len() as u64);
        let mut keys: Vec<Option<Rc<Key>>> = vec![None; 4];
        let mut objs: Vec<Option<Node>> = (0..SLOTS).map(|_| None).collect();
        let mut wires: Vec<Wire> = vec![Wire::default(); WIRES];
        let mut salts: Vec<Vec<u8>> = Vec::new();
        let mut spread = Spread::default();
        let mut healthy = true;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "key" => keys[s] = Some(rsa_key(cx, self.bits(st.u(1)), 2 + (st.u(2) % 7 == 6) as usize, st.i(2).rem_euclid(3))?),
                "obj" | "auto" => {
                    let auto = st.op == "auto";
                    let (hi, pss) = (st.u(2) % NHASH, self.pss);
                    let salt = self.salt(st.i(4), if auto { 504 + 8 * (st.u(1) % 3) + st.u(1) % 9 } else { keys[st.u(1) % 4].as_ref().map_or(512, |k| k.n.bits()) }, hi);
                    let opt = if salt < 0 { None } else { Some(salt as usize) };
                    let old = st.i(5);
                    if old != 0 {
                        cx.fault("used_hash_handed_over");
                    }
                    let rd = rng.clone();
                    let f = st.u(3);
                    cx.sched(s, st.op.as_ref());
                    rng.budget(2_000_000);
                    let made: R<Box<dyn SigObj>>;
                    let key;
                    let (private, blind);
                    if auto {
                        let bits = 504 + 8 * (st.u(1) % 3) + st.u(1) % 9;
                        private = true;
                        blind = f & 1 == 1;
                        made = cx.lib("auto_generate_key", || {
                            with_hash!(hi, h, if pss {
                                PSS::auto_generate_key(bits, 8, h, rd, opt, blind).map(|x| Box::new(x) as Box<dyn SigObj>)
                            } else {
                                PKCS1::auto_generate_key(bits, 8, h, rd, blind).map(|x| Box::new(x) as Box<dyn SigObj>)
                            })
                        })?;
                        key = match &made {
                            Ok(o) => {
                                let t = o.public();
                                match (display_field(&t, "n"), display_field(&t, "e")) {
                                    (Some(n), Some(e)) => {
                                        cx.require(n.bits() == bits, "keygen", || format!("generated key has {} bits instead of {}", n.bits(), bits))?;
                                        Pub { k: (n.bits() + 7) / 8, n, e }
                                    }
                                    _ => return cx.fail("keygen", "unreadable key"),
                                }
                            }
                            Err(_) => Pub { n: Bn::one().shl(bits).sub(&Bn::one()), e: Bn::one(), k: (bits + 7) / 8 },
                        };
                    } else {
                        let k = match &keys[st.u(1) % 4] {
                            Some(k) => k.clone(),
                            None => continue,
                        };
                        private = f & 1 == 1;
                        blind = f & 2 == 2;
                        let checked = f & 4 == 4;
                        let kp = if private {
                            KeyPair::from(k.sk.clone())
                        } else {
                            match k.public() {
                                Some(p) => KeyPair::from(p),
                                None => return cx.fail("public-key-refused", "the public half of a generated key is refused"),
                            }
                        };
                        made = cx.lib("constructor", || {
                            with_hash!(hi, h, if pss {
                                let o = if checked { PSS::new(used(h, old), rd, kp, opt, blind) } else { PSS::new_uncheck(used(h, old), rd, kp, opt, blind) };
                                o.map(|x| Box::new(x) as Box<dyn SigObj>)
                            } else {
                                let o = if checked { PKCS1::new(used(h, old), rd, kp, blind) } else { PKCS1::new_uncheck(used(h, old), rd, kp, blind) };
                                o.map(|x| Box::new(x) as Box<dyn SigObj>)
                            })
                        })?;
                        key = Pub { n: k.n.clone(), e: k.e.clone(), k: k.k };
                    }
                    let em_len = (key.n.bits() + 6) / 8;
                    let slen = match opt {
                        _ if !pss => 0,
                        None => HASH_LEN[hi],
                        Some(0) => em_len.saturating_sub(HASH_LEN[hi] + 2),
                        Some(x) => x,
                    };
                    let fits = self.fits(&key, hi, slen);
                    match made {
                        Ok(o) => {
                            if pss {
                                cx.require(fits, "too-small-accepted", || format!("{}-bit modulus accepted with {} and salt of {} bytes", key.n.bits(), HASH_NAMES[hi], slen))?;
                                let got = o.salt();
                                cx.require(got == slen, "salt-length", || format!("salt length {} instead of {} for {} bits, {}, setting {:?}", got, slen, key.n.bits(), HASH_NAMES[hi], opt))?;
                            }
                            let kl = o.klen();
                            cx.require(kl == key.k, "modulus-length", || format!("modulus length {} instead of {}", kl, key.k))?;
                            objs[s] = Some(Node { obj: o, key, hash: hi, private, blind, slen, fails: 0 });
                        }
                        Err(_) => {
                            cx.require(!fits, "refused", || format!("constructor refused {} bits with {} and salt setting {:?}", key.n.bits(), HASH_NAMES[hi], opt))?;
                            objs[s] = None;
                        }
                    }
                }
                "rng" => {
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                    healthy = false;
                }
                "heal" => rng.disarm(),
                "sign" => {
                    if let Some(n) = objs[s].as_mut() {
                        let msg = payload(st.i(2), st.u(3).min(5000));
                        let mut out = sig_content(&payload(st.i(2) + 3, st.u(2) % 90), i);
                        rng.budget(40_000);
                        let e0 = rng.count().1;
                        cx.sched(s, "sign");
                        let res = cx.lib("sign", || n.obj.sig(&mut out, &msg))?;
                        let errs = rng.count().1 - e0;
                        let fits = self.fits(&n.key, n.hash, n.slen);
                        cx.state(&[0, n.key.n.bits() as i64, n.hash as i64, n.private as i64, n.blind as i64, n.slen as i64, (errs > 0) as i64, n.fails.min(2)]);
                        match res {
                            Ok(()) => {
                                let sig = sig_bytes(&mut out, i);
                                cx.event("sig", &sig);
                                cx.require(n.private && fits, "signed-without-key", || "a signature came out although no private key or no room is there".into())?;
                                let (kk, bits, hn, sl) = (n.key.k, n.key.n.bits(), HASH_NAMES[n.hash], n.slen);
                                cx.require(sig.len() == kk, "length", || format!("signature of {} bytes for a {}-byte modulus", sig.len(), kk))?;
                                match self.judge(&n.key, n.hash, n.slen, &sig, &msg) {
                                    None => return cx.fail("bad-signature", format!("signature does not verify by the standard ({} bits, {}, salt {} bytes, {} source errors)", bits, hn, sl, errs)),
                                    Some(salt) => {
                                        cx.checks += 1;
                                        if sig[0] == 0 {
                                            cx.probe("signature_with_leading_zero");
                                        }
                                        if healthy {
                                            spread.add("salt", &salt);
                                        }
                                        if healthy && salt.len() >= 16 {
                                            for pt in [salt[..8].to_vec(), salt[salt.len() - 8..].to_vec()] {
                                                cx.require(!salts.contains(&pt), "salt-repeats", || "salt repeats with a healthy source".into())?;
                                                salts.push(pt);
                                            }
                                        }
                                    }
                                }
                                wires[st.u(1) % WIRES] = Wire { sig, msg };
                            }
                            Err(_) => {
                                cx.event("refused", &[]);
                                n.fails += 1;
                                let (bits, hn) = (n.key.n.bits(), HASH_NAMES[n.hash]);
                                cx.require(!n.private || !fits || errs > 0, "refused", || format!("signing failed ({} bits, {})", bits, hn))?;
                            }
                        }
                    }
                }
                "ver" => {
                    if let Some(n) = objs[s].as_mut() {
                        let w = &wires[st.u(1) % WIRES];
                        let sc = sig_content(&w.sig, i);
                        cx.sched(s, "ver");
                        let res = cx.lib("verify", || n.obj.ver(&sc, &w.msg))?;
                        let want = self.judge(&n.key, n.hash, n.slen, &w.sig, &w.msg).is_some();
                        cx.state(&[1, n.key.n.bits() as i64, n.hash as i64, n.private as i64, n.slen as i64, want as i64, (w.sig.len() as i64 - n.key.k as i64).clamp(-2, 2), n.fails.min(2)]);
                        let (bits, hn, sl, l) = (n.key.n.bits(), HASH_NAMES[n.hash], n.slen, w.sig.len());
                        if want {
                            cx.probe("accepted");
                            cx.require(res.is_ok(), "rejected", || format!("a valid signature was rejected ({} bits, {}, salt {} bytes)", bits, hn, sl))?;
                        } else {
                            cx.probe("rejected");
                            cx.require(res.is_err(), "accepted", || format!("a {}-byte string that is no signature of the message was accepted ({} bits, {}, salt {} bytes)", l, bits, hn, sl))?;
                            n.fails += 1;
                        }
                        cx.event(if want { "valid" } else { "invalid" }, &[]);
                    }
                }
                "dmg" => {
                    let w = st.u(0) % WIRES;
                    let kd = st.u(1) % DAMAGE.len();
                    let nk = match (&keys[0], &objs[0]) {
                        (Some(k), _) => Some((k.n.clone(), k.k)),
                        (None, Some(o)) => Some((o.key.n.clone(), o.key.k)),
                        _ => None,
                    };
                    if let Some((n, k)) = nk {
                        wires[w].sig = damage(kd, st.u(2), &wires[w].sig, &n, k);
                        cx.fault(DAMAGE[kd]);
                    }
                }
                "msg" => {
                    let w = &mut wires[st.u(0) % WIRES];
                    let l = w.msg.len();
                    match st.u(1) % 5 {
                        0 if l > 0 => w.msg[st.u(2) % l] ^= 1 << (st.u(2) / 7 % 8),
                        1 => w.msg.push(0),
                        2 if l > 0 => w.msg.truncate(l - 1),
                        3 => w.msg.clear(),
                        _ => w.msg.insert(0, st.u(2) as u8),
                    }
                    cx.fault("message_altered");
                }
                "craft" => {
                    let w = st.u(0) % WIRES;
                    if let Some(k) = keys[st.u(1) % 4].clone() {
                        let hi = st.u(5) % NHASH;
                        let em_len = (k.n.bits() + 6) / 8;
                        let sl = match self.salt(st.i(6), k.n.bits(), hi) {
                            x if x < 0 => HASH_LEN[hi],
                            0 => em_len.saturating_sub(HASH_LEN[hi] + 2),
                            x => x as usize,
                        };
                        let msg = payload(st.i(3), st.u(4).min(500));
                        cx.fault("crafted_signature");
                        wires[w] = Wire { sig: self.craft(&k, st.u(2) % 13, st.i(3), &msg, hi, sl), msg };
                    }
                }
                _ => {}
            }
        }
        spread.check(cx, usize::MAX)?;
        rng.report(cx);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = signatures judged by the reference and verifications compared with the reference decision; a state is (operation, modulus bits, hash, private key held, blinding, salt length, valid or source-failed, length difference, earlier failures on the object up to 2)"
    }
    fn real(&self) -> &'static [&'static str] {
        if self.pss {
            &["rcrypto PSS", "rcrypto RSA keys and private operation", "rcrypto digests", "rmath integers"]
        } else {
            &["rcrypto PKCS1", "rcrypto RSA keys and private operation", "rcrypto digests", "rmath integers"]
        }
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)", "channel (wire slots)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["keys come from the library's own generator with a healthy source (checked by R05)", "n, e and d are read from the key's display", "random-source faults last at most 400 words per fault"]
    }
}
