//! DSA and ECDSA over a faulty channel with a faulty random source: S01, S02; nonce histories: S03.

use crate::engine::*;
use crate::refs::bn::Bn;
use crate::refs::ec::{truncated, Curve, Dsa, Pt};
use crate::refs::keccak::{self, Sha3};
use crate::scen::asym::{self, arm, from_big, to_big, Spread};
use crate::scen::dig::used;
use crate::scen::ecdh::edge_point;
use crate::seams::{SimRng, RNG_FAULTS};
use crate::with_hash;
use rcrypto::dsa::{self, SignatureContent, DSA};
use rcrypto::ecdsa::ECDSA;
use rcrypto::elliptic::{self, CurveP224, CurveP256, CurveParams};
use rcrypto::{CryptoError, Digest, Signature};

type R<T> = Result<T, CryptoError>;

/// one digest type for all signature objects; the digest inside is the library's
pub struct AnyHash(pub Box<dyn Digest>);

/// hashes of the signature scenarios: those of the library, SHAKE outputs longer than any group order,
/// stub hashes whose values for different messages differ in one byte only, and one that gives the
/// message itself, so that a run can choose the number to be signed
pub const NHASH: usize = asym::NHASH + 7;
pub const HASH_NAMES: [&str; NHASH] = [
    "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "sm3", "sha3-256", "sha512/256", "shake128/528", "shake256/1024", "shake256/776", "stub-first-byte",
    "stub-last-byte", "stub-fifth-byte", "stub-echo",
];
const ECHO: usize = 15;
const ECHO_LEN: usize = 66;

pub fn ref_hash(i: usize, m: &[u8]) -> Vec<u8> {
    match i {
        9 => keccak::sha3_bits(Sha3::Shake(128), &keccak::to_bits(m), 528),
        10 => keccak::sha3_bits(Sha3::Shake(256), &keccak::to_bits(m), 1024),
        11 => keccak::sha3_bits(Sha3::Shake(256), &keccak::to_bits(m), 776),
        12..=14 => {
            let mut v = vec![0x5c; 28];
            v[[0, 27, 4][i - 12]] = asym::ref_hash(0, m)[0];
            v
        }
        ECHO => m.iter().copied().chain(std::iter::repeat(0)).take(ECHO_LEN).collect(),
        _ => asym::ref_hash(i, m),
    }
}

/// a message whose echoed hash gives this number; what is cut off by the order is filled with other bits
fn echo_msg(e: &Bn, order: &Bn, fill: i64) -> Vec<u8> {
    let sh = ECHO_LEN * 8 - order.bits();
    let low = Bn::from_be(&payload(fill * 16 + 15, ECHO_LEN)).rem(&Bn::one().shl(sh));
    e.rem(&Bn::one().shl(order.bits())).shl(sh).add(&low).to_be_len(ECHO_LEN).unwrap()
}

struct StubHash(usize, Vec<u8>, bool);

impl Digest for StubHash {
    fn block_size(&self) -> Option<usize> {
        Some(64)
    }
    fn bits_len(&self) -> usize {
        if self.0 == ECHO { 8 * ECHO_LEN } else { 224 }
    }
    fn write(&mut self, data: &[u8]) {
        if std::mem::take(&mut self.2) {
            self.1.clear();
        }
        self.1.extend_from_slice(data)
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        self.2 = true;
        digest.clear();
        digest.extend(ref_hash(self.0, &self.1));
    }
    fn reset(&mut self) {
        self.2 = false;
        self.1.clear()
    }
}

impl AnyHash {
    pub fn get(i: usize) -> AnyHash {
        AnyHash(match i {
            9 => Box::new(rcrypto::sha3::Shake128::new(528)),
            10 => Box::new(rcrypto::sha3::Shake256::new(1024)),
            11 => Box::new(rcrypto::sha3::Shake256::new(776)),
            12..=ECHO => Box::new(StubHash(i, Vec::new(), false)),
            _ => with_hash!(i, h, Box::new(h) as Box<dyn Digest>),
        })
    }
}

impl Digest for AnyHash {
    fn block_size(&self) -> Option<usize> {
        self.0.block_size()
    }
    fn bits_len(&self) -> usize {
        self.0.bits_len()
    }
    fn write(&mut self, data: &[u8]) {
        self.0.write(data)
    }
    fn checksum(&mut self, digest: &mut Vec<u8>) {
        self.0.checksum(digest)
    }
    fn reset(&mut self) {
        self.0.reset()
    }
}

pub trait DssObj {
    fn sig(&mut self, s: &mut SignatureContent, m: &[u8]) -> R<()>;
    fn ver(&mut self, s: &SignatureContent, m: &[u8]) -> R<()>;
}

impl<T: Signature<SignatureContent, Output = ()>> DssObj for T {
    fn sig(&mut self, s: &mut SignatureContent, m: &[u8]) -> R<()> {
        self.sign(s, m)
    }
    fn ver(&mut self, s: &SignatureContent, m: &[u8]) -> R<()> {
        self.verify(s, m)
    }
}

/// hash number; the long ones mostly where they are longer than the order
fn pick_hash(r: &mut Rng, g: i64) -> i64 {
    match r.below(6) {
        0 => r.range(9, 11),
        1 => r.range(12, 15),
        2 if g == 5 => r.range(9, 11),
        _ => r.range(0, 8),
    }
}

/// (p bits, q bits, p, q, g), made once by a script
pub const PARAMS: [(usize, usize, &str, &str, &str); 13] = [
    (20, 8, "d3b8b", "d3", "49a9e"),
    (24, 8, "cf72c5", "89", "c650ee"),
    (40, 16, "ec1e47e179", "d1bd", "3d020ae10c"),
    (64, 16, "af16d6b978074073", "c3c7", "13e2b0923a3bc4db"),
    (96, 32, "f0bc56a2d1d2a2d777f575b5", "f10637cf", "9149ad0bfd8c267add8fb9b1"),
    (120, 40, "98e3d6703ccedd2c575e61505ffb33", "bb04b8157d", "8541fb5088d4314ef4125cd052f70f"),
    (160, 64, "87c5e21b2be83f1feac14741ad10f8d3f83a556b", "8c89c0017c4ea603", "4b4a4fab0471853495f7ee3b10c0af2031c01d0e"),
    (256, 96, "8d8e91100e378c3cc73e248407c862114bb1f5954587b6f49a905b6013e6e2d9", "9eb4e92eb5af4c8a989d181d", "6ac97af5080e1a57a5e67a3758763a081f94c5aafc591de383d70121b925c5e3"),
    (512, 160, "cbbd8066d32724815a9d44cc3f434347243ffd07e20321c66b315957284eda74bc758ecd3d0463185217833a32789208ba7044897239a2fc19bdd0e68a9d860f", "b68dc5bfb15adcf27e9508cb3286dfae4c0b0f71", "f69040b533c07961001f9c6af2b115efee932f9631592e21e2c4b5780d1b1d1043d198e396c4b3f0bc1f5967749c016c4e287a3629ed74d84c38d3bb917471e"),
    (768, 128, "f66b99c88abd974a5bcea8fee49de9b3d3a6110505c55cc6597d1f276bf1cfda0c2f7fa19b761ad6f499add998d112e95162d5d95c9db6b2e6a77d19f2db1d58abda4b9081914a3ea8de2b819a3acf43a16a1af64ede75ad5e5cf18768509f95", "cf347d4190b4de21745ebf973ef19011", "6de7c5c47ad07e8fb6ed3a6d4811a880e934cc60ae8ff69b426bf2deafac6979cc2094657d72f8e75d1a69fc48f6885fda686b1369e0dad5b9daebb6f1cdd8ffee00ba77290e11565e74546d441aad1bae725933ce5eb29c9ea87d42cc6f2772"),
    (1024, 160, "a87bb3562ac917a472fe624a764625b45386bf250dc049a45cf9137a12d89639779c9a324fe07a3b9da1087184c47e5e6fb2980c777ec21590dd286e2e8133a0b7b7c21ce50dcf11651bfbeee00043950b0c8a6088f657fb9857db8882ed70bb5e4a4d7e96fb03407fdfea39dcf4cb2a3cf43a2b51a0eb86d2e98a02dfadb58d", "985f45cacd6efc3131936edf2ced6998c3002d8d", "9f5923d2447d5b3f9e83060583e0b11fadfaeb6f9b7000857069efc8baf73fcac08990f8286fbbe9621a823d0026ddd56615831d5fa1db056e18ccd4101345d93403e184f7212c2b3a1e88799b15033ef1b1a9dcbd5cb4af4c3d824bf3377336c7907c9bcdcda4a695ddaea78801d70d1dacb4c148d6416686c3beb50ca74e92"),
    (2048, 224, "ad45d2d96388f6423ae44a6af6ca7781c2d8fae22e2a1b3a3356162c590299d9ef8e199164c3fe82ac895353ae938e55097144e70fb46dd1399c1a11780dfada063b42bfb06fff1bc31a8ad961c8226aff1031ef66ba006a9396ae9118eef5bbe8ae360bf7f62f90201b3ce02beaeab1c499e9a8417381095d681b522a03b2a151967bdcccc83110da7d8c9855c91d45297c2f8562b863b44710b1ab9e467aaa77aa29e24801b0afbd74a3f92825f770c06461387ebd1b7ccd6d1780fbc56e1313abf42a4ca651672bf9a21510b286cd1b5d3099e9e90c1b222441e84e0c33aa3ff40da24643344eba0ff6bf02038ec29edbba0a0ec7bd82f0cb9e950211c997", "9504bc11675b3ead3bb140920814823807ccc13b886b8165ba70bf09", "74b7042a59c2cfc4bb66794621aadcca421c83da429749cabd52801e172cd28d14491f13de00b77b42b05a6599b505943ea5f4236b12541bfcf41ee81278a571651b0c807a30bbd3fe5a43e9025ae464e8cae530511784ac3e909e8b6a287373260f630b45b9ad1926107bfa2296693a50489bdc061785897d7c90e0d6e84fe8fec0d0ecf10a07a4b5ba0dee121f26b6922a70a53fbc1a97da4e16ff975190d86c14ebf39271c910f7d84c153ead10fca62ba3c646b8ccbd69de69f4c86a66f34ba90f275afd0d02984117020c68bc3cb7794df838b8e2776c9272656c08943181ddc199b10086210883cb4b647b0845ce426e1b2b839dc7108f55e4ca27f5a9"),
    (2048, 256, "da4e167d1b0c47a0140ad9bfe42bfb3b55a46c6e9aa0444451aa9b06622821ef9b62b96b4084f5bcdbea8c7f6ce19ef0c672a42243d14ffd2affd3239318c8ababfc39208a6616f54e5999f7616ed5ea9943f9c35ec6b855bd32a9576a44e6609d6beb7b78ab4aafe18bba045a82a717c4b3d81e305f4cd4d04327c789a401d45d94b6ecbd96163cf14ac9a0f56de21f872b64a3a45a6d990e52f564d1fa7c67fce3187180a25d30fe50a377ce9d4bf50ebf577bb6b73a9dfc233cdf4393fe6303807adb2777cc3ff012fb02300a6507c8d5d93ef10a561d75a8d9bd20fa1cd8f9ea5862dd24574cdb13aa7a662136277d2bf136b0ea9bb752e2a585ef479e0d", "db8435ec94610ccf8adb12c255960ad95b528606e975464bb695d4e3177e1f3b", "20116a9f5e6be29175243cd0591ed610a9c296bd6416a72b8cb938592230e16d70de7b8eb4366a017151bc49394b0088ab8960f100edbd93e23566fdf290226d95390d60270fb201a2a93e3897ca6f3178dd60764ea69b3bb0439e2b867cebfa93384f2b22f0ecd2075bb87894127e6f468edf85cdd74d8b189b4cc785314f6ed9989fff2e4c2e4bd0ca1401637c4f2523e74005d2ac141d72ac528dbb1691c7c6d27685546079dbca59c6833ecd627094483992cd7a1922c388c631c33b3a1342901e555c72fc4beea17a10c76b98e757aaf100ac658f6bda278370fe21289def5f062ab7ab568744bbfe1d0b0d8883a10c6cb6c02c00985f57523514982a24"),
];

/// curve backends: (name, reference curve)
pub const BACKENDS: [(&str, usize); 6] = [("P-224", 0), ("P-224 generic", 0), ("P-256", 1), ("P-256 generic", 1), ("P-384 generic", 2), ("P-521 generic", 3)];

#[derive(Clone, Copy, PartialEq)]
pub enum Group {
    Dsa(usize),
    Ec(usize),
}

#[derive(Clone, PartialEq)]
pub enum Public {
    Y(Bn),
    Q(Pt),
}

impl Group {
    pub fn of(ec: bool, i: usize) -> Group {
        if ec {
            Group::Ec(i % BACKENDS.len())
        } else {
            Group::Dsa(i % PARAMS.len())
        }
    }
    fn dsa(i: usize) -> Dsa {
        let (_, _, p, q, g) = PARAMS[i];
        Dsa { p: Bn::hex(p), q: Bn::hex(q), g: Bn::hex(g) }
    }
    pub fn curve(i: usize) -> &'static Curve {
        Curve::get(BACKENDS[i].1)
    }
    pub fn order(&self) -> Bn {
        match *self {
            Group::Dsa(i) => Self::dsa(i).q,
            Group::Ec(i) => Self::curve(i).n.clone(),
        }
    }
    pub fn name(&self) -> String {
        match *self {
            Group::Dsa(i) => format!("DSA({}, {})", PARAMS[i].0, PARAMS[i].1),
            Group::Ec(i) => BACKENDS[i].0.to_string(),
        }
    }
    /// different backends of one curve are one mathematical group
    fn math(&self) -> (bool, usize) {
        match *self {
            Group::Dsa(i) => (false, i),
            Group::Ec(i) => (true, BACKENDS[i].1),
        }
    }
    pub fn public(&self, x: &Bn) -> Public {
        match *self {
            Group::Dsa(i) => {
                let d = Self::dsa(i);
                Public::Y(d.g.powmod(x, &d.p))
            }
            Group::Ec(i) => Public::Q(Self::curve(i).base(x)),
        }
    }
    /// first component belonging to nonce k
    pub fn first(&self, k: &Bn) -> Bn {
        match *self {
            Group::Dsa(i) => {
                let d = Self::dsa(i);
                d.g.powmod(k, &d.p).rem(&d.q)
            }
            Group::Ec(i) => match Self::curve(i).base(k) {
                Some((x, _)) => x.rem(&Self::curve(i).n),
                None => Bn::zero(),
            },
        }
    }
    pub fn verify(&self, y: &Public, hash: &[u8], r: &Bn, s: &Bn) -> bool {
        match (*self, y) {
            (Group::Dsa(i), Public::Y(y)) => Self::dsa(i).verify(y, hash, r, s),
            (Group::Ec(i), Public::Q(q)) => Self::curve(i).ecdsa_verify(q, hash, r, s),
            _ => false,
        }
    }
    /// library object holding the private key, or only the public one
    pub fn object(&self, x: &Bn, y: &Public, private: bool, hash: usize, rd: SimRng) -> R<Box<dyn DssObj>> {
        self.object_with(x, y, private, AnyHash::get(hash), rd)
    }
    pub fn object_with(&self, x: &Bn, y: &Public, private: bool, h: AnyHash, rd: SimRng) -> R<Box<dyn DssObj>> {
        match (*self, y) {
            (Group::Dsa(i), Public::Y(y)) => {
                let d = Self::dsa(i);
                let dp = dsa::DomainParameters::new_uncheck(&to_big(&d.p), &to_big(&d.q), &to_big(&d.g))?;
                let pk = dsa::PublicKey::new_uncheck(&dp, &to_big(y))?;
                let kp = if private { dsa::KeyPair::from(dsa::PrivateKey::new_uncheck(&pk, &to_big(x))?) } else { dsa::KeyPair::from(pk) };
                Ok(Box::new(DSA::new_uncheck(h, rd, kp)?))
            }
            (Group::Ec(i), Public::Q(Some((qx, qy)))) => {
                let pk = elliptic::PublicKey::new_uncheck(&to_big(qx), &to_big(qy));
                let kp = if private { elliptic::KeyPair::from(elliptic::PrivateKey::new_uncheck(pk, &to_big(x))) } else { elliptic::KeyPair::from(pk) };
                Ok(match i {
                    0 => Box::new(ECDSA::new_unchcek(h, rd, CurveP224::new()?, kp)?) as Box<dyn DssObj>,
                    1 => Box::new(ECDSA::new_unchcek(h, rd, CurveParams::p224()?, kp)?),
                    2 => Box::new(ECDSA::new_unchcek(h, rd, CurveP256::new()?, kp)?),
                    3 => Box::new(ECDSA::new_unchcek(h, rd, CurveParams::p256()?, kp)?),
                    4 => Box::new(ECDSA::new_unchcek(h, rd, CurveParams::p384()?, kp)?),
                    _ => Box::new(ECDSA::new_unchcek(h, rd, CurveParams::p521()?, kp)?),
                })
            }
            _ => Err(CryptoError::new(rcrypto::CryptoErrorKind::InvalidParameter, "no key")),
        }
    }
}

pub fn private_of(g: &Group, kind: usize, seed: i64) -> Bn {
    let q1 = g.order().sub(&Bn::one());
    match kind {
        1 => Bn::one(),
        2 => q1,
        3 => Bn::from_u64(1 + seed.unsigned_abs() % 9).rem(&q1).add(&Bn::one()),
        _ => Bn::from_be(&payload(seed * 16 + 15, 80)).rem(&q1).add(&Bn::one()),
    }
}

/// a signature in flight: what was put on the wire and what the channel made of the raw bytes
#[derive(Clone, Default)]
struct Wire {
    r: Bn,
    s: Bn,
    raw: Option<Vec<u8>>,
    msg: Vec<u8>,
}

fn be(b: &Bn) -> Vec<u8> {
    let v = b.to_be();
    if v.is_empty() {
        vec![0]
    } else {
        v
    }
}

impl Wire {
    fn content(&self) -> SignatureContent {
        let mut sc = match self.msg.len() % 3 {
            0 => SignatureContent::form_bigint(&to_big(&self.r), &to_big(&self.s)),
            n => {
                let mut sc = SignatureContent::with_capacity(n);
                if n == 2 {
                    sc.set(to_big(&self.s), to_big(&self.s));
                }
                sc.set(to_big(&self.r), to_big(&self.s));
                sc
            }
        };
        if let Some(raw) = &self.raw {
            let v: &mut Vec<u8> = sc.as_mut();
            v.clear();
            v.extend_from_slice(raw);
        }
        sc
    }
    /// the two components a receiver reads
    fn parsed(&self) -> Option<(Bn, Bn)> {
        match &self.raw {
            None => Some((self.r.clone(), self.s.clone())),
            Some(v) => {
                let n = be(&self.r).len();
                if v.len() <= n {
                    return None;
                }
                Some((Bn::from_be(&v[..n]), Bn::from_be(&v[n..])))
            }
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match &self.raw {
            Some(v) => v.clone(),
            None => [be(&self.r), be(&self.s)].concat(),
        }
    }
}

const SIG_DAMAGE: [&str; 22] = [
    "r_bit_flipped", "s_bit_flipped", "r_plus_order", "s_plus_order", "r_zero", "s_zero", "r_equals_order", "s_equals_order", "components_swapped", "s_negated", "r_negated",
    "both_one", "r_replaced", "s_replaced", "r_huge", "raw_bit_flipped", "raw_truncated", "raw_extended", "raw_lost", "raw_zero_prefixed", "raw_cut_inside_r", "s_set_to_r",
];

fn damage_sig(w: &mut Wire, kind: usize, arg: usize, q: &Bn) {
    let flip = |b: &Bn| -> Bn {
        let bit = Bn::one().shl(arg % q.bits());
        if b.bit(arg % q.bits()) {
            b.sub(&bit)
        } else {
            b.add(&bit)
        }
    };
    let rnd = |x: usize| Bn::from_be(&payload((arg + x) as i64 * 16 + 15, 70)).rem(q);
    let r = w.r.clone();
    match kind {
        0 => w.r = flip(&w.r),
        1 => w.s = flip(&w.s),
        2 => w.r = w.r.add(q),
        3 => w.s = w.s.add(q),
        4 => w.r = Bn::zero(),
        5 => w.s = Bn::zero(),
        6 => w.r = q.clone(),
        7 => w.s = q.clone(),
        8 => std::mem::swap(&mut w.r, &mut w.s),
        9 => w.s = q.sub(&w.s.rem(q)),
        10 => w.r = q.sub(&w.r.rem(q)),
        11 => {
            w.r = Bn::one();
            w.s = Bn::one();
        }
        12 => w.r = rnd(1),
        13 => w.s = rnd(2),
        14 => w.r = w.r.add(&q.shl(arg % 300)),
        21 => w.s = r,
        _ => {
            let mut v = w.bytes();
            let len = v.len();
            match kind {
                15 if len > 0 => {
                    let b = arg % (len * 8);
                    v[b / 8] ^= 1 << (b % 8);
                }
                16 => v.truncate(len.saturating_sub(1 + arg % 3)),
                17 => v.extend(payload(arg as i64, 1 + arg % 3)),
                18 => v.clear(),
                19 => v.insert(0, 0),
                20 => v.truncate(arg % be(&w.r).len()),
                _ => {}
            }
            w.raw = Some(v);
            return;
        }
    }
    w.raw = None;
}

struct Node {
    obj: Box<dyn DssObj>,
    g: Group,
    y: Public,
    hash: usize,
    private: bool,
    fails: i64,
    used: i64,
}

pub struct Dss {
    pub ec: bool,
}
pub const S01: Dss = Dss { ec: false };
pub const S02: Dss = Dss { ec: true };

const SLOTS: usize = 4;
const WIRES: usize = 5;

impl Dss {
    fn pick_group(&self, r: &mut Rng) -> i64 {
        if self.ec {
            *r.pick(&[0i64, 0, 0, 1, 2, 2, 2, 3, 4, 5])
        } else if r.chance(1, 40) {
            r.range(11, 12)
        } else if r.chance(1, 8) {
            10
        } else {
            r.range(0, 9)
        }
    }
}

impl Scenario for Dss {
    fn id(&self) -> &'static str {
        if self.ec {
            "S02"
        } else {
            "S01"
        }
    }
    fn kinds(&self) -> Vec<RunKind> {
        let f = if self.ec { 1 } else { 10 };
        vec![
            RunKind { name: "fault-free", quick: 120 * f, thorough: 2000 * f },
            RunKind { name: "faulty-channel", quick: 200 * f, thorough: 3000 * f },
            RunKind { name: "faulty-random-source", quick: 140 * f, thorough: 2000 * f },
            RunKind { name: "everything", quick: 140 * f, thorough: 2000 * f },
            RunKind { name: "edge-numbers", quick: 200 * f, thorough: 3000 * f },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        if kind == 4 {
            let g = self.pick_group(r);
            let (xk, xs) = (*r.pick(&[0i64, 0, 0, 0, 1, 2, 3]), r.data_seed());
            p.push("obj", &[0, g, xk, xs, ECHO as i64, 1]);
            p.push("obj", &[1, g, xk, xs, ECHO as i64, 0]);
            for _ in 0..r.range(2, 5) {
                let w = r.range(0, WIRES as i64 - 1);
                if self.ec && r.chance(2, 3) {
                    p.push("edge", &[2, w, g, r.range(0, 2), r.range(0, 15), r.range(0, 3000), r.range(0, 2)]);
                    p.push("ver", &[2, w]);
                    if r.chance(1, 3) {
                        p.push("dmg", &[w, r.range(0, SIG_DAMAGE.len() as i64 - 1), r.range(0, 1 << 16)]);
                        p.push("ver", &[2, w]);
                    }
                } else {
                    p.push("esign", &[0, w, r.data_seed(), r.range(0, 9)]);
                    p.push("ver", &[r.range(0, 1), w]);
                    if r.chance(1, 3) {
                        p.push("emsg", &[w, g, r.range(0, 3), r.range(0, 600)]);
                        p.push("ver", &[r.range(0, 1), w]);
                    }
                }
            }
            return p;
        }
        let chan = kind == 1 || kind == 3;
        let rnd = kind == 2 || kind == 3;
        let g = self.pick_group(r);
        let other = if self.ec && r.chance(1, 2) { g ^ (g < 4) as i64 } else { g };
        let h = pick_hash(r, g);
        let (xk, xs) = (*r.pick(&[0i64, 0, 0, 0, 1, 2, 3]), r.data_seed());
        let old = |r: &mut Rng| if r.chance(1, 3) { r.data_seed() } else { 0 };
        p.push("obj", &[0, g, xk, xs, h, 1, old(r)]);
        p.push("obj", &[1, other, xk, xs, h, 0, old(r)]);
        if r.chance(1, 2) {
            p.push("obj", &[2, g, 0, r.data_seed(), h, r.range(0, 1)]);
        }
        if r.chance(1, 3) {
            p.push("obj", &[3, if r.chance(1, 2) { g } else { self.pick_group(r) }, xk, xs, r.range(0, NHASH as i64 - 1), 1]);
        }
        let steps = r.range(2, if self.ec { 6 } else { 10 });
        for _ in 0..steps {
            let o = r.range(0, 3);
            let w = r.range(0, WIRES as i64 - 1);
            match r.below(14) {
                0..=2 => {
                    p.push("sign", &[o, w, r.data_seed(), *r.pick(&[0i64, 1, 20, 64, 65, 200])]);
                    p.push("ver", &[r.range(0, 2), w]);
                }
                3 | 4 => p.push("ver", &[o, w]),
                5..=8 if chan => {
                    p.push("dmg", &[w, r.range(0, SIG_DAMAGE.len() as i64 - 1), r.range(0, 1 << 16)]);
                    p.push("ver", &[r.range(0, 1), w]);
                }
                9 if chan => {
                    p.push("msg", &[w, r.range(0, 4), r.range(0, 1 << 12)]);
                    p.push("ver", &[r.range(0, 1), w]);
                }
                10 if chan => {
                    p.push("trap", &[o, w, g, h, r.range(0, if self.ec { 3 } else { 4 }), r.data_seed()]);
                    p.push("ver", &[o, w]);
                }
                11 | 12 if rnd => {
                    let k = r.range(0, RNG_FAULTS.len() as i64 - 2);
                    let len = if r.chance(1, 3) { r.range(20, 200) } else { r.range(1, 20) };
                    p.push("rng", &[k, r.range(0, 12), len]);
                }
                13 if rnd => p.push("script", &[0, r.range(0, 6), r.data_seed()]),
                10 if rnd => p.push("heal", &[]),
                _ => {
                    p.push("sign", &[0, w, r.data_seed(), r.range(0, 30)]);
                    p.push("ver", &[1, w]);
                }
            }
        }
        p.push("heal", &[]);
        p.push("sign", &[0, 0, r.data_seed(), 9]);
        p.push("ver", &[0, 0]);
        p.push("ver", &[1, 0]);
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let rng = SimRng::new(0x7777 + plan.getu("seed") as u64);
        let mut objs: Vec<Option<Node>> = (0..SLOTS).map(|_| None).collect();
        let mut wires: Vec<Wire> = vec![Wire::default(); WIRES];
        let mut out = SignatureContent::new();
        let mut healthy = true;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % SLOTS;
            match st.op.as_ref() {
                "obj" => {
                    let g = Group::of(self.ec, st.u(1));
                    let x = private_of(&g, st.u(2), st.i(3));
                    let y = g.public(&x);
                    let hash = st.u(4) % NHASH;
                    let private = st.u(5) == 1;
                    cx.sched(s, "obj");
                    let old = st.i(6);
                    if old != 0 {
                        cx.fault("used_hash_handed_over");
                    }
                    match cx.lib("constructor", || g.object_with(&x, &y, private, used(AnyHash::get(hash), old), rng.clone()))? {
                        Ok(obj) => objs[s] = Some(Node { obj, g, y, hash, private, fails: 0, used: 0 }),
                        Err(_) => return cx.fail("refused", format!("{}: key refused", g.name())),
                    }
                }
                "trap" => {
                    // a key chosen after the message so that the verification meets a special case
                    let g = Group::of(self.ec, st.u(2));
                    let hash = st.u(3) % NHASH;
                    let n = g.order();
                    let seed = st.i(5);
                    let msg = payload(seed, 11);
                    let e = truncated(&ref_hash(hash, &msg), n.bits()).rem(&n);
                    let k = private_of(&g, 0, seed + 1);
                    let mut r = g.first(&k);
                    if st.u(4) % 4 == 0 {
                        r = private_of(&g, 0, seed + 2);
                    }
                    if st.u(4) == 4 {
                        // a first component of zero that the equation would hold for
                        let small = if n.bits() < 14 { n.to_be().iter().fold(0u64, |a, b| a << 8 | *b as u64) } else { 0 };
                        let k = match (1..small).map(Bn::from_u64).find(|k| g.first(k).is_zero()) {
                            Some(k) if !e.is_zero() => k,
                            _ => continue,
                        };
                        let sv = e.mulmod(&k.inv(&n).unwrap(), &n);
                        let x = private_of(&g, 0, seed + 3);
                        let y = g.public(&x);
                        cx.fault("crafted_signature");
                        match cx.lib("constructor", || g.object(&x, &y, true, hash, rng.clone()))? {
                            Ok(obj) => objs[s] = Some(Node { obj, g, y, hash, private: true, fails: 0, used: 0 }),
                            Err(_) => return cx.fail("refused", format!("{}: key refused", g.name())),
                        }
                        wires[st.u(1) % WIRES] = Wire { r: Bn::zero(), s: sv, raw: None, msg };
                        continue;
                    }
                    if r.is_zero() || e.is_zero() {
                        continue;
                    }
                    let rinv = r.inv(&n).unwrap();
                    let x = match st.u(4) % 4 {
                        // u1*G + u2*Q is the neutral element
                        0 | 1 => n.sub(&e.mulmod(&rinv, &n)),
                        // u1*G = u2*Q
                        2 => e.mulmod(&rinv, &n),
                        _ => private_of(&g, 0, seed + 3),
                    };
                    let kinv = k.inv(&n).unwrap();
                    let sv = kinv.mulmod(&e.addmod(&r.mulmod(&x, &n), &n), &n);
                    let sv = if sv.is_zero() { private_of(&g, 0, seed + 4) } else { sv };
                    let y = g.public(&x);
                    cx.fault("crafted_signature");
                    match cx.lib("constructor", || g.object(&x, &y, true, hash, rng.clone()))? {
                        Ok(obj) => objs[s] = Some(Node { obj, g, y, hash, private: true, fails: 0, used: 0 }),
                        Err(_) => return cx.fail("refused", format!("{}: key refused", g.name())),
                    }
                    wires[st.u(1) % WIRES] = Wire { r, s: sv, raw: None, msg };
                }
                "edge" => {
                    // a valid signature under a key, or with a nonce point, that has a coordinate at some edge
                    let (i, c) = match Group::of(self.ec, st.u(2)) {
                        Group::Ec(i) => (i, Group::curve(i)),
                        _ => continue,
                    };
                    let g = Group::Ec(i);
                    let seed = st.i(5);
                    let pt = edge_point(c, st.u(3), st.u(4), seed);
                    let (u1, u2) = (private_of(&g, if st.u(6) == 2 { 3 } else { 0 }, seed + 1), private_of(&g, 0, seed + 2));
                    let neg = |p: Pt| p.map(|(x, y)| (x, Bn::zero().submod(&y, &c.p)));
                    let (q, nonce) = if st.u(6) == 0 {
                        let nonce = c.add(&c.base(&u1), &c.mul(&u2, &pt));
                        (pt, nonce)
                    } else {
                        (c.mul(&u2.inv(&c.n).unwrap(), &c.add(&pt, &neg(c.base(&u1)))), pt)
                    };
                    let r = match (&q, nonce) {
                        (Some(_), Some((x, _))) => x.rem(&c.n),
                        _ => continue,
                    };
                    if r.is_zero() {
                        continue;
                    }
                    let sv = r.mulmod(&u2.inv(&c.n).unwrap(), &c.n);
                    let msg = echo_msg(&u1.mulmod(&sv, &c.n), &c.n, seed);
                    let y = Public::Q(q);
                    cx.fault("crafted_key");
                    match cx.lib("constructor", || g.object(&Bn::one(), &y, false, ECHO, rng.clone()))? {
                        Ok(obj) => objs[s] = Some(Node { obj, g, y, hash: ECHO, private: false, fails: 0, used: 0 }),
                        Err(_) => return cx.fail("refused", format!("{}: key refused", g.name())),
                    }
                    wires[st.u(1) % WIRES] = Wire { r, s: sv, raw: None, msg };
                }
                "emsg" => {
                    // another message with the same, or nearly the same, number
                    let n = Group::of(self.ec, st.u(1)).order();
                    let w = &mut wires[st.u(0) % WIRES];
                    let e = truncated(&ref_hash(ECHO, &w.msg), n.bits());
                    let e = match st.u(2) % 4 {
                        0 => e,
                        1 => e.add(&n),
                        2 if e >= n => e.sub(&n),
                        _ => {
                            let b = Bn::one().shl(st.u(3) % n.bits());
                            if e.bit(st.u(3) % n.bits()) { e.sub(&b) } else { e.add(&b) }
                        }
                    };
                    w.msg = echo_msg(&e, &n, st.i(3));
                    cx.fault("message_altered");
                }
                "rng" => {
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                    healthy = false;
                }
                "script" => {
                    // chosen nonce candidates: 0, 1, order-1, order, small, all ones
                    if let Some(n) = &objs[s] {
                        let q = n.g.order();
                        let v = match st.u(1) % 7 {
                            0 => Bn::zero(),
                            1 => Bn::one(),
                            2 => q.sub(&Bn::one()),
                            3 => q.clone(),
                            4 => Bn::from_u64(st.i(2).unsigned_abs() % 1000),
                            5 => q.shr(33),
                            _ => q.add(&Bn::one()),
                        };
                        let words = (q.bits() + 31) / 32;
                        let b = v.to_be_len(4 * words).unwrap_or_else(|| vec![0xff; 4 * words]);
                        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
                        if st.u(2) % 4 != 0 {
                            w.reverse();
                        }
                        rng.script(&w);
                        healthy = false;
                    }
                }
                "heal" => {
                    rng.disarm();
                    healthy = true;
                }
                "sign" | "esign" => {
                    if let Some(n) = objs[s].as_mut() {
                        let msg = if st.op == "sign" {
                            payload(st.i(2), st.u(3).min(5000))
                        } else {
                            let q = n.g.order();
                            let v = match st.u(3) % 10 {
                                0 => Bn::zero(),
                                1 => Bn::one(),
                                2 => q.sub(&Bn::one()),
                                3 => q.clone(),
                                4 => q.add(&Bn::one()),
                                5 => Bn::one().shl(q.bits()).sub(&Bn::one()),
                                6 => Bn::one().shl(st.u(2) % q.bits()),
                                7 => Bn::one().shl(st.u(2) % q.bits()).sub(&Bn::one()),
                                8 => Bn::from_u64(st.u(2) as u64 % 512),
                                _ => Bn::from_be(&payload(st.i(2), ECHO_LEN)),
                            };
                            echo_msg(&v, &q, st.i(2))
                        };
                        rng.budget(20_000);
                        let (w0, e0) = rng.count();
                        cx.sched(s, "sign");
                        let res = cx.lib("sign", || n.obj.sig(&mut out, &msg))?;
                        let (w1, e1) = rng.count();
                        let errs = e1 - e0;
                        let name = n.g.name();
                        let hn = HASH_NAMES[n.hash];
                        cx.state(&[0, n.g.math().1 as i64, matches!(n.g, Group::Ec(1 | 3)) as i64, n.hash as i64, n.private as i64, (errs > 0) as i64, ((w1 - w0) as i64).min(60), n.fails.min(2), n.used.min(2)]);
                        n.used += 1;
                        match res {
                            Ok(()) => {
                                let (r, sv) = out.to_bigint();
                                let (r, sv) = match (from_big(&r), from_big(&sv)) {
                                    (Some(r), Some(s)) => (r, s),
                                    _ => return cx.fail("no-number", format!("{} {}: signature components are no numbers", name, hn)),
                                };
                                cx.event("r", &r.to_be());
                                cx.event("s", &sv.to_be());
                                cx.require(n.private, "signed-without-key", || format!("{}: signed without a private key", name))?;
                                let q = n.g.order();
                                cx.require(!r.is_zero() && !sv.is_zero() && r < q && sv < q, "range", || format!("{} {}: component outside [1, order-1]: r = {}, s = {}", name, hn, r.show(), sv.show()))?;
                                let ok = n.g.verify(&n.y, &ref_hash(n.hash, &msg), &r, &sv);
                                cx.require(ok, "bad-signature", || format!("{} {}: signature does not verify by FIPS 186-4 ({} words drawn, {} errors)", name, hn, w1 - w0, errs))?;
                                wires[st.u(1) % WIRES] = Wire { r, s: sv, raw: None, msg };
                            }
                            Err(_) => {
                                cx.event("refused", &[]);
                                n.fails += 1;
                                // a tiny group can run into the library's ten attempts only with a bad source
                                cx.require(!n.private || errs > 0 || !healthy, "refused", || format!("{} {}: signing failed with a healthy source", name, hn))?;
                            }
                        }
                    }
                }
                "ver" => {
                    if let Some(n) = objs[s].as_mut() {
                        let w = &wires[st.u(1) % WIRES];
                        cx.sched(s, "ver");
                        let sc = w.content();
                        let res = cx.lib("verify", || n.obj.ver(&sc, &w.msg))?;
                        let want = match w.parsed() {
                            Some((r, sv)) => n.g.verify(&n.y, &ref_hash(n.hash, &w.msg), &r, &sv),
                            None => false,
                        };
                        cx.state(&[1, n.g.math().1 as i64, matches!(n.g, Group::Ec(1 | 3)) as i64, n.hash as i64, n.private as i64, want as i64, w.raw.is_some() as i64, n.fails.min(2), n.used.min(2)]);
                        let (name, hn) = (n.g.name(), HASH_NAMES[n.hash]);
                        n.used += 1;
                        if want {
                            cx.probe("accepted");
                            cx.require(res.is_ok(), "rejected", || format!("{} {}: a valid signature was rejected", name, hn))?;
                        } else {
                            cx.probe("rejected");
                            n.fails += 1;
                            cx.require(res.is_err(), "accepted", || format!("{} {}: an invalid signature was accepted: r = {}, s = {}, raw = {:?}", name, hn, w.r.show(), w.s.show(), w.raw))?;
                        }
                        cx.event(if want { "valid" } else { "invalid" }, &[]);
                    }
                }
                "dmg" => {
                    let kd = st.u(1) % SIG_DAMAGE.len();
                    let q = match &objs[0] {
                        Some(o) => o.g.order(),
                        None => continue,
                    };
                    damage_sig(&mut wires[st.u(0) % WIRES], kd, st.u(2), &q);
                    cx.fault(SIG_DAMAGE[kd]);
                }
                "msg" => {
                    let w = &mut wires[st.u(0) % WIRES];
                    let l = w.msg.len();
                    match st.u(1) % 5 {
                        0 if l > 0 => w.msg[st.u(2) % l] ^= 1 << (st.u(2) / 7 % 8),
                        1 => w.msg.push(0),
                        2 if l > 0 => w.msg.truncate(l - 1),
                        3 => w.msg.clear(),
                        _ => w.msg.insert(0, st.u(2) as u8),
                    }
                    cx.fault("message_altered");
                }
                _ => {}
            }
        }
        rng.report(cx);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = signatures judged by the reference and verifications compared with the reference decision; a state is (operation, group, generic backend, hash, private key held, valid or source-failed, words drawn or raw damage, failures so far up to 2, uses so far up to 2)"
    }
    fn real(&self) -> &'static [&'static str] {
        if self.ec {
            &["rcrypto ECDSA", "rcrypto curve backends", "rcrypto digests, AES-CTR generator", "rmath integers"]
        } else {
            &["rcrypto DSA", "rcrypto digests", "rmath integers"]
        }
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)", "channel (wire slots)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["keys are made by the reference (public key belongs to the private key, point on the curve)", "order length is a multiple of 8 bits for DSA", "random-source faults last at most 400 words per fault"]
    }
}

// ---------------------------------------------------------------- S03

pub struct S03;

impl Scenario for S03 {
    fn id(&self) -> &'static str {
        "S03"
    }
    fn kinds(&self) -> Vec<RunKind> {
        vec![
            RunKind { name: "ecdsa-healthy", quick: 120, thorough: 2000 },
            RunKind { name: "ecdsa-degraded", quick: 400, thorough: 6000 },
            RunKind { name: "dsa-healthy", quick: 1000, thorough: 15000 },
            RunKind { name: "ecdsa-many-signatures", quick: 10, thorough: 80 },
            RunKind { name: "dsa-many-signatures", quick: 20, thorough: 200 },
            RunKind { name: "ecdsa-one-bit-apart", quick: 120, thorough: 2000 },
            RunKind { name: "ecdsa-every-bit", quick: 18, thorough: 200 },
        ]
    }
    fn gen(&self, kind: usize, r: &mut Rng, _tier: Tier) -> Plan {
        let mut p = Plan::default();
        p.set("seed", r.data_seed());
        let ec = kind != 2 && kind != 4;
        p.set("ec", ec as i64);
        if kind == 6 {
            // one input of the nonce with each of its bits changed in turn
            let g = *r.pick(&[0i64, 0, 0, 2, 2, 2, 1, 3, 4, 5]);
            let n = Group::of(true, g as usize).order().bits() as i64;
            let (base, what) = (r.data_seed(), r.range(0, 2));
            let from = r.range(0, 1 << 12);
            for i in 0..97i64 {
                let bit = if i == 0 { 0 } else { (from + i) % [96, n, n][what as usize] + 1 };
                if i == 0 || what == 2 {
                    p.push("obj", &[0, g, base, ECHO as i64, if what == 2 { bit } else { 0 }]);
                }
                if what == 0 {
                    p.push("words", &[base, bit]);
                } else {
                    p.push("rewind", &[]);
                }
                p.push("sign", &[0, 0, if what == 1 { bit } else { 0 }]);
            }
            return p;
        }
        if kind == 5 {
            // keys, hash values and source words that differ from each other in one bit each
            let g = r.range(0, 5);
            let n = Group::of(true, g as usize).order().bits() as i64;
            let base = r.data_seed();
            p.push("obj", &[0, g, base, ECHO as i64, 0]);
            p.push("obj", &[1, g, base, ECHO as i64, r.range(1, n)]);
            p.push("obj", &[2, g, base, ECHO as i64, r.range(1, 64)]);
            for _ in 0..r.range(3, 8) {
                if r.chance(1, 2) {
                    p.push("words", &[base, if r.chance(1, 2) { 0 } else { r.range(1, 96) }]);
                } else {
                    p.push("rewind", &[]);
                }
                p.push("sign", &[r.range(0, 2), 0, if r.chance(1, 2) { 0 } else { r.range(1, n) }]);
            }
            return p;
        }
        if kind > 2 {
            let g = if ec { r.range(0, 5) } else { r.range(4, 10) };
            p.push("obj", &[0, g, r.data_seed(), r.range(0, 8)]);
            for m in 0..60 {
                p.push("sign", &[0, m]);
            }
            return p;
        }
        let g = if ec { *r.pick(&[0i64, 0, 0, 1, 2, 2, 2, 3, 4, 5]) } else { *r.pick(&[7i64, 8, 8, 9, 9, 9, 8, 10]) };
        let h = pick_hash(r, g);
        let base = r.data_seed();
        let nk = r.range(1, 2);
        for k in 0..nk {
            p.push("obj", &[k, g, base + k, h]);
        }
        if ec && r.chance(1, 3) {
            // the same key again in a new process: new object, source rewound
            p.push("obj", &[2, g, base, h]);
        }
        if kind == 1 {
            p.push("rng", &[*r.pick(&[1i64, 2, 3, 4, 5, 6, 0]), r.range(0, 8), 400]);
        }
        for _ in 0..r.range(3, 9) {
            if kind == 1 && r.chance(1, 4) {
                p.push("rng", &[*r.pick(&[0i64, 1, 2, 3, 4, 5, 6]), r.range(0, 8), r.range(1, 400)]);
            }
            if kind == 1 && r.chance(1, 4) {
                p.push("rewind", &[]);
            }
            p.push("sign", &[r.range(0, 2), r.range(0, 4)]);
        }
        p
    }
    fn run(&self, plan: &Plan, cx: &mut Ctx) -> Check {
        let ec = plan.getu("ec") == 1;
        let seed = 0x3333 + plan.getu("seed") as u64;
        let mut rng = SimRng::new(seed);
        struct K {
            obj: Box<dyn DssObj>,
            g: Group,
            x: Bn,
            y: Public,
            hash: usize,
            which: i64,
        }
        let mut objs: Vec<Option<K>> = vec![None, None, None];
        // (first component, key, hash value, signature was made with a source that does not repeat)
        let mut hist: Vec<(Bn, (usize, i64), Bn, bool, Option<(i64, i64)>)> = Vec::new();
        let mut nonces: Vec<Bn> = Vec::new();
        let mut spread = Spread::default();
        let mut bits = usize::MAX;
        let mut healthy = true;
        // the chosen words the next signature starts with
        let mut given: Option<(i64, i64)> = None;
        for (i, st) in plan.steps.iter().enumerate() {
            cx.step = i;
            let s = st.u(0) % 3;
            match st.op.as_ref() {
                "obj" => {
                    let g = Group::of(ec, st.u(1));
                    let mut x = private_of(&g, 0, st.i(2));
                    if st.u(4) > 0 {
                        // the same key with one bit changed
                        let b = Bn::one().shl(st.u(4) - 1);
                        let v = if x.bit(st.u(4) - 1) { x.sub(&b) } else { x.add(&b) };
                        if v.is_zero() || v >= g.order() {
                            continue;
                        }
                        x = v;
                    }
                    let y = g.public(&x);
                    let hash = st.u(3) % NHASH;
                    match cx.lib("constructor", || g.object(&x, &y, true, hash, rng.clone()))? {
                        Ok(obj) => objs[s] = Some(K { obj, g, x, y, hash, which: st.i(2) * 1000 + st.i(4) }),
                        Err(_) => return cx.fail("refused", "key refused"),
                    }
                }
                "rng" => {
                    rng.disarm();
                    arm(&rng, st.u(0), st.u(1), st.u(2).min(400));
                    healthy = false;
                }
                "rewind" => {
                    // restart from a snapshot: every object sees the source from its beginning again
                    rng.report(cx);
                    rng = SimRng::new(seed);
                    cx.fault("source_rewound_to_start");
                    healthy = false;
                    for o in objs.iter_mut().flatten() {
                        if let Ok(n) = o.g.object(&o.x, &o.y, true, o.hash, rng.clone()) {
                            o.obj = n;
                        }
                    }
                }
                "words" => {
                    // chosen source words; those of two steps differ in one bit, or two, or not at all
                    let b = payload(st.i(0) * 16 + 15, 32);
                    let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect();
                    if st.u(1) > 0 {
                        w[(st.u(1) - 1) / 32 % 3] ^= 1 << ((st.u(1) - 1) % 32);
                    }
                    rng.disarm();
                    rng.script(&w);
                    given = Some((st.i(0), st.i(1)));
                    healthy = false;
                }
                "sign" => {
                    if let Some(k) = objs[s].as_mut() {
                        let mut msg = payload(st.i(1) * 16 + 15, 9 + st.u(1) % 5);
                        if k.hash == ECHO {
                            let mut e = Bn::from_be(&payload(st.i(1) * 16 + 31, ECHO_LEN)).rem(&Bn::one().shl(k.g.order().bits()));
                            if st.u(2) > 0 {
                                let b = Bn::one().shl(st.u(2) - 1);
                                e = if e.bit(st.u(2) - 1) { e.sub(&b) } else { e.add(&b) };
                            }
                            msg = echo_msg(&e, &k.g.order(), st.i(1));
                        }
                        let mut fed = given.take();
                        let mut out = SignatureContent::new();
                        rng.budget(20_000);
                        let (w0, e0) = rng.count();
                        cx.sched(s, "sign");
                        let res = cx.lib("sign", || k.obj.sig(&mut out, &msg))?;
                        let errs = rng.count().1 - e0;
                        if res.is_err() {
                            cx.require(errs > 0, "refused", || format!("{}: signing failed although the source delivered", k.g.name()))?;
                            continue;
                        }
                        // only if the signature took its entropy from the chosen words, the changed one among them
                        if fed.is_some() {
                            if !(3..=8).contains(&(rng.count().0 - w0)) {
                                fed = None;
                            }
                            rng.disarm();
                        }
                        let (r, sv) = out.to_bigint();
                        let (r, sv) = match (from_big(&r), from_big(&sv)) {
                            (Some(r), Some(s)) => (r, s),
                            _ => return cx.fail("no-number", "signature components are no numbers"),
                        };
                        cx.event("r", &r.to_be());
                        let n = k.g.order();
                        let hv = truncated(&ref_hash(k.hash, &msg), n.bits());
                        // the nonce, recovered with the private key
                        let nonce = match sv.inv(&n) {
                            Some(w) => w.mulmod(&hv.rem(&n).addmod(&r.mulmod(&k.x, &n), &n), &n),
                            None => return cx.fail("range", "second component has no inverse"),
                        };
                        cx.require(!nonce.is_zero() && k.g.first(&nonce) == r, "nonce-range", || format!("{}: the signature belongs to no nonce in [1, order-1]", k.g.name()))?;
                        let id = (k.g.math().1, k.which);
                        cx.state(&[k.g.math().1 as i64, k.hash as i64, hist.len() as i64, healthy as i64, (errs > 0) as i64, nonces.len() as i64]);
                        for (r0, id0, h0, ok0, fed0) in &hist {
                            let same_input = *id0 == id && *h0 == hv;
                            let bad = *r0 == r && ((ec && !same_input) || (healthy && *ok0) || (ec && fed.is_some() && fed0.is_some() && fed != *fed0));
                            let name = k.g.name();
                            cx.require(!bad, "nonce-reused", || format!("{}: two signatures share the first component (same key and hash: {}, source healthy: {})", name, same_input, healthy))?;
                        }
                        hist.push((r, id, hv, healthy, fed));
                        if healthy {
                            // the top bit is rare where the order is just above a power of two
                            bits = bits.min(n.bits() - !ec as usize);
                            spread.add("nonce", &nonce.to_be_len((n.bits() + 7) / 8).unwrap());
                            nonces.push(nonce);
                            if nonces.len() >= 6 {
                                let bits = nonces.iter().map(|x| x.bits()).max().unwrap();
                                cx.require(bits + 8 >= n.bits(), "nonce-spread", || format!("six nonces below 2^{} for an order of {} bits", bits, n.bits()))?;
                                let low: Vec<Bn> = nonces.iter().map(|x| x.rem(&Bn::one().shl(32))).collect();
                                cx.require(low.iter().any(|x| *x != low[0]), "nonce-spread", || "low words of all nonces are equal".into())?;
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        spread.check(cx, bits)?;
        rng.report(cx);
        Ok(())
    }
    fn rule(&self) -> &'static str {
        "evaluations = pairs of signatures of a history compared and nonces recovered with the private key; a state is (group, hash, signatures so far, source healthy, source failed, healthy nonces so far)"
    }
    fn real(&self) -> &'static [&'static str] {
        &["rcrypto ECDSA and its nonce generator", "rcrypto DSA", "rcrypto curve backends", "rmath integers"]
    }
    fn stubs(&self) -> &'static [&'static str] {
        &["random source (SimRng)"]
    }
    fn assumptions(&self) -> &'static [&'static str] {
        &["groups of at least 96 bits, so chance collisions do not occur", "hash values do not collide"]
    }
}
