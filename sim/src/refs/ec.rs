//! Short Weierstrass curves y^2 = x^3 - 3x + b over prime fields (FIPS 186-4), ECDSA and DSA.
use super::bn::{Bn, Mont};

pub struct Curve {
    pub name: &'static str,
    pub p: Bn,
    pub n: Bn,
    pub b: Bn,
    pub gx: Bn,
    pub gy: Bn,
    m: Mont,
}

pub type Pt = Option<(Bn, Bn)>;

impl Curve {
    fn make(name: &'static str, p: &str, n: &str, b: &str, gx: &str, gy: &str) -> Curve {
        let p = Bn::hex(p);
        Curve { name, m: Mont::new(&p), p, n: Bn::hex(n), b: Bn::hex(b), gx: Bn::hex(gx), gy: Bn::hex(gy) }
    }
    pub fn get(i: usize) -> &'static Curve {
        use std::sync::OnceLock;
        static C: OnceLock<Vec<Curve>> = OnceLock::new();
        &C.get_or_init(|| vec![
            Curve::make("P-224",
                "ffffffffffffffffffffffffffffffff000000000000000000000001",
                "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d",
                "00b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
                "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
                "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34"),
            Curve::make("P-256",
                "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
                "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
                "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
                "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
                "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            Curve::make("P-384",
                "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
                "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
                "00b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
                "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
                "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
            Curve::make("P-521",
                "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
                "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
                "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
                "00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
                "011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
        ])[i]
    }

    pub fn on_curve(&self, pt: &Pt) -> bool {
        match pt {
            None => false,
            Some((x, y)) => {
                if x >= &self.p || y >= &self.p {
                    return false;
                }
                let x3 = x.mulmod(x, &self.p).mulmod(x, &self.p);
                let r = x3.addmod(&self.b, &self.p).submod(&x.mulmod(&Bn::from_u64(3), &self.p), &self.p);
                y.mulmod(y, &self.p) == r
            }
        }
    }

    /// Jacobian double-and-add
    pub fn mul(&self, k: &Bn, pt: &Pt) -> Pt {
        let (x, y) = pt.as_ref()?;
        let m = &self.m;
        let one = m.enter(&Bn::one());
        let (px, py) = (m.enter(x), m.enter(y));
        let zero = vec![0u64; px.len()];
        let mut r: Option<[Vec<u64>; 3]> = None;
        for i in (0..k.bits()).rev() {
            r = r.and_then(|v| self.dbl(v, &zero));
            if k.bit(i) {
                r = self.addj(r, &[px.clone(), py.clone(), one.clone()], &zero);
            }
        }
        self.affine(r)
    }

    fn affine(&self, r: Option<[Vec<u64>; 3]>) -> Pt {
        let [x, y, z] = r?;
        let m = &self.m;
        let zi = m.leave(&z).inv(&self.p)?;
        let zi2 = zi.mulmod(&zi, &self.p);
        let zi3 = zi2.mulmod(&zi, &self.p);
        Some((m.leave(&x).mulmod(&zi2, &self.p), m.leave(&y).mulmod(&zi3, &self.p)))
    }

    fn dbl(&self, [x, y, z]: [Vec<u64>; 3], zero: &[u64]) -> Option<[Vec<u64>; 3]> {
        let m = &self.m;
        if y == zero {
            return None;
        }
        let yy = m.mul(&y, &y);
        let s = m.mul(&x, &yy);
        let s2 = m.add(&s, &s);
        let s4 = m.add(&s2, &s2);
        let zz = m.mul(&z, &z);
        let t = m.mul(&m.sub(&x, &zz), &m.add(&x, &zz));
        let mm = m.add(&m.add(&t, &t), &t);
        let x3 = m.sub(&m.mul(&mm, &mm), &m.add(&s4, &s4));
        let y4 = m.mul(&yy, &yy);
        let y8 = {
            let a = m.add(&y4, &y4);
            let b = m.add(&a, &a);
            m.add(&b, &b)
        };
        let y3 = m.sub(&m.mul(&mm, &m.sub(&s4, &x3)), &y8);
        let yz = m.mul(&y, &z);
        Some([x3, y3, m.add(&yz, &yz)])
    }

    fn addj(&self, a: Option<[Vec<u64>; 3]>, b: &[Vec<u64>; 3], zero: &[u64]) -> Option<[Vec<u64>; 3]> {
        let Some(a) = a else { return Some(b.clone()) };
        let m = &self.m;
        let (z1, z2) = (m.mul(&a[2], &a[2]), m.mul(&b[2], &b[2]));
        let (u1, u2) = (m.mul(&a[0], &z2), m.mul(&b[0], &z1));
        let s1 = m.mul(&a[1], &m.mul(&z2, &b[2]));
        let s2 = m.mul(&b[1], &m.mul(&z1, &a[2]));
        let h = m.sub(&u2, &u1);
        let r = m.sub(&s2, &s1);
        if h == zero {
            return if r == zero { self.dbl(a, zero) } else { None };
        }
        let hh = m.mul(&h, &h);
        let hhh = m.mul(&hh, &h);
        let v = m.mul(&u1, &hh);
        let x3 = m.sub(&m.sub(&m.mul(&r, &r), &hhh), &m.add(&v, &v));
        let y3 = m.sub(&m.mul(&r, &m.sub(&v, &x3)), &m.mul(&s1, &hhh));
        let z3 = m.mul(&m.mul(&a[2], &b[2]), &h);
        Some([x3, y3, z3])
    }

    pub fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let m = &self.m;
        let j = |p: &Pt| p.as_ref().map(|(x, y)| [m.enter(x), m.enter(y), m.enter(&Bn::one())]);
        let zero = vec![0u64; m.n.len()];
        match (j(a), j(b)) {
            (x, None) => self.affine(x),
            (x, Some(y)) => self.affine(self.addj(x, &y, &zero)),
        }
    }

    /// a cheap sufficient test for s = a + b: -s lies on the curve and on the line through a and b, and is neither of them
    pub fn is_sum(&self, a: &Pt, b: &Pt, s: &Pt) -> bool {
        let p = &self.p;
        match (a, b, s) {
            (Some(a), Some(b), Some(c)) => {
                let dx = b.0.submod(&a.0, p);
                !dx.is_zero() && c.0 != a.0 && c.0 != b.0 && self.on_curve(s)
                    && a.1.addmod(&c.1, p).mulmod(&dx, p) == b.1.submod(&a.1, p).mulmod(&a.0.submod(&c.0, p), p)
            }
            _ => false,
        }
    }

    /// a square root modulo the field prime (Tonelli-Shanks)
    pub fn sqrt(&self, a: &Bn) -> Option<Bn> {
        let (p, one) = (&self.p, Bn::one());
        let pm1 = p.sub(&one);
        if a.is_zero() {
            return Some(Bn::zero());
        }
        if a.powmod(&pm1.shr(1), p) != one {
            return None;
        }
        let s = (0..).find(|&i| pm1.bit(i)).unwrap();
        let q = pm1.shr(s);
        let z = (2..).map(Bn::from_u64).find(|z| z.powmod(&pm1.shr(1), p) == pm1).unwrap();
        let k = &self.m;
        let (mut c, mut t, mut r, mut m) = (k.enter(&z.powmod(&q, p)), k.enter(&a.powmod(&q, p)), k.enter(&a.powmod(&q.add(&one).shr(1), p)), s);
        let one = k.enter(&one);
        while t != one {
            let mut u = t.clone();
            let mut i = 0;
            while u != one {
                u = k.mul(&u, &u);
                i += 1;
            }
            for _ in 0..m - i - 1 {
                c = k.mul(&c, &c);
            }
            r = k.mul(&r, &c);
            c = k.mul(&c, &c);
            t = k.mul(&t, &c);
            m = i;
        }
        Some(k.leave(&r))
    }

    /// a point with this x coordinate, if there is one
    pub fn with_x(&self, x: &Bn) -> Pt {
        Some((x.clone(), self.sqrt(&self.rhs(x))?))
    }

    /// x^3 - 3x + b
    pub fn rhs(&self, x: &Bn) -> Bn {
        let p = &self.p;
        x.mulmod(x, p).mulmod(x, p).addmod(&self.b, p).submod(&x.mulmod(&Bn::from_u64(3), p), p)
    }

    /// a point with this y coordinate, if one is found: a root of x^3 - 3x + (b - y^2)
    pub fn with_y(&self, y: &Bn) -> Pt {
        let p = &self.p;
        let three = Bn::from_u64(3);
        let c = self.b.submod(&y.mulmod(y, p), p);
        // the greatest common divisor with X^p - X splits into the wanted linear factors
        let k = &self.m;
        let (c0, zero) = (k.enter(&c), vec![0u64; k.n.len()]);
        let mul = |a: &[Vec<u64>], b: &[Vec<u64>]| -> Vec<Vec<u64>> {
            let mut r = vec![zero.clone(); 5];
            for i in 0..3 {
                for j in 0..3 {
                    r[i + j] = k.add(&r[i + j], &k.mul(&a[i], &b[j]));
                }
            }
            for d in [4, 3] {
                let t = r[d].clone();
                r[d - 2] = k.add(&r[d - 2], &k.add(&t, &k.add(&t, &t)));
                r[d - 3] = k.sub(&r[d - 3], &k.mul(&t, &c0));
            }
            r.truncate(3);
            r
        };
        let one = k.enter(&Bn::one());
        let mut acc = vec![one.clone(), zero.clone(), zero.clone()];
        let x = vec![zero.clone(), one, zero.clone()];
        for i in (0..p.bits()).rev() {
            acc = mul(&acc, &acc);
            if p.bit(i) {
                acc = mul(&acc, &x);
            }
        }
        let mut acc: Vec<Bn> = acc.iter().map(|v| k.leave(v)).collect();
        acc[1] = acc[1].submod(&Bn::one(), p);
        let trim = |a: &mut Vec<Bn>| {
            while a.last().map_or(false, |v| v.is_zero()) {
                a.pop();
            }
        };
        trim(&mut acc);
        let (mut a, mut b) = (vec![c.clone(), p.sub(&three), Bn::zero(), Bn::one()], acc);
        while !b.is_empty() {
            let li = b.last().unwrap().inv(p)?;
            while a.len() >= b.len() {
                let q = a.last().unwrap().mulmod(&li, p);
                let off = a.len() - b.len();
                for i in 0..b.len() {
                    a[off + i] = a[off + i].submod(&q.mulmod(&b[i], p), p);
                }
                trim(&mut a);
            }
            std::mem::swap(&mut a, &mut b);
        }
        let li = a.last()?.inv(p)?;
        let root = match a.len() {
            2 => Bn::zero().submod(&a[0].mulmod(&li, p), p),
            3 => {
                let (h, k) = (a[1].mulmod(&li, p), a[0].mulmod(&li, p));
                let d = self.sqrt(&h.mulmod(&h, p).submod(&k.mulmod(&Bn::from_u64(4), p), p))?;
                d.submod(&h, p).mulmod(&Bn::from_u64(2).inv(p)?, p)
            }
            _ => return None,
        };
        let r = Some((root, y.clone()));
        if self.on_curve(&r) { r } else { None }
    }

    pub fn base(&self, k: &Bn) -> Pt {
        self.mul(k, &Some((self.gx.clone(), self.gy.clone())))
    }

    pub fn ecdsa_verify(&self, q: &Pt, hash: &[u8], r: &Bn, s: &Bn) -> bool {
        if !self.on_curve(q) || r.is_zero() || s.is_zero() || r >= &self.n || s >= &self.n {
            return false;
        }
        let e = truncated(hash, self.n.bits());
        let w = s.inv(&self.n).unwrap();
        let u1 = e.mulmod(&w, &self.n);
        let u2 = r.mulmod(&w, &self.n);
        match self.add(&self.base(&u1), &self.mul(&u2, q)) {
            None => false,
            Some((x, _)) => x.rem(&self.n) == *r,
        }
    }
}

/// leftmost min(bits, 8*len) bits of the hash
pub fn truncated(hash: &[u8], bits: usize) -> Bn {
    let h = Bn::from_be(hash);
    if hash.len() * 8 > bits {
        h.shr(hash.len() * 8 - bits)
    } else {
        h
    }
}

#[derive(Clone)]
pub struct Dsa {
    pub p: Bn,
    pub q: Bn,
    pub g: Bn,
}

impl Dsa {
    pub fn verify(&self, y: &Bn, hash: &[u8], r: &Bn, s: &Bn) -> bool {
        if r.is_zero() || s.is_zero() || r >= &self.q || s >= &self.q {
            return false;
        }
        let z = truncated(hash, self.q.bits());
        let w = s.inv(&self.q).unwrap();
        let v = self.g.powmod(&z.mulmod(&w, &self.q), &self.p).mulmod(&y.powmod(&r.mulmod(&w, &self.q), &self.p), &self.p).rem(&self.q);
        v == *r
    }
}
