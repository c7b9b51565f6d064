//! Small non-negative integers of any size, enough for the public key models.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Bn(pub Vec<u64>);

impl PartialOrd for Bn {
    fn partial_cmp(&self, o: &Bn) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Bn {
    fn cmp(&self, o: &Bn) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}

impl Bn {
    fn trim(mut self) -> Bn {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> Bn {
        Bn(vec![])
    }
    pub fn from_u64(x: u64) -> Bn {
        Bn(vec![x]).trim()
    }
    pub fn one() -> Bn {
        Bn::from_u64(1)
    }
    pub fn from_be(b: &[u8]) -> Bn {
        Bn(b.rchunks(8).map(|c| c.iter().fold(0u64, |a, &x| (a << 8) | x as u64)).collect()).trim()
    }
    pub fn from_hex(s: &str) -> Option<Bn> {
        let s: String = s.chars().filter(|c| !c.is_whitespace()).collect();
        let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s };
        let v: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
        Some(Bn::from_be(&v?))
    }
    pub fn show(&self) -> String {
        format!("0x{}", crate::engine::hex(&self.to_be()))
    }
    pub fn hex(s: &str) -> Bn {
        Bn::from_hex(s).unwrap()
    }
    /// minimal big-endian bytes, empty for zero
    pub fn to_be(&self) -> Vec<u8> {
        let v: Vec<u8> = self.0.iter().rev().flat_map(|x| x.to_be_bytes()).collect();
        let n = v.iter().position(|&b| b != 0).unwrap_or(v.len());
        v[n..].to_vec()
    }
    pub fn to_be_len(&self, n: usize) -> Option<Vec<u8>> {
        let v = self.to_be();
        if v.len() > n {
            return None;
        }
        let mut r = vec![0u8; n - v.len()];
        r.extend(v);
        Some(r)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_even(&self) -> bool {
        self.0.first().map_or(true, |x| x & 1 == 0)
    }
    pub fn bits(&self) -> usize {
        self.0.last().map_or(0, |x| self.0.len() * 64 - x.leading_zeros() as usize)
    }
    pub fn bit(&self, i: usize) -> bool {
        self.0.get(i / 64).map_or(false, |x| (x >> (i % 64)) & 1 == 1)
    }
    pub fn add(&self, o: &Bn) -> Bn {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            c += *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128;
            r.push(c as u64);
            c >>= 64;
        }
        r.push(c as u64);
        Bn(r).trim()
    }
    /// self >= o
    pub fn sub(&self, o: &Bn) -> Bn {
        assert!(self >= o);
        let mut r = Vec::with_capacity(self.0.len());
        let mut bor = false;
        for i in 0..self.0.len() {
            let (a, b1) = self.0[i].overflowing_sub(*o.0.get(i).unwrap_or(&0));
            let (a, b2) = a.overflowing_sub(bor as u64);
            bor = b1 || b2;
            r.push(a);
        }
        Bn(r).trim()
    }
    pub fn mul(&self, o: &Bn) -> Bn {
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for i in 0..self.0.len() {
            let mut c = 0u128;
            for j in 0..o.0.len() {
                c += self.0[i] as u128 * o.0[j] as u128 + r[i + j] as u128;
                r[i + j] = c as u64;
                c >>= 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        Bn(r).trim()
    }
    pub fn shl(&self, n: usize) -> Bn {
        let mut r = vec![0u64; n / 64];
        let s = n % 64;
        let mut c = 0;
        for &x in &self.0 {
            r.push(if s == 0 { x } else { (x << s) | c });
            c = if s == 0 { 0 } else { x >> (64 - s) };
        }
        r.push(c);
        Bn(r).trim()
    }
    pub fn shr(&self, n: usize) -> Bn {
        let w = n / 64;
        let s = n % 64;
        let mut r = Vec::new();
        for i in w..self.0.len() {
            let hi = *self.0.get(i + 1).unwrap_or(&0);
            r.push(if s == 0 { self.0[i] } else { (self.0[i] >> s) | (hi << (64 - s)) });
        }
        Bn(r).trim()
    }
    /// schoolbook, one 32-bit digit at a time (Knuth D)
    pub fn divrem(&self, d: &Bn) -> (Bn, Bn) {
        assert!(!d.is_zero());
        if self < d {
            return (Bn::zero(), self.clone());
        }
        let to32 = |b: &Bn| -> Vec<u64> {
            let mut v: Vec<u64> = b.0.iter().flat_map(|x| [x & 0xffff_ffff, x >> 32]).collect();
            while v.last() == Some(&0) {
                v.pop();
            }
            v
        };
        let from32 = |v: &[u64]| Bn(v.chunks(2).map(|c| c[0] | (c.get(1).unwrap_or(&0) << 32)).collect()).trim();
        let top = (d.bits() + 31) / 32 * 32 - d.bits();
        let v = to32(&d.shl(top));
        let mut u = to32(&self.shl(top));
        u.push(0);
        let n = v.len();
        if n == 1 {
            let mut q = vec![0u64; u.len()];
            let mut r = 0u64;
            for i in (0..u.len()).rev() {
                let t = (r << 32) | u[i];
                q[i] = t / v[0];
                r = t % v[0];
            }
            return (from32(&q), from32(&[r]).shr(top));
        }
        let m = u.len() - n;
        let mut q = vec![0u64; m];
        for j in (0..m).rev() {
            let num = (u[j + n] << 32) | u[j + n - 1];
            let mut qh = (num / v[n - 1]).min(0xffff_ffff);
            let mut rh = num - qh * v[n - 1];
            while rh <= 0xffff_ffff && qh * v[n - 2] > ((rh << 32) | u[j + n - 2]) {
                qh -= 1;
                rh += v[n - 1];
            }
            let mut bor = 0i64;
            let mut c = 0u64;
            for i in 0..n {
                c += qh * v[i];
                let t = u[i + j] as i64 - (c & 0xffff_ffff) as i64 - bor;
                c >>= 32;
                u[i + j] = (t & 0xffff_ffff) as u64;
                bor = (t < 0) as i64;
            }
            let t = u[j + n] as i64 - c as i64 - bor;
            u[j + n] = (t & 0xffff_ffff) as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0;
                for i in 0..n {
                    c += u[i + j] + v[i];
                    u[i + j] = c & 0xffff_ffff;
                    c >>= 32;
                }
                u[j + n] = (u[j + n] + c) & 0xffff_ffff;
            }
            q[j] = qh;
        }
        (from32(&q), from32(&u[..n]).shr(top))
    }
    pub fn rem(&self, m: &Bn) -> Bn {
        self.divrem(m).1
    }
    pub fn div(&self, m: &Bn) -> Bn {
        self.divrem(m).0
    }
    pub fn gcd(&self, o: &Bn) -> Bn {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn mulmod(&self, o: &Bn, m: &Bn) -> Bn {
        self.mul(o).rem(m)
    }
    pub fn addmod(&self, o: &Bn, m: &Bn) -> Bn {
        self.add(o).rem(m)
    }
    pub fn submod(&self, o: &Bn, m: &Bn) -> Bn {
        self.rem(m).add(m).sub(&o.rem(m)).rem(m)
    }
    pub fn inv(&self, m: &Bn) -> Option<Bn> {
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Bn::zero(), Bn::one());
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = t0.submod(&q.mulmod(&t1, m), m);
            t0 = t1;
            t1 = t;
            r0 = r1;
            r1 = r;
        }
        if r0 == Bn::one() {
            Some(t0.rem(m))
        } else {
            None
        }
    }
    pub fn powmod(&self, e: &Bn, m: &Bn) -> Bn {
        if *m == Bn::one() {
            return Bn::zero();
        }
        if m.is_even() {
            let mut r = Bn::one();
            let b = self.rem(m);
            for i in (0..e.bits()).rev() {
                r = r.mulmod(&r, m);
                if e.bit(i) {
                    r = r.mulmod(&b, m);
                }
            }
            return r;
        }
        let mt = Mont::new(m);
        let b = mt.enter(self);
        let mut tab = vec![mt.enter(&Bn::one()), b.clone()];
        for i in 2..16 {
            tab.push(mt.mul(&tab[i - 1], &b));
        }
        let mut r = tab[0].clone();
        let nib = (e.bits() + 3) / 4;
        for i in (0..nib).rev() {
            for _ in 0..4 {
                r = mt.mul(&r, &r);
            }
            let d = (0..4).fold(0usize, |a, k| a | ((e.bit(4 * i + k) as usize) << k));
            if d != 0 {
                r = mt.mul(&r, &tab[d]);
            }
        }
        mt.leave(&r)
    }
    pub fn is_prime(&self) -> bool {
        const SMALL: [u64; 25] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97];
        if self.bits() < 2 {
            return false;
        }
        for p in SMALL {
            let p = Bn::from_u64(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let n1 = self.sub(&Bn::one());
        let mut s = 0;
        while !n1.bit(s) {
            s += 1;
        }
        let d = n1.shr(s);
        'w: for a in SMALL.iter().take(16) {
            let mut x = Bn::from_u64(*a).powmod(&d, self);
            if x == Bn::one() || x == n1 {
                continue;
            }
            for _ in 1..s {
                x = x.mulmod(&x, self);
                if x == n1 {
                    continue 'w;
                }
            }
            return false;
        }
        true
    }
}

/// Montgomery arithmetic for an odd modulus
pub struct Mont {
    pub n: Vec<u64>,
    n0: u64,
    r2: Vec<u64>,
}

impl Mont {
    pub fn new(m: &Bn) -> Mont {
        assert!(!m.is_even());
        let k = m.0.len();
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m.0[0].wrapping_mul(inv)));
        }
        let mut r2 = Bn::one().shl(128 * k).rem(m).0;
        r2.resize(k, 0);
        Mont { n: m.0.clone(), n0: inv.wrapping_neg(), r2 }
    }
    pub fn mul(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let k = self.n.len();
        let mut t = vec![0u64; k + 2];
        for i in 0..k {
            let mut c = 0u128;
            for j in 0..k {
                c += t[j] as u128 + a[i] as u128 * b[j] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[k] as u128;
            t[k] = c as u64;
            t[k + 1] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.n[0] as u128) >> 64;
            for j in 1..k {
                c += t[j] as u128 + m as u128 * self.n[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[k] as u128;
            t[k - 1] = c as u64;
            t[k] = t[k + 1] + (c >> 64) as u64;
        }
        let ge = t[k] != 0 || t[..k].iter().rev().cmp(self.n.iter().rev()) != Ordering::Less;
        t.truncate(k);
        if ge {
            self.sub_in(&mut t);
        }
        t
    }
    fn sub_in(&self, t: &mut [u64]) {
        let mut bor = false;
        for i in 0..t.len() {
            let (x, b1) = t[i].overflowing_sub(self.n[i]);
            let (x, b2) = x.overflowing_sub(bor as u64);
            t[i] = x;
            bor = b1 || b2;
        }
    }
    pub fn add(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        let mut r = Vec::with_capacity(a.len());
        let mut c = 0u128;
        for i in 0..a.len() {
            c += a[i] as u128 + b[i] as u128;
            r.push(c as u64);
            c >>= 64;
        }
        if c != 0 || r.iter().rev().cmp(self.n.iter().rev()) != Ordering::Less {
            self.sub_in(&mut r);
        }
        r
    }
    pub fn sub(&self, a: &[u64], b: &[u64]) -> Vec<u64> {
        // a + (n - b)
        let mut nb = self.n.clone();
        let mut bor = false;
        for i in 0..nb.len() {
            let (x, b1) = nb[i].overflowing_sub(b[i]);
            let (x, b2) = x.overflowing_sub(bor as u64);
            nb[i] = x;
            bor = b1 || b2;
        }
        self.add(a, &nb)
    }
    pub fn enter(&self, a: &Bn) -> Vec<u64> {
        let mut v = a.rem(&Bn(self.n.clone())).0;
        v.resize(self.n.len(), 0);
        self.mul(&v, &self.r2)
    }
    pub fn leave(&self, a: &[u64]) -> Bn {
        let mut one = vec![0; self.n.len()];
        one[0] = 1;
        Bn(self.mul(a, &one)).trim()
    }
}
