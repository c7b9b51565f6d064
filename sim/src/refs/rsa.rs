//! RSA primitives and PKCS #1 v2.2 encodings.
use super::bn::Bn;

pub type H<'a> = &'a dyn Fn(&[u8]) -> Vec<u8>;

pub fn mgf1(h: H, seed: &[u8], n: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut c = 0u32;
    while out.len() < n {
        let mut s = seed.to_vec();
        s.extend_from_slice(&c.to_be_bytes());
        out.extend(h(&s));
        c += 1;
    }
    out.truncate(n);
    out
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// the message of an EME-PKCS1-v1_5 block, None if it is not one
pub fn eme_pkcs1_decode(em: &[u8]) -> Option<Vec<u8>> {
    if em.len() < 11 || em[0] != 0 || em[1] != 2 {
        return None;
    }
    let z = em[2..].iter().position(|&b| b == 0)?;
    if z < 8 {
        return None;
    }
    Some(em[z + 3..].to_vec())
}

pub fn eme_pkcs1_encode(k: usize, ps: &[u8], msg: &[u8]) -> Vec<u8> {
    let mut em = vec![0, 2];
    em.extend_from_slice(ps);
    em.push(0);
    em.extend_from_slice(msg);
    assert_eq!(em.len(), k);
    em
}

pub fn oaep_encode(h: H, k: usize, label: &[u8], seed: &[u8], msg: &[u8]) -> Vec<u8> {
    let lh = h(label);
    let hl = lh.len();
    let mut db = lh;
    db.resize(k - hl - 1 - msg.len() - 1, 0);
    db.push(1);
    db.extend_from_slice(msg);
    let mdb = xor(&db, &mgf1(h, seed, db.len()));
    let mseed = xor(seed, &mgf1(h, &mdb, hl));
    let mut em = vec![0];
    em.extend(mseed);
    em.extend(mdb);
    assert_eq!(em.len(), k);
    em
}

/// (seed, message)
pub fn oaep_decode(h: H, label: &[u8], em: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let lh = h(label);
    let hl = lh.len();
    if em.len() < 2 * hl + 2 || em[0] != 0 {
        return None;
    }
    let seed = xor(&em[1..1 + hl], &mgf1(h, &em[1 + hl..], hl));
    let db = xor(&em[1 + hl..], &mgf1(h, &seed, em.len() - hl - 1));
    if db[..hl] != lh[..] {
        return None;
    }
    let one = db[hl..].iter().position(|&b| b != 0)?;
    if db[hl + one] != 1 {
        return None;
    }
    Some((seed, db[hl + one + 1..].to_vec()))
}

pub fn digest_info(alg: &str) -> Option<Vec<u8>> {
    // OIDs, DER encoded by hand
    let (oid, n): (&[u8], usize) = match alg {
        "md5" => (&[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05], 16),
        "sha1" => (&[0x2b, 0x0e, 0x03, 0x02, 0x1a], 20),
        "sha224" => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x04], 28),
        "sha256" => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01], 32),
        "sha384" => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x02], 48),
        "sha512" => (&[0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03], 64),
        _ => return None,
    };
    let mut ai = vec![6, oid.len() as u8];
    ai.extend_from_slice(oid);
    ai.extend_from_slice(&[5, 0]);
    let mut seq = vec![0x30, ai.len() as u8];
    seq.extend(ai);
    seq.extend_from_slice(&[4, n as u8]);
    let mut out = vec![0x30, (seq.len() + n) as u8];
    out.extend(seq);
    Some(out)
}

pub fn emsa_pkcs1(k: usize, alg: &str, hash: &[u8]) -> Option<Vec<u8>> {
    let mut t = digest_info(alg)?;
    t.extend_from_slice(hash);
    if k < t.len() + 11 {
        return None;
    }
    let mut em = vec![0, 1];
    em.resize(k - t.len() - 1, 0xff);
    em.push(0);
    em.extend(t);
    Some(em)
}

/// the salt of a valid EMSA-PSS encoding
pub fn pss_salt(h: H, m_hash: &[u8], em: &[u8], em_bits: usize, slen: usize) -> Option<Vec<u8>> {
    let hl = m_hash.len();
    let el = (em_bits + 7) / 8;
    if em.len() != el || el < hl + slen + 2 || em[el - 1] != 0xbc {
        return None;
    }
    let db_len = el - hl - 1;
    let hh = &em[db_len..el - 1];
    let extra = 8 * el - em_bits;
    if extra > 0 && em[0] >> (8 - extra) != 0 {
        return None;
    }
    let mut db = xor(&em[..db_len], &mgf1(h, hh, db_len));
    db[0] &= 0xff >> extra;
    let z = db_len - slen - 1;
    if db[..z].iter().any(|&b| b != 0) || db[z] != 1 {
        return None;
    }
    let salt = db[z + 1..].to_vec();
    let mut m = vec![0u8; 8];
    m.extend_from_slice(m_hash);
    m.extend_from_slice(&salt);
    if h(&m) == hh {
        Some(salt)
    } else {
        None
    }
}

pub fn pss_encode(h: H, m_hash: &[u8], em_bits: usize, salt: &[u8]) -> Vec<u8> {
    let hl = m_hash.len();
    let el = (em_bits + 7) / 8;
    let mut m = vec![0u8; 8];
    m.extend_from_slice(m_hash);
    m.extend_from_slice(salt);
    let hh = h(&m);
    let db_len = el - hl - 1;
    let mut db = vec![0u8; db_len - salt.len() - 1];
    db.push(1);
    db.extend_from_slice(salt);
    let mut em = xor(&db, &mgf1(h, &hh, db_len));
    em[0] &= 0xff >> (8 * el - em_bits);
    em.extend(hh);
    em.push(0xbc);
    em
}

/// prime factors of n from a private exponent; None when d does not invert e
pub fn factor(n: &Bn, e: &Bn, d: &Bn) -> Option<Vec<Bn>> {
    let one = Bn::one();
    let k = e.mul(d).sub(&one);
    if k.is_zero() || !k.is_even() {
        return None;
    }
    let mut s = 0;
    while !k.bit(s) {
        s += 1;
    }
    let t = k.shr(s);
    let mut parts = vec![n.clone()];
    for g in 2..60u64 {
        let g = Bn::from_u64(g);
        let mut next = Vec::new();
        for f in &parts {
            if f.is_prime() {
                next.push(f.clone());
                continue;
            }
            let mut x = g.powmod(&t, f);
            let mut split = None;
            for _ in 0..s {
                let y = x.mulmod(&x, f);
                if y == one && x != one && x != f.sub(&one) {
                    let c = x.sub(&one).gcd(f);
                    if c != one && c != *f {
                        split = Some(c);
                        break;
                    }
                }
                x = y;
            }
            match split {
                Some(c) => {
                    next.push(f.div(&c));
                    next.push(c);
                }
                None => next.push(f.clone()),
            }
        }
        parts = next;
        if parts.iter().all(|p| p.is_prime()) {
            break;
        }
    }
    parts.sort();
    Some(parts)
}
