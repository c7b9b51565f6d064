//! ECB, CBC, CFB, OFB and CTR (SP 800-38A) over any reference block cipher.
use super::block::BlockRef;

pub fn pad(data: &[u8], bs: usize) -> Vec<u8> {
    let mut v = data.to_vec();
    v.push(0x80);
    while v.len() % bs != 0 {
        v.push(0);
    }
    v
}

/// strict: a run of zero bytes preceded by 0x80
pub fn unpad(data: &[u8]) -> Option<Vec<u8>> {
    let n = data.iter().rposition(|&b| b != 0)?;
    if data[n] == 0x80 {
        Some(data[..n].to_vec())
    } else {
        None
    }
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

pub fn ecb_enc<B: BlockRef>(c: &B, p: &[u8]) -> Vec<u8> {
    p.chunks(c.bs()).flat_map(|b| c.enc(b)).collect()
}
pub fn ecb_dec<B: BlockRef>(c: &B, p: &[u8]) -> Vec<u8> {
    p.chunks(c.bs()).flat_map(|b| c.dec(b)).collect()
}

pub fn cbc_enc<B: BlockRef>(c: &B, iv: &[u8], p: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = Vec::new();
    for b in p.chunks(c.bs()) {
        prev = c.enc(&xor(b, &prev));
        out.extend_from_slice(&prev);
    }
    out
}
pub fn cbc_dec<B: BlockRef>(c: &B, iv: &[u8], p: &[u8]) -> Vec<u8> {
    let mut prev = iv.to_vec();
    let mut out = Vec::new();
    for b in p.chunks(c.bs()) {
        out.extend(xor(&c.dec(b), &prev));
        prev = b.to_vec();
    }
    out
}

/// `p` is a whole number of segments of `s` bytes
pub fn cfb<B: BlockRef>(c: &B, iv: &[u8], s: usize, p: &[u8], enc: bool) -> Vec<u8> {
    let mut reg = iv.to_vec();
    let mut out = Vec::new();
    for b in p.chunks(s) {
        assert_eq!(b.len(), s);
        let o = xor(&c.enc(&reg), b);
        reg.drain(..s);
        reg.extend_from_slice(if enc { &o } else { b });
        out.extend(o);
    }
    out
}

/// padded CFB plaintext: whole segments, then the rest padded to one cipher block
pub fn cfb_pad(data: &[u8], s: usize, bs: usize) -> Vec<u8> {
    let full = data.len() / s * s;
    let mut v = data[..full].to_vec();
    v.extend(pad(&data[full..], bs));
    v
}

pub fn ofb_stream<B: BlockRef>(c: &B, iv: &[u8], n: usize) -> Vec<u8> {
    let mut o = iv.to_vec();
    let mut out = Vec::new();
    while out.len() < n {
        o = c.enc(&o);
        out.extend_from_slice(&o);
    }
    out.truncate(n);
    out
}

/// counter value as a big-endian number of `ctr.len()` bytes plus k, lowest `bs` bytes
pub fn ctr_block(ctr: &[u8], k: u64, bs: usize) -> Vec<u8> {
    let mut v = ctr.to_vec();
    let mut carry = k as u128;
    for b in v.iter_mut().rev() {
        carry += *b as u128;
        *b = carry as u8;
        carry >>= 8;
    }
    v[v.len() - bs..].to_vec()
}

pub fn xor_bytes(a: &[u8], b: &[u8]) -> Vec<u8> {
    assert_eq!(a.len(), b.len());
    xor(a, b)
}
