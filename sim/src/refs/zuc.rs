//! ZUC key stream, 128-EEA3 and 128-EIA3 (GM/T 0001, ETSI/SAGE).

const S0: [u8; 256] = [
    0x3e,0x72,0x5b,0x47,0xca,0xe0,0x00,0x33,0x04,0xd1,0x54,0x98,0x09,0xb9,0x6d,0xcb,
    0x7b,0x1b,0xf9,0x32,0xaf,0x9d,0x6a,0xa5,0xb8,0x2d,0xfc,0x1d,0x08,0x53,0x03,0x90,
    0x4d,0x4e,0x84,0x99,0xe4,0xce,0xd9,0x91,0xdd,0xb6,0x85,0x48,0x8b,0x29,0x6e,0xac,
    0xcd,0xc1,0xf8,0x1e,0x73,0x43,0x69,0xc6,0xb5,0xbd,0xfd,0x39,0x63,0x20,0xd4,0x38,
    0x76,0x7d,0xb2,0xa7,0xcf,0xed,0x57,0xc5,0xf3,0x2c,0xbb,0x14,0x21,0x06,0x55,0x9b,
    0xe3,0xef,0x5e,0x31,0x4f,0x7f,0x5a,0xa4,0x0d,0x82,0x51,0x49,0x5f,0xba,0x58,0x1c,
    0x4a,0x16,0xd5,0x17,0xa8,0x92,0x24,0x1f,0x8c,0xff,0xd8,0xae,0x2e,0x01,0xd3,0xad,
    0x3b,0x4b,0xda,0x46,0xeb,0xc9,0xde,0x9a,0x8f,0x87,0xd7,0x3a,0x80,0x6f,0x2f,0xc8,
    0xb1,0xb4,0x37,0xf7,0x0a,0x22,0x13,0x28,0x7c,0xcc,0x3c,0x89,0xc7,0xc3,0x96,0x56,
    0x07,0xbf,0x7e,0xf0,0x0b,0x2b,0x97,0x52,0x35,0x41,0x79,0x61,0xa6,0x4c,0x10,0xfe,
    0xbc,0x26,0x95,0x88,0x8a,0xb0,0xa3,0xfb,0xc0,0x18,0x94,0xf2,0xe1,0xe5,0xe9,0x5d,
    0xd0,0xdc,0x11,0x66,0x64,0x5c,0xec,0x59,0x42,0x75,0x12,0xf5,0x74,0x9c,0xaa,0x23,
    0x0e,0x86,0xab,0xbe,0x2a,0x02,0xe7,0x67,0xe6,0x44,0xa2,0x6c,0xc2,0x93,0x9f,0xf1,
    0xf6,0xfa,0x36,0xd2,0x50,0x68,0x9e,0x62,0x71,0x15,0x3d,0xd6,0x40,0xc4,0xe2,0x0f,
    0x8e,0x83,0x77,0x6b,0x25,0x05,0x3f,0x0c,0x30,0xea,0x70,0xb7,0xa1,0xe8,0xa9,0x65,
    0x8d,0x27,0x1a,0xdb,0x81,0xb3,0xa0,0xf4,0x45,0x7a,0x19,0xdf,0xee,0x78,0x34,0x60,
];
const S1: [u8; 256] = [
    0x55,0xc2,0x63,0x71,0x3b,0xc8,0x47,0x86,0x9f,0x3c,0xda,0x5b,0x29,0xaa,0xfd,0x77,
    0x8c,0xc5,0x94,0x0c,0xa6,0x1a,0x13,0x00,0xe3,0xa8,0x16,0x72,0x40,0xf9,0xf8,0x42,
    0x44,0x26,0x68,0x96,0x81,0xd9,0x45,0x3e,0x10,0x76,0xc6,0xa7,0x8b,0x39,0x43,0xe1,
    0x3a,0xb5,0x56,0x2a,0xc0,0x6d,0xb3,0x05,0x22,0x66,0xbf,0xdc,0x0b,0xfa,0x62,0x48,
    0xdd,0x20,0x11,0x06,0x36,0xc9,0xc1,0xcf,0xf6,0x27,0x52,0xbb,0x69,0xf5,0xd4,0x87,
    0x7f,0x84,0x4c,0xd2,0x9c,0x57,0xa4,0xbc,0x4f,0x9a,0xdf,0xfe,0xd6,0x8d,0x7a,0xeb,
    0x2b,0x53,0xd8,0x5c,0xa1,0x14,0x17,0xfb,0x23,0xd5,0x7d,0x30,0x67,0x73,0x08,0x09,
    0xee,0xb7,0x70,0x3f,0x61,0xb2,0x19,0x8e,0x4e,0xe5,0x4b,0x93,0x8f,0x5d,0xdb,0xa9,
    0xad,0xf1,0xae,0x2e,0xcb,0x0d,0xfc,0xf4,0x2d,0x46,0x6e,0x1d,0x97,0xe8,0xd1,0xe9,
    0x4d,0x37,0xa5,0x75,0x5e,0x83,0x9e,0xab,0x82,0x9d,0xb9,0x1c,0xe0,0xcd,0x49,0x89,
    0x01,0xb6,0xbd,0x58,0x24,0xa2,0x5f,0x38,0x78,0x99,0x15,0x90,0x50,0xb8,0x95,0xe4,
    0xd0,0x91,0xc7,0xce,0xed,0x0f,0xb4,0x6f,0xa0,0xcc,0xf0,0x02,0x4a,0x79,0xc3,0xde,
    0xa3,0xef,0xea,0x51,0xe6,0x6b,0x18,0xec,0x1b,0x2c,0x80,0xf7,0x74,0xe7,0xff,0x21,
    0x5a,0x6a,0x54,0x1e,0x41,0x31,0x92,0x35,0xc4,0x33,0x07,0x0a,0xba,0x7e,0x0e,0x34,
    0x88,0xb1,0x98,0x7c,0xf3,0x3d,0x60,0x6c,0x7b,0xca,0xd3,0x1f,0x32,0x65,0x04,0x28,
    0x64,0xbe,0x85,0x9b,0x2f,0x59,0x8a,0xd7,0xb0,0x25,0xac,0xaf,0x12,0x03,0xe2,0xf2,

];
const D: [u32; 16] = [
    0x44d7, 0x26bc, 0x626b, 0x135e, 0x5789, 0x35e2, 0x7135, 0x09af, 0x4d78, 0x2f13, 0x6bc4, 0x1af1, 0x5e26, 0x3c4d, 0x789a, 0x47ac,
];
const M31: u64 = 0x7fff_ffff;

pub fn keystream(key: &[u8], iv: &[u8], words: usize) -> Vec<u32> {
    let mut s: Vec<u64> = (0..16).map(|i| ((key[i] as u64) << 23) | ((D[i] as u64) << 8) | iv[i] as u64).collect();
    let (mut r1, mut r2) = (0u32, 0u32);
    let mut out = Vec::with_capacity(words);
    for step in 0..33 + words {
        let hi = |x: u64| (x >> 15) as u32;
        let lo = |x: u64| (x & 0xffff) as u32;
        let x0 = (hi(s[15]) << 16) | lo(s[14]);
        let x1 = (lo(s[11]) << 16) | hi(s[9]);
        let x2 = (lo(s[7]) << 16) | hi(s[5]);
        let x3 = (lo(s[2]) << 16) | hi(s[0]);
        let w = (x0 ^ r1).wrapping_add(r2);
        let w1 = r1.wrapping_add(x1);
        let w2 = r2 ^ x2;
        let u = (w1 << 16) | (w2 >> 16);
        let v = (w2 << 16) | (w1 >> 16);
        let l1 = u ^ u.rotate_left(2) ^ u.rotate_left(10) ^ u.rotate_left(18) ^ u.rotate_left(24);
        let l2 = v ^ v.rotate_left(8) ^ v.rotate_left(14) ^ v.rotate_left(22) ^ v.rotate_left(30);
        let sb = |x: u32| {
            let b = x.to_be_bytes();
            u32::from_be_bytes([S0[b[0] as usize], S1[b[1] as usize], S0[b[2] as usize], S1[b[3] as usize]])
        };
        r1 = sb(l1);
        r2 = sb(l2);
        if step > 32 {
            out.push(w ^ x3);
        }
        // 2^15 s15 + 2^17 s13 + 2^21 s10 + 2^20 s4 + (1 + 2^8) s0 mod 2^31 - 1
        let mut t = (s[15] << 15) % M31 + (s[13] << 17) % M31 + (s[10] << 21) % M31 + (s[4] << 20) % M31 + (s[0] * 257) % M31;
        if step < 32 {
            t += (w >> 1) as u64;
        }
        t %= M31;
        if t == 0 {
            t = M31;
        }
        s.remove(0);
        s.push(t);
    }
    out
}

pub fn eea3_iv(count: u32, bearer: u8, dir: bool) -> [u8; 16] {
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&count.to_be_bytes());
    iv[4] = ((bearer & 31) << 3) | ((dir as u8) << 2);
    iv.copy_within(0..8, 8);
    iv
}

pub fn eia3_iv(count: u32, bearer: u8, dir: bool) -> [u8; 16] {
    let mut iv = [0u8; 16];
    iv[..4].copy_from_slice(&count.to_be_bytes());
    iv[4] = (bearer & 31) << 3;
    iv.copy_within(0..8, 8);
    iv[8] ^= (dir as u8) << 7;
    iv[14] ^= (dir as u8) << 7;
    iv
}

pub fn stream_bytes(key: &[u8], iv: &[u8], n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = keystream(key, iv, (n + 3) / 4).iter().flat_map(|w| w.to_be_bytes()).collect();
    v.truncate(n);
    v
}

pub fn eia3(key: &[u8], count: u32, bearer: u8, dir: bool, msg: &[u8]) -> [u8; 4] {
    eia3_bits(key, count, bearer, dir, msg, msg.len() * 8)
}

pub fn eia3_bits(key: &[u8], count: u32, bearer: u8, dir: bool, msg: &[u8], bits: usize) -> [u8; 4] {
    let l = (bits + 31) / 32 + 2;
    let z = keystream(key, &eia3_iv(count, bearer, dir), l);
    let word = |i: usize| -> u32 {
        let (q, r) = (i / 32, i % 32);
        if r == 0 {
            z[q]
        } else {
            (z[q] << r) | (z[q + 1] >> (32 - r))
        }
    };
    let mut t = 0u32;
    for i in 0..bits {
        if msg[i / 8] >> (7 - i % 8) & 1 == 1 {
            t ^= word(i);
        }
    }
    t ^= word(bits);
    t ^= z[l - 1];
    t.to_be_bytes()
}
