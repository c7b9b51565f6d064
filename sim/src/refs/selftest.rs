//! Known answers for every reference model; a broken model is an error of the check, not a finding.
use super::block::{Block, BlockRef};
use super::bn::Bn;
use super::ec::Curve;
use super::hash::{hash, Alg};
use super::{keccak, mac, modes, rsa, zuc};
use crate::engine::{hex, unhex};

pub fn run() -> Result<(), String> {
    let mut bad = Vec::new();
    let mut chk = |name: &str, got: &[u8], want: &str| {
        if hex(got) != want.to_lowercase() {
            bad.push(format!("{}: got {} want {}", name, hex(got), want));
        }
    };
    let abc = b"abc";
    chk("md5", &hash(Alg::Md5, abc), "900150983cd24fb0d6963f7d28e17f72");
    chk("sha1", &hash(Alg::Sha1, abc), "a9993e364706816aba3e25717850c26c9cd0d89d");
    chk("sha224", &hash(Alg::Sha224, abc), "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7");
    chk("sha256", &hash(Alg::Sha256, abc), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
    chk("sha384", &hash(Alg::Sha384, abc), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7");
    chk("sha512", &hash(Alg::Sha512, abc), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f");
    chk("sha512/224", &hash(Alg::Sha512T(224), abc), "4634270f707b6a54daae7530460842e20e37ed265ceee9a43e8924aa");
    chk("sha512/256", &hash(Alg::Sha512T(256), abc), "53048e2681941ef99b2e29b76b4c7dabe4c2d0c634fc6d46e0e2f13107e7af23");
    chk("sm3", &hash(Alg::Sm3, abc), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0");
    let long = vec![0x61u8; 1000];
    chk("md5-1000", &hash(Alg::Md5, &long), "cabe45dcc9ae5b66ba86600cca6b8ba8");
    chk("sha3-224", &keccak::sha3(224, abc), "e642824c3f8cf24ad09234ee7d3c766fc9a3a5168d0c94ad73b46fdf");
    chk("sha3-256", &keccak::sha3(256, abc), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532");
    chk("sha3-512", &keccak::sha3(512, abc), "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0");
    chk("shake128", &keccak::sha3_bits(keccak::Sha3::Shake(128), &[], 256), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26");
    let key = unhex("000102030405060708090a0b0c0d0e0f1011121314151617 18191a1b1c1d1e1f".replace(' ', "").as_str());
    let pt = unhex("00112233445566778899aabbccddeeff");
    for (n, ct) in [(16, "69c4e0d86a7b0430d8cdb78070b4c55a"), (24, "dda97ca4864cdfe06eaf70a0ec0d7191"), (32, "8ea2b7ca516745bfeafc49904b496089")] {
        let c = Block::aes(&key[..n]);
        chk("aes", &c.enc(&pt), ct);
        chk("aes-dec", &c.dec(&unhex(ct)), &hex(&pt));
    }
    let d = Block::des(&unhex("133457799bbcdff1"));
    chk("des", &d.enc(&unhex("0123456789abcdef")), "85e813540f0ab405");
    chk("des-dec", &d.dec(&unhex("85e813540f0ab405")), "0123456789abcdef");
    let t = Block::tdes(&unhex("0123456789abcdef"), &unhex("23456789abcdef01"), &unhex("456789abcdef0123"));
    chk("tdes", &t.enc(&unhex("6bc1bee22e409f96")), "714772f339841d34");
    chk("tdes-dec", &t.dec(&unhex("714772f339841d34")), "6bc1bee22e409f96");
    let s = Block::sm4(&unhex("0123456789abcdeffedcba9876543210"));
    chk("sm4", &s.enc(&unhex("0123456789abcdeffedcba9876543210")), "681edf34d206965e86b3e94f536e4246");
    chk("sm4-dec", &s.dec(&unhex("681edf34d206965e86b3e94f536e4246")), "0123456789abcdeffedcba9876543210");
    for n in [1usize, 4, 6, 13, 40] {
        let y = Block::toy(&(1..=n as u8).collect::<Vec<_>>());
        let p: Vec<u8> = (0..n as u8).map(|x| x.wrapping_mul(37)).collect();
        chk("toy", &y.dec(&y.enc(&p)), &hex(&p));
    }
    let z = zuc::keystream(&[0; 16], &[0; 16], 2);
    chk("zuc0", &[z[0].to_be_bytes(), z[1].to_be_bytes()].concat(), "27bede74018082da");
    let z = zuc::keystream(&[0xff; 16], &[0xff; 16], 2);
    chk("zuc1", &[z[0].to_be_bytes(), z[1].to_be_bytes()].concat(), "0657cfa07096398b");
    let z = zuc::keystream(&unhex("4d320bfad4c285bfd6b8bd00f39d8b41"), &unhex("52959daba0bf176ece2dc315049eb574"), 2000);
    chk("zuc2000", &z[1999].to_be_bytes(), "7a574cdb");
    chk("eia3", &zuc::eia3_bits(&[0; 16], 0, 0, false, &[0; 4], 1), "c8a9595e");
    let ik = unhex("c9e6cec4607c72db000aefa88385ab0a");
    let m = unhex("983b41d47d780c9e1ad11d7eb70391b1de0b35da2dc62f83e7b78d6306ca0ea07e941b7be91348f9fcb170e2217fecd97f9f68adb16e5d7d21e569d280ed775cebde3f4093c5388100000000");
    chk("eia3-577", &zuc::eia3_bits(&ik, 0xa94059da, 0x0a, true, &m, 577), "fae8ff0b");
    chk("hmac", &mac::hmac(&|m| hash(Alg::Sha256, m), 64, &[0x0b; 20], b"Hi There"), "b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7");
    let c = Block::aes(&unhex("2b7e151628aed2a6abf7158809cf4f3c"));
    chk("cmac0", &mac::cmac(&c, &[]), "bb1d6929e95937287fa37d129b756746");
    chk("cmac1", &mac::cmac(&c, &unhex("6bc1bee22e409f96e93d7e117393172a")), "070a16b46b4d4144f79bdd9dd04a287c");
    chk("cmac40", &mac::cmac(&c, &unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e5130c81c46a35ce411")), "dfa66747de9ae63030ca32611497c827");
    let iv = unhex("000102030405060708090a0b0c0d0e0f");
    let p2 = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51");
    chk("cbc", &modes::cbc_enc(&c, &iv, &p2), "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2");
    chk("cbc-dec", &modes::cbc_dec(&c, &iv, &modes::cbc_enc(&c, &iv, &p2)), &hex(&p2));
    chk("cfb8", &modes::cfb(&c, &iv, 1, &p2[..4], true), "3b79424c");
    chk("cfb128", &modes::cfb(&c, &iv, 16, &p2, true), "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b");
    chk("cfb-dec", &modes::cfb(&c, &iv, 4, &modes::cfb(&c, &iv, 4, &p2, true), false), &hex(&p2));
    chk("ofb", &modes::xor_bytes(&modes::ofb_stream(&c, &iv, 32), &p2), "3b3fd92eb72dad20333449f8e83cfb4a7789508d16918f03f53c52dac54ed825");
    let ctr0 = unhex("f0f1f2f3f4f5f6f7f8f9fafbfcfdfeff");
    let ks: Vec<u8> = (0..2).flat_map(|k| c.enc(&modes::ctr_block(&ctr0, k, 16))).collect();
    chk("ctr", &modes::xor_bytes(&ks, &p2), "874d6191b620e3261bef6864990db6ce9806f66b7970fdff8617187bb9fffdff");
    chk("ctr-wrap", &modes::ctr_block(&[0xff; 17], 2, 16), "00000000000000000000000000000001");
    // bignum identities
    let a = Bn::from_be(&hash(Alg::Sha512, b"a"));
    let b = Bn::from_be(&hash(Alg::Sha512, b"b")).add(&Bn::one().shl(600));
    let m = Bn::from_be(&hash(Alg::Sha384, b"m"));
    let (q, r) = a.mul(&b).divrem(&m);
    if q.mul(&m).add(&r) != a.mul(&b) || r >= m {
        bad.push("bn divrem".into());
    }
    for i in 0..4 {
        let c = Curve::get(i);
        let g = Some((c.gx.clone(), c.gy.clone()));
        if !c.p.is_prime() || !c.n.is_prime() || !c.on_curve(&g) || c.base(&c.n).is_some() {
            bad.push(format!("curve {}", c.name));
        }
        // (a+b)G = aG + bG, Fermat inverse
        let (x, y) = (a.rem(&c.n), b.rem(&c.n));
        if c.add(&c.base(&x), &c.base(&y)) != c.base(&x.addmod(&y, &c.n)) {
            bad.push(format!("curve add {}", c.name));
        }
        if x.inv(&c.n) != Some(x.powmod(&c.n.sub(&Bn::from_u64(2)), &c.n)) {
            bad.push(format!("inverse {}", c.name));
        }
    }
    let c = Curve::get(1);
    let d = Bn::hex("c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721");
    let hsh = hash(Alg::Sha256, b"sample");
    let (r, s) = (
        Bn::hex("efd48b2aacb6a8fd1140dd9cd45e81d69d2c877b56aaf991c34d0ea84eaf3716"),
        Bn::hex("f7cb1c942d657c41d436c7a1b6e29f65f3e900dbb9aff4064dc4ab2f843acda8"),
    );
    if !c.ecdsa_verify(&c.base(&d), &hsh, &r, &s) || c.ecdsa_verify(&c.base(&d), &hsh, &s, &r) {
        bad.push("ecdsa rfc6979 vector".into());
    }
    let h = |m: &[u8]| hash(Alg::Sha1, m);
    let em = rsa::oaep_encode(&h, 64, b"L", &[7; 20], b"hello");
    if rsa::oaep_decode(&h, b"L", &em) != Some((vec![7; 20], b"hello".to_vec())) {
        bad.push("oaep".into());
    }
    let em = rsa::pss_encode(&h, &h(b"x"), 509, &[9; 20]);
    if rsa::pss_salt(&h, &h(b"x"), &em, 509, 20) != Some(vec![9; 20]) {
        bad.push("pss".into());
    }
    let di = "3031300d060960864801650304020105000420";
    if hex(&rsa::digest_info("sha256").unwrap()) != di {
        bad.push("digest info".into());
    }
    let (p, q) = (Bn::hex("ffffffffffffffc5"), Bn::hex("ffffffffffffff43"));
    let n = p.mul(&q);
    let phi = p.sub(&Bn::one()).mul(&q.sub(&Bn::one()));
    let e = Bn::from_u64(65537);
    let dd = e.inv(&phi).unwrap();
    if !p.is_prime() {
        bad.push("is_prime".into());
    }
    if q.is_prime() && rsa::factor(&n, &e, &dd) != Some(vec![q, p]) {
        bad.push("factor".into());
    }
    if bad.is_empty() {
        Ok(())
    } else {
        Err(bad.join("\n"))
    }
}
