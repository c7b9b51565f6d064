//! Reference models, written from the standards and independent of the code under test.
pub mod block;
pub mod bn;
pub mod ec;
pub mod hash;
pub mod keccak;
pub mod mac;
pub mod modes;
pub mod rsa;
pub mod selftest;
pub mod zuc;
