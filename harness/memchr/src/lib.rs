//! Scalar stand-in for the `memchr` crate (the four functions serde_json uses).
//! The original selects SIMD code by CPU detection in inline assembly, which is not encodable;
//! it is a third-party search primitive, not code under test.
#![no_std]
pub fn memchr(a: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|b| *b == a)
}
pub fn memchr2(a: u8, c: u8, h: &[u8]) -> Option<usize> {
    h.iter().position(|b| *b == a || *b == c)
}
pub fn memrchr(a: u8, h: &[u8]) -> Option<usize> {
    h.iter().rposition(|b| *b == a)
}
pub fn memchr_iter(a: u8, h: &[u8]) -> impl Iterator<Item = usize> + '_ {
    h.iter().enumerate().filter(move |(_, b)| **b == a).map(|(i, _)| i)
}
