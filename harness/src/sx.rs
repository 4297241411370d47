//! Harness API.  Symbolically every function here is a builtin of the symbolic executor; in the
//! `native` build the same functions read the bytes of one model and report what happened.
#![allow(dead_code)]

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn symx_byte(lo: u8, hi: u8) -> u8;
        fn symx_assume(c: u8);
        fn symx_check(c: u8, id: *const u8, len: usize);
        fn symx_fail(id: *const u8, len: usize) -> !;
        fn symx_reach(id: u32);
        fn symx_observe(p: *const u8, len: usize);
        fn symx_note(p: *const u8, len: usize);
        fn symx_concretize(x: u64) -> u64;
    }
    pub fn byte(lo: u8, hi: u8) -> u8 {
        unsafe { symx_byte(lo, hi) }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c as u8) }
    }
    pub fn check(c: bool, id: &'static str) {
        unsafe { symx_check(c as u8, id.as_ptr(), id.len()) }
    }
    pub fn fail(id: &'static str) -> ! {
        unsafe { symx_fail(id.as_ptr(), id.len()) }
    }
    pub fn reach(id: u32) {
        unsafe { symx_reach(id) }
    }
    pub fn observe(b: &[u8]) {
        unsafe { symx_observe(b.as_ptr(), b.len()) }
    }
    pub fn note(b: &[u8]) {
        unsafe { symx_note(b.as_ptr(), b.len()) }
    }
    pub fn pick(x: usize) -> usize {
        unsafe { symx_concretize(x as u64) as usize }
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub struct St {
        pub bytes: Vec<u8>,
        pub pos: usize,
        pub out: Vec<String>,
        pub h: u64,
        pub nobs: u64,
        pub explain: bool,
    }
    thread_local!(pub static ST: RefCell<St> = RefCell::new(St{bytes:vec![],pos:0,out:vec![],h:1469598103934665603,nobs:0,explain:false}));
    pub enum Stop {
        Pruned(&'static str),
        Fail(&'static str),
    }
    pub fn byte(lo: u8, hi: u8) -> u8 {
        let b = ST.with(|s| {
            let mut s = s.borrow_mut();
            let p = s.pos;
            s.pos += 1;
            s.bytes.get(p).copied()
        });
        match b {
            Some(b) if b >= lo && b <= hi => b,
            Some(_) => std::panic::resume_unwind(Box::new(Stop::Pruned("byte outside its range"))),
            None => std::panic::resume_unwind(Box::new(Stop::Pruned("model has too few bytes"))),
        }
    }
    pub fn assume(c: bool) {
        if !c {
            std::panic::resume_unwind(Box::new(Stop::Pruned("assumption")))
        }
    }
    pub fn check(c: bool, id: &'static str) {
        if !c {
            fail(id)
        }
    }
    pub fn fail(id: &'static str) -> ! {
        std::panic::resume_unwind(Box::new(Stop::Fail(id)))
    }
    pub fn reach(_id: u32) {}
    pub fn observe(b: &[u8]) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            for x in b.iter().chain(&[0xfeu8]) {
                s.h = (s.h ^ *x as u64).wrapping_mul(1099511628211);
            }
            s.nobs += 1;
        })
    }
    pub fn note(b: &[u8]) {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let t = String::from_utf8_lossy(b).into_owned();
            s.out.push(t);
        })
    }
    pub fn pick(x: usize) -> usize {
        x
    }
}

pub use imp::{assume, byte, check, fail, note, observe, pick, reach};

/// Human-readable detail, only produced in the native replay (symbolically it costs nothing).
#[macro_export]
macro_rules! explain {
    ($($t:tt)*) => { #[cfg(feature = "native")] { $crate::sx::note(format!($($t)*).as_bytes()); } };
}

/// symbolic boolean
pub fn flag() -> bool {
    byte(0, 1) == 1
}

/// symbolic choice in 0..n, forked into concrete alternatives
pub fn choose(n: u8) -> usize {
    pick(byte(0, n - 1) as usize)
}

pub fn pickb(b: bool) -> bool {
    pick(b as usize) != 0
}

/// forked symbolic boolean
pub fn cflag() -> bool {
    choose(2) == 1
}

/// n symbolic bytes, each in lo..=hi
pub fn bytes(n: usize, lo: u8, hi: u8) -> Vec<u8> {
    (0..n).map(|_| byte(lo, hi)).collect()
}

/// An arbitrary UTF-8 string of at most `max` bytes (length and character widths are forked,
/// the scalar values stay symbolic).
pub fn utf8(max: usize) -> String {
    let mut v: Vec<u8> = Vec::with_capacity(max + 1);
    utf8_into(&mut v, max);
    unsafe { String::from_utf8_unchecked(v) }
}

fn utf8_into(v: &mut Vec<u8>, max: usize) {
    let len = choose(max as u8 + 1);
    let mut left = len;
    while left > 0 {
        let w = 1 + choose(left.min(4) as u8);
        match w {
            1 => v.push(byte(0, 0x7f)),
            2 => {
                v.push(byte(0xc2, 0xdf));
                v.push(byte(0x80, 0xbf));
            }
            3 => {
                let a = byte(0xe0, 0xef);
                let b = byte(0x80, 0xbf);
                let c = byte(0x80, 0xbf);
                assume(((a != 0xe0) | (b >= 0xa0)) & ((a != 0xed) | (b < 0xa0)));
                v.extend_from_slice(&[a, b, c]);
            }
            _ => {
                let a = byte(0xf0, 0xf4);
                let b = byte(0x80, 0xbf);
                assume(((a != 0xf0) | (b >= 0x90)) & ((a != 0xf4) | (b < 0x90)));
                v.extend_from_slice(&[a, b, byte(0x80, 0xbf), byte(0x80, 0xbf)]);
            }
        }
        left -= w;
    }
}

/// An arbitrary ASCII string of at most `max` bytes (length forked).
pub fn ascii(max: usize) -> String {
    let len = choose(max as u8 + 1);
    let v = bytes(len, 0, 0x7f);
    unsafe { String::from_utf8_unchecked(v) }
}

/// An arbitrary ASCII string of exactly `n` bytes.
pub fn ascii_n(n: usize, lo: u8, hi: u8) -> String {
    unsafe { String::from_utf8_unchecked(bytes(n, lo, hi)) }
}
