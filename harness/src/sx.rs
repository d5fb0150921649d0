//! The harness side of the symbolic executor: nondeterministic inputs, assumptions, assertions.
//!
//! In the symbolic build these are external functions the executor interprets; with the `native`
//! feature they read the concrete bytes of a counterexample (or of a sampled path).

#[cfg(not(feature = "native"))]
unsafe extern "C" {
    fn sx_bytes(p: *mut u8, n: usize);
    fn sx_pick(n: usize) -> usize;
    fn sx_concrete(v: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, p: *const u8, n: usize);
    fn sx_cover(p: *const u8, n: usize);
    fn sx_expect(p: *const u8, n: usize);
    fn sx_allow_huge(c: bool);
    fn sx_observe(v: u64);
}

#[cfg(feature = "native")]
pub use native::*;

#[cfg(feature = "native")]
mod native {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Run {
        pub input: Vec<u8>,
        pub pos: usize,
        pub failed: Option<&'static str>,
        pub assumed: bool,
        pub obs: Vec<u64>,
        pub covers: Vec<&'static str>,
    }
    thread_local!(pub static RUN: RefCell<Run> = RefCell::default());
    pub struct Stop;

    pub unsafe fn sx_bytes(p: *mut u8, n: usize) {
        RUN.with(|r| {
            let mut r = r.borrow_mut();
            for i in 0..n {
                let b = r.input.get(r.pos).copied().unwrap_or(0);
                r.pos += 1;
                *p.add(i) = b;
            }
        })
    }
    pub unsafe fn sx_pick(n: usize) -> usize {
        let mut b = 0u8;
        sx_bytes(&mut b, 1);
        if b as usize >= n {
            sx_assume(false);
        }
        b as usize
    }
    pub unsafe fn sx_concrete(v: u64) -> u64 {
        v
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            RUN.with(|r| r.borrow_mut().assumed = true);
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    pub unsafe fn sx_assert(c: bool, p: *const u8, n: usize) {
        if !c {
            let s: &'static str = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
            RUN.with(|r| r.borrow_mut().failed = Some(s));
            std::panic::resume_unwind(Box::new(Stop));
        }
    }
    pub unsafe fn sx_cover(p: *const u8, n: usize) {
        let s: &'static str = std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n));
        RUN.with(|r| r.borrow_mut().covers.push(s));
    }
    pub unsafe fn sx_expect(_: *const u8, _: usize) {}
    pub unsafe fn sx_allow_huge(_: bool) {}
    pub unsafe fn sx_observe(v: u64) {
        RUN.with(|r| r.borrow_mut().obs.push(v));
    }
}

/// `N` arbitrary bytes.
#[inline(always)]
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    unsafe { sx_bytes(b.as_mut_ptr(), N) };
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn u128() -> u128 {
    u128::from_le_bytes(bytes())
}
pub fn flag() -> bool {
    u8() & 1 == 1
}
/// Some number below `n`; every value is explored on a path of its own.
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { sx_pick(n) }
}
/// The same value, with one path per feasible value.
#[inline(always)]
pub fn concrete(v: usize) -> usize {
    unsafe { sx_concrete(v as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { sx_assert(c, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn fail(msg: &'static str) -> ! {
    unsafe { sx_assert(false, msg.as_ptr(), msg.len()) };
    loop {}
}
/// Announces a situation that some path must reach (reachability witness).
#[inline(always)]
pub fn expect(msg: &'static str) {
    unsafe { sx_expect(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn cover(msg: &'static str) {
    unsafe { sx_cover(msg.as_ptr(), msg.len()) }
}
/// Requests for more memory than any host has end the path instead of failing it
/// (a corrupt length prefix is documented to be the caller's business).
#[inline(always)]
pub fn allow_huge() {
    unsafe { sx_allow_huge(true) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
/// Records length and leading bytes so that sampled paths can be compared with the native code.
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b.iter().take(24) {
        observe(*x as u64);
    }
}

#[macro_export]
macro_rules! harnesses {
	($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
		$($(#[$m])* #[unsafe(no_mangle)] pub fn $name() $body)*
		pub const LIST: &[(&str, fn())] = &[$($(#[$m])* (stringify!($name), $name as fn())),*];
	}
}
