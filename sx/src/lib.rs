//! What a harness may ask for. Under the symbolic executor the sx_* functions are undefined
//! symbols that it interprets; in a replay they read the recorded inputs.

extern "C" {
    fn sx_u8() -> u8;
    fn sx_u16() -> u16;
    fn sx_u32() -> u32;
    fn sx_u64() -> u64;
    fn sx_bool() -> bool;
    fn sx_range(lo: u64, hi: u64) -> u64;
    fn sx_fill(p: *mut u8, n: usize);
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, id: u32);
    fn sx_cover(id: u32);
    fn sx_observe(v: u64);
    fn sx_panics_ok(on: bool);
    fn sx_conc(v: u64) -> u64;
    fn sx_clock(ns: u64);
    fn sx_idle();
    fn sx_explore(n: u32);
    fn sx_try(f: extern "C" fn(*mut u8), data: *mut u8) -> bool;
}

#[inline(always)]
pub fn u8() -> u8 {
    unsafe { sx_u8() }
}
#[inline(always)]
pub fn u16() -> u16 {
    unsafe { sx_u16() }
}
#[inline(always)]
pub fn u32() -> u32 {
    unsafe { sx_u32() }
}
#[inline(always)]
pub fn u64() -> u64 {
    unsafe { sx_u64() }
}
#[inline(always)]
pub fn bool() -> bool {
    unsafe { sx_bool() }
}
/// lo..=hi (constants, lo < hi)
#[inline(always)]
pub fn range(lo: u64, hi: u64) -> u64 {
    unsafe { sx_range(lo, hi) }
}
/// lo..=hi, one path per value
#[inline(always)]
pub fn pick(lo: u64, hi: u64) -> u64 {
    if lo == hi { lo } else { conc(range(lo, hi)) }
}
#[inline(always)]
pub fn fill(b: &mut [u8]) {
    unsafe { sx_fill(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    fill(&mut b);
    b
}
pub fn vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    fill(&mut b);
    b
}
/// An ASCII string of n symbolic characters (each below 0x80).
pub fn ascii(n: usize) -> String {
    let b = vec(n);
    for c in &b {
        assume(*c < 0x80);
    }
    // ASCII is valid UTF-8
    unsafe { String::from_utf8_unchecked(b) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn assert_id(c: bool, id: u32) {
    unsafe { sx_assert(c, id) }
}
#[inline(always)]
pub fn cover_id(id: u32) {
    unsafe { sx_cover(id) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
pub fn panics_ok(on: bool) {
    unsafe { sx_panics_ok(on) }
}
/// One path per feasible value.
#[inline(always)]
pub fn conc(v: u64) -> u64 {
    unsafe { sx_conc(v) }
}
pub fn concb(b: bool) -> bool {
    conc(b as u64) != 0
}
/// What the monotonic and the real-time clock read from here on.
pub fn clock(ns: u64) {
    unsafe { sx_clock(ns) }
}
/// Lets the other threads run until none of them can.
pub fn idle() {
    unsafe { sx_idle() }
}
/// Whether every choice of the thread that runs next is explored from here on; otherwise they
/// take turns. A thread runs until it waits or ends; yield_now gives others the turn.
pub fn explore(on: bool) {
    unsafe { sx_explore(if on { u32::MAX } else { 0 }) }
}
/// From here on, every schedule is explored that differs from the default up to n times: there a
/// thread runs until it waits, and the others take turns; but it may be delayed at every lock.
pub fn delays(n: u32) {
    unsafe { sx_explore(n) }
}
pub fn yield_now() {
    std::thread::yield_now()
}
extern "C" fn call_box(p: *mut u8) {
    let f: &mut Option<&mut dyn FnMut()> = unsafe { &mut *(p as *mut Option<&mut dyn FnMut()>) };
    if let Some(f) = f.take() {
        f();
    }
}
/// Runs f; true if it panicked.
pub fn panics(f: &mut dyn FnMut()) -> bool {
    let mut o = Some(f);
    unsafe { sx_try(call_box, &mut o as *mut _ as *mut u8) }
}

/// The property under check.
#[macro_export]
macro_rules! check {
    ($c:expr) => {
        $crate::assert_id($c, line!())
    };
}
/// A situation the harness has to be able to reach.
#[macro_export]
macro_rules! cover {
    () => {
        $crate::cover_id(line!())
    };
    ($c:expr) => {
        if $c {
            $crate::cover_id(line!())
        }
    };
}
