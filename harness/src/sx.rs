//! What a harness may do besides running the code under test.  The symbolic engine implements
//! these by name; the replay program implements them over a recorded list of inputs.
#![allow(dead_code)]

extern "C" {
    fn sx_u64(bits: u32) -> u64;
    fn sx_choose(n: u32) -> u32;
    fn sx_assume(c: bool);
    fn sx_assert(c: bool, id: u32);
    fn sx_concrete(v: u64) -> u64;
    fn sx_observe(v: u64);
    fn sx_reach(id: u32);
}

/// any value of `bits` bits
pub fn any(bits: u32) -> u64 {
    unsafe { sx_u64(bits) }
}
pub fn any_bool() -> bool {
    any(1) == 1
}
pub fn any_u8() -> u8 {
    any(8) as u8
}
pub fn any_u16() -> u16 {
    any(16) as u16
}
pub fn any_i16() -> i16 {
    any(16) as i16
}
pub fn any_u32() -> u32 {
    any(32) as u32
}
pub fn any_u64() -> u64 {
    any(64)
}
pub fn any_u128() -> u128 {
    let lo = any(64) as u128;
    lo | (any(64) as u128) << 64
}
/// any bit pattern: NaNs, infinities and denormals included
pub fn any_f32() -> f32 {
    f32::from_bits(any(32) as u32)
}
/// a sample of 16-bit audio
pub fn any_k() -> i16 {
    let k = any_i16();
    assume(k != i16::MIN);
    k
}
/// one path for each value below `n`
pub fn choose(n: u32) -> u32 {
    unsafe { sx_choose(n) }
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len() as u32) as usize]
}
/// a value from `lo` to `hi`, one path each
pub fn between(lo: usize, hi: usize) -> usize {
    lo + choose((hi - lo + 1) as u32) as usize
}
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
pub fn check(c: bool, id: u32) {
    unsafe { sx_assert(c, id) }
}
/// forks until `v` has a single value on the path
pub fn concrete(v: u64) -> u64 {
    unsafe { sx_concrete(v) }
}
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
pub fn observe_f(v: f32) {
    observe(v.to_bits() as u64)
}
pub fn reach(id: u32) {
    unsafe { sx_reach(id) }
}

/// Defines the entry points and a table of them for the replay program.
#[macro_export]
macro_rules! harnesses {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $($(#[$a])* #[no_mangle] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
