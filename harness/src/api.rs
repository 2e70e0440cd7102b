//! Primitives understood by the symbolic executor; the replay binary implements them natively from a recorded input list.

mod raw {
    extern "C" {
        pub fn vp_f32() -> f32;
        pub fn vp_fin() -> f32;
        pub fn vp_range(lo: f32, hi: f32) -> f32;
        pub fn vp_unit(n: u32, out: *mut f32);
        pub fn vp_u8() -> u8;
        pub fn vp_i8() -> i8;
        pub fn vp_pin(x: u8) -> u8;
        pub fn vp_u16() -> u16;
        pub fn vp_i32() -> i32;
        pub fn vp_choose(n: u8) -> u8;
        pub fn vp_assume(c: bool);
        pub fn vp_check(c: bool, id: *const u8, n: usize);
        pub fn vp_close(a: f32, b: f32, tol: f32, id: *const u8, n: usize);
        pub fn vp_same(a: f32, b: f32, id: *const u8, n: usize);
        pub fn vp_reach(id: *const u8, n: usize);
        pub fn vp_tier() -> u32;
    }
}

/// Any f32 bit pattern (NaN and infinities included).
pub fn any() -> f32 { unsafe { raw::vp_f32() } }
/// Any finite f32.
pub fn fin() -> f32 { unsafe { raw::vp_fin() } }
/// Any finite f32 in a closed interval.
pub fn range(lo: f32, hi: f32) -> f32 { unsafe { raw::vp_range(lo, hi) } }
/// A vector of Euclidean length one.
pub fn unit<const N: usize>() -> [f32; N] {
    let mut o = [0.0f32; N];
    unsafe { raw::vp_unit(N as u32, o.as_mut_ptr()) };
    o
}
pub fn u8s() -> u8 { unsafe { raw::vp_u8() } }
/// The same value, with one path per feasible value (keeps later arithmetic concrete).
pub fn pin(x: u8) -> u8 { unsafe { raw::vp_pin(x) } }
pub fn i8s() -> i8 { unsafe { raw::vp_i8() } }
pub fn u16s() -> u16 { unsafe { raw::vp_u16() } }
pub fn i32s() -> i32 { unsafe { raw::vp_i32() } }
/// One of 0..n, each explored.
pub fn choose(n: u8) -> u8 { unsafe { raw::vp_choose(n) } }
pub fn assume(c: bool) { unsafe { raw::vp_assume(c) } }
pub fn check(c: bool, id: &str) { unsafe { raw::vp_check(c, id.as_ptr(), id.len()) } }
pub fn close(a: f32, b: f32, tol: f32, id: &str) { unsafe { raw::vp_close(a, b, tol, id.as_ptr(), id.len()) } }
/// Bit-for-bit equality (bit-precise semantics) or exact equality (real semantics).
pub fn same(a: f32, b: f32, id: &str) { unsafe { raw::vp_same(a, b, id.as_ptr(), id.len()) } }
pub fn reach(id: &str) { unsafe { raw::vp_reach(id.as_ptr(), id.len()) } }
pub fn thorough() -> bool { unsafe { raw::vp_tier() == 1 } }
