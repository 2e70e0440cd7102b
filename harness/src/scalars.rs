use crate::api::*;
use utils::utils::*;

#[no_mangle]
pub fn c32_valid() {
    let x = any();
    let b = x.to_bits() & 0x7fff_ffff;
    let r = is_valid_value(x);
    if b > 0x7f80_0000 {
        reach("nan");
        check(r == Err(UtilsError::Nan), "a NaN is reported as NaN");
    } else if b == 0x7f80_0000 {
        reach("inf");
        check(r == Err(UtilsError::Inf), "an infinity is reported as infinity");
    } else {
        reach("finite");
        check(r == Ok(()), "a finite value is valid");
    }
}

#[no_mangle]
pub fn c32_close() {
    let x = any();
    let y = any();
    let d = any();
    let r = allclose(x, y, d);
    if x.is_finite() && y.is_finite() {
        reach("finite");
        let e = x - y;
        let want = e <= d && -e <= d;
        check(r == Ok(want), "closeness of finite values is |x-y| <= deviation");
    } else {
        reach("refused");
        let bad = if x.is_finite() { y } else { x };
        check(r == Err(if bad.is_nan() { UtilsError::Nan } else { UtilsError::Inf }), "closeness refuses non-finite values with the matching error");
    }
}

#[no_mangle]
pub fn c32_order() {
    let x = any();
    let y = any();
    let z = any();
    check(in_range(x, y, z) == (y <= x && x <= z), "range test");
    if !x.is_nan() && !y.is_nan() {
        reach("ordered");
        let lo = minf(x, y);
        let hi = maxf(x, y);
        check(lo <= x && lo <= y && (lo.to_bits() == x.to_bits() || lo.to_bits() == y.to_bits()), "minimum is the smaller argument");
        check(hi >= x && hi >= y && (hi.to_bits() == x.to_bits() || hi.to_bits() == y.to_bits()), "maximum is the larger argument");
    }
}

#[no_mangle]
pub fn c32_order_int() {
    let x = i32s();
    let y = i32s();
    let z = i32s();
    check(in_range(x, y, z) == (y <= x && x <= z), "range test");
    let lo = min(x, y);
    let hi = max(x, y);
    check(lo <= x && lo <= y && (lo == x || lo == y), "minimum is the smaller argument");
    check(hi >= x && hi >= y && (hi == x || hi == y), "maximum is the larger argument");
    let a = u8s();
    let b = u8s();
    check(min(a, b) <= max(a, b) && (min(a, b) == a || max(a, b) == a), "byte minimum and maximum");
    let c = i8s();
    check(clip(c, -5, 7) >= -5 && clip(c, -5, 7) <= 7 && (c < -5 || c > 7 || clip(c, -5, 7) == c), "byte clip");
    reach("int");
}

#[no_mangle]
pub fn c32_clip() {
    let x = any();
    let lo = any();
    let hi = any();
    assume(lo <= hi);
    let r = clip(x, lo, hi);
    if x.is_nan() { return; }
    reach("clip");
    check(r >= lo && r <= hi, "clipping lands in the range");
    if x >= lo && x <= hi {
        check(r == x, "clipping keeps a value inside the range");
    } else if x < lo {
        check(r == lo, "clipping from below gives the lower bound");
    } else {
        check(r == hi, "clipping from above gives the upper bound");
    }
}

#[no_mangle]
pub fn c32_sign() {
    let x = any();
    let s = x.sign();
    let want = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
    check(s == want, "sign of a float");
    let i = i32s();
    check(Sign::sign(&i) == (if i > 0 { 1 } else if i < 0 { -1 } else { 0 }), "sign of an integer");
    reach("sign");
}

const FACT: [u64; 21] = [
    1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800, 39916800, 479001600, 6227020800, 87178291200, 1307674368000,
    20922789888000, 355687428096000, 6402373705728000, 121645100408832000, 2432902008176640000,
];

#[no_mangle]
pub fn c32_factorial() {
    let n = pin(u8s());
    let f = factorial(n);
    if n <= 20 {
        reach("exact");
        check(f == FACT[n as usize], "factorial is exact up to 20");
    } else {
        reach("large");
        check(f >= FACT[20], "factorial of a large argument is not smaller than 20!");
    }
}
