//! Products, norms and traces (C09), Hamilton algebra (C16), complex numbers (C31); real-number semantics unless noted.
use crate::api::*;
use crate::world::*;
use dsp::complex::Complex;
use quaternion::quaternion::Quaternion;

pub const RIGHT: &str = "the result equals the definition";
pub const GOOD: &str = "the operation succeeds";
pub const READ_ONLY: &str = "operands that are only read stay unchanged";
pub const IN: f32 = 0.99e-4;
pub const OUT: f32 = 1.01e-4;
const TINY2: f32 = 1.0e-8; // square of the library's tolerance

pub fn at(s: &Snap, i: u8, j: u8) -> f32 { s.e[(i * s.c + j) as usize] }

pub fn good<T, E>(r: Result<T, E>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, GOOD);
            loop {}
        }
    }
}

#[no_mangle]
pub fn c09_mul() {
    let (r, k, c) = (1 + choose(4), 1 + choose(4), 1 + choose(4));
    let a = mat_sym(r, k);
    let b = mat_sym(k, c);
    let (sa, sb) = (snap_m(&a), snap_m(&b));
    let mut d = mat_sym(r, c);
    good(d.mul(&a, &b));
    let n = good(a.mul_new(&b));
    let (sd, sn) = (snap_m(&d), snap_m(&n));
    check((sd.r == r) & (sd.c == c) & (sn.r == r) & (sn.c == c), RIGHT);
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c {
            let mut want = 0.0;
            let mut x = 0;
            while x < k { want += at(&sa, i, x) * at(&sb, x, j); x += 1; }
            same(at(&sd, i, j), want, RIGHT);
            same(at(&sn, i, j), want, RIGHT);
            j += 1;
        }
        i += 1;
    }
    unchanged(&sa, &snap_m(&a), READ_ONLY);
    unchanged(&sb, &snap_m(&b), READ_ONLY);
    reach("multiplied");
}

#[no_mangle]
pub fn c09_vec() {
    let (m, n) = (1 + choose(4), 1 + choose(4));
    let u = vec_sym(m);
    let v = vec_sym(n);
    let (su, sv) = (snap_v(&u), snap_v(&v));
    let o = snap_m(&good(u.outer_product(&v)));
    check((o.r == m) & (o.c == n), RIGHT);
    let mut dot = 0.0;
    let mut i = 0;
    while i < m {
        let mut j = 0;
        while j < n { same(at(&o, i, j), su.e[i as usize] * sv.e[j as usize], RIGHT); j += 1; }
        if i < n { dot += su.e[i as usize] * sv.e[i as usize]; }
        i += 1;
    }
    if m == n { same(good(u.dot_product(&v)), dot, RIGHT); }
    unchanged(&su, &snap_v(&u), READ_ONLY);
    unchanged(&sv, &snap_v(&v), READ_ONLY);
    reach("vectors");
}

#[no_mangle]
pub fn c09_norm() {
    let n = 1 + choose(4);
    let mut v = vec_sym(n);
    let s = snap_v(&v);
    let mut sum = 0.0;
    let mut i = 0;
    while i < n { sum += s.e[i as usize] * s.e[i as usize]; i += 1; }
    let norm = good(v.calculate_norm());
    unchanged(&s, &snap_v(&v), READ_ONLY);
    good(v.normalize());
    let u = snap_v(&v);
    check(u.r == n, RIGHT);
    if norm > 0.0 {
        close(norm * norm, sum, 1e-3, "the squared norm is the sum of squares");
        check(sum >= 0.98 * TINY2, "a length at or below the tolerance is reported as zero");
        let mut len = 0.0;
        let mut i = 0;
        while i < n {
            close(u.e[i as usize] * norm, s.e[i as usize], 1e-3, "the normalised vector is parallel to the original");
            len += u.e[i as usize] * u.e[i as usize];
            i += 1;
        }
        close(len, 1.0, 1e-3, "the normalised vector has unit length");
        reach("long");
    } else {
        check(norm == 0.0, "a norm is never negative");
        check(sum <= 1.02 * TINY2, "a length above the tolerance is reported");
        let mut i = 0;
        while i < n { same(u.e[i as usize], 0.0, "a vector shorter than the tolerance normalises to zero"); i += 1; }
        reach("short");
    }
}

#[no_mangle]
pub fn c09_mat() {
    let (r, c) = (1 + choose(4), 1 + choose(4));
    let m = mat_sym(r, c);
    let s = snap_m(&m);
    let mut sum = 0.0;
    let mut tr = 0.0;
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c {
            sum += at(&s, i, j) * at(&s, i, j);
            if i == j { tr += at(&s, i, j); }
            j += 1;
        }
        i += 1;
    }
    let f = good(m.calculate_frobenius_norm());
    check(f >= 0.0, "a norm is never negative");
    close(f * f, sum, 1e-3, "the squared norm is the sum of squares");
    if r == c { same(good(m.trace()), tr, RIGHT); } else { check(m.trace().is_err(), "the trace of a non-square matrix is refused"); }
    unchanged(&s, &snap_m(&m), READ_ONLY);
    reach("matrix");
}

#[no_mangle]
pub fn c09_power() {
    let e = choose(4);
    let (r, c) = (1 + choose(4), 1 + choose(4));
    let mut m = mat_sym(r, c);
    let mut v = vec_sym(r);
    let (s, t) = (snap_m(&m), snap_v(&v));
    good(m.power_elements(e as f32));
    good(v.power_elements(e as f32));
    let (a, b) = (snap_m(&m), snap_v(&v));
    let mut i = 0;
    while i < r * c { close(a.e[i as usize], pow(s.e[i as usize], e), 1e-2, RIGHT); i += 1; }
    let mut i = 0;
    while i < r { close(b.e[i as usize], pow(t.e[i as usize], e), 1e-2, RIGHT); i += 1; }
    reach("powers");
}

fn pow(x: f32, e: u8) -> f32 {
    match e { 0 => 1.0, 1 => x, 2 => x * x, _ => x * x * x }
}

pub fn quat_sym() -> V { vec_sym(4) }

pub fn q4(v: &V) -> [f32; 4] {
    let s = snap_v(v);
    check(s.init & (s.r == 4), "a quaternion has four components");
    [s.e[0], s.e[1], s.e[2], s.e[3]]
}

/// Hamilton product.
pub fn ham(a: &[f32; 4], b: &[f32; 4]) -> [f32; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}

pub fn each4(a: &[f32; 4], b: &[f32; 4], id: &str) {
    let mut i = 0;
    while i < 4 { same(a[i], b[i], id); i += 1; }
}

pub fn close4(a: &[f32; 4], b: &[f32; 4], tol: f32, id: &str) {
    let mut i = 0;
    while i < 4 { close(a[i], b[i], tol, id); i += 1; }
}

#[no_mangle]
pub fn c16_product() {
    let p = quat_sym();
    let q = quat_sym();
    let (a, b) = (q4(&p), q4(&q));
    let mut d = quat_sym();
    good(Quaternion::mul(&mut d, &p, &q));
    let n = good(Quaternion::mul_new(&p, &q));
    let want = ham(&a, &b);
    each4(&q4(&d), &want, RIGHT);
    each4(&q4(&n), &want, RIGHT);
    each4(&q4(&p), &a, READ_ONLY);
    each4(&q4(&q), &b, READ_ONLY);
    reach("product");
}

#[no_mangle]
pub fn c16_parts() {
    let mut p = quat_sym();
    let a = q4(&p);
    same(good(p.get_qw()), a[0], "component order");
    same(good(p.get_qx()), a[1], "component order");
    same(good(p.get_qy()), a[2], "component order");
    same(good(p.get_qz()), a[3], "component order");
    let v = snap_v(&good(p.get_vector_part()));
    check(v.r == 3, "component order");
    let mut i = 0;
    while i < 3 { same(v.e[i], a[i + 1], "component order"); i += 1; }
    let c = good(p.conjugate_new());
    each4(&q4(&p), &a, READ_ONLY);
    let want = [a[0], -a[1], -a[2], -a[3]];
    each4(&q4(&c), &want, "conjugation negates the vector part");
    good(p.conjugate());
    each4(&q4(&p), &want, "conjugation negates the vector part");
    let x = [fin(), fin(), fin(), fin()];
    good(p.fillq(x[0], x[1], x[2], x[3]));
    each4(&q4(&p), &x, "component order");
    let y = [fin(), fin(), fin(), fin()];
    good(p.set_qw(y[0]));
    each4(&q4(&p), &[y[0], x[1], x[2], x[3]], "component order");
    good(p.set_qx(y[1]));
    each4(&q4(&p), &[y[0], y[1], x[2], x[3]], "component order");
    good(p.set_qy(y[2]));
    each4(&q4(&p), &[y[0], y[1], y[2], x[3]], "component order");
    good(p.set_qz(y[3]));
    each4(&q4(&p), &y, "component order");
    good(Quaternion::fill_identity(&mut p));
    each4(&q4(&p), &[1.0, 0.0, 0.0, 0.0], "identity");
    reach("parts");
}

#[no_mangle]
pub fn c16_inverse() {
    let mut p = quat_sym();
    let a = q4(&p);
    let n2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
    good(p.invert());
    let b = q4(&p);
    if n2 > 1.02 * TINY2 {
        each4(&ham(&a, &b), &[1.0, 0.0, 0.0, 0.0], "a quaternion times its inverse is the identity");
        reach("inverted");
    } else if n2 < 0.98 * TINY2 {
        each4(&b, &[0.0; 4], "a quaternion shorter than the tolerance inverts to zero");
        reach("short");
    }
}

pub fn inside(x: f32, y: f32, t: f32) -> bool { (x - y <= t) & (x - y >= -t) }

/// A test with the library's tolerance: its answer is right on both sides, a hair's breadth around the threshold excepted.
pub fn agree(said: bool, surely: bool, hardly: bool, id: &str) {
    if said { check(hardly, id); reach("yes"); } else { check(!surely, id); reach("no"); }
}

#[no_mangle]
pub fn c16_tests() {
    let w = choose(4);
    let p = quat_sym();
    let a = q4(&p);
    let v = |t: f32| inside(a[1], 0.0, t) & inside(a[2], 0.0, t) & inside(a[3], 0.0, t);
    match w {
        0 => agree(good(p.is_real()), v(IN), v(OUT), "a real quaternion has no vector part"),
        1 => agree(good(p.is_pure()), inside(a[0], 0.0, IN), inside(a[0], 0.0, OUT), "a pure quaternion has no real part"),
        2 => agree(good(p.is_identity()), v(IN) & inside(a[0], 1.0, IN), v(OUT) & inside(a[0], 1.0, OUT), "the identity is one and no vector part"),
        _ => {
            let n2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
            let said = good(p.is_versor());
            agree(said, inside(n2, 1.0, 1.9e-4), inside(n2, 1.0, 2.1e-4), "a versor has unit length");
        }
    }
    each4(&q4(&p), &a, READ_ONLY);
}

fn cx(re: f32, im: f32) -> Complex { good(Complex::new(re, im)) }
fn re(z: &Complex) -> f32 { good(z.get_real_part()) }
fn im(z: &Complex) -> f32 { good(z.get_imaginary_part()) }

/// Bit-precise: construction and setters.
#[no_mangle]
pub fn c31_build() {
    let (a, b, x) = (any(), any(), any());
    match Complex::new(a, b) {
        Ok(mut z) => {
            check(a.is_finite() & b.is_finite(), "a non-finite part is refused");
            same(re(&z), a, "a number returns the parts it was built from");
            same(im(&z), b, "a number returns the parts it was built from");
            let imag = choose(2) == 1;
            let set = if imag { z.set_imaginary_part(x) } else { z.set_real_part(x) };
            if set.is_ok() {
                check(x.is_finite(), "a non-finite part is refused");
                same(re(&z), if imag { a } else { x }, "a setter changes its part only");
                same(im(&z), if imag { x } else { b }, "a setter changes its part only");
                reach("set");
            } else {
                check(!x.is_finite(), "a finite part is accepted");
                same(re(&z), a, "a refused setter changes nothing");
                same(im(&z), b, "a refused setter changes nothing");
                reach("refused");
            }
        }
        Err(_) => {
            check(!(a.is_finite() & b.is_finite()), "finite parts are accepted");
            reach("refused");
        }
    }
}

fn is(z: &Complex, x: f32, y: f32, id: &str) {
    same(re(z), x, id);
    same(im(z), y, id);
}

#[no_mangle]
pub fn c31_field() {
    let op = choose(6);
    let (a, b, c, d) = (fin(), fin(), fin(), fin());
    let (mut u, mut v, mut z) = (cx(a, b), cx(c, d), cx(fin(), fin()));
    match op {
        0 => { good(z.add(&u, &v)); is(&z, a + c, b + d, RIGHT); }
        1 => { good(z.sub(&u, &v)); is(&z, a - c, b - d, RIGHT); }
        2 => { good(z.mul(&u, &v)); is(&z, a * c - b * d, a * d + b * c, RIGHT); }
        3 => { good(u.neg()); is(&u, -a, -b, RIGHT); return; }
        4 => { good(u.conjugate()); is(&u, a, -b, RIGHT); return; }
        _ => { good(u.swap(&mut v)); is(&u, c, d, RIGHT); is(&v, a, b, RIGHT); return; }
    }
    is(&u, a, b, READ_ONLY);
    is(&v, c, d, READ_ONLY);
    reach("field");
}

#[no_mangle]
pub fn c31_div() {
    let (a, b, c, d) = (fin(), fin(), fin(), fin());
    let (u, v) = (cx(a, b), cx(c, d));
    let (x, y) = (fin(), fin());
    let mut z = cx(x, y);
    match z.div(&u, &v) {
        Ok(()) => {
            check(c * c + d * d > 0.98e-8, "division by a number within the tolerance of zero is refused");
            let (p, q) = (re(&z), im(&z));
            same(p * c - q * d, a, "the quotient times the divisor is the dividend");
            same(p * d + q * c, b, "the quotient times the divisor is the dividend");
            reach("divided");
        }
        Err(_) => {
            check(c * c + d * d < 2.04e-8, "only a divisor within the tolerance of zero is refused");
            is(&z, x, y, "a refused division changes nothing");
            reach("refused");
        }
    }
    is(&u, a, b, READ_ONLY);
    is(&v, c, d, READ_ONLY);
}

#[no_mangle]
pub fn c31_polar() {
    let op = choose(3);
    let (a, b) = (fin(), fin());
    let mut z = cx(a, b);
    match op {
        0 => {
            let m = good(z.calculate_module());
            check(m >= 0.0, "a modulus is never negative");
            close(m * m, a * a + b * b, 1e-4, RIGHT);
            is(&z, a, b, READ_ONLY);
            reach("modulus");
        }
        1 => {
            let (r, t) = (fin(), fin());
            good(z.convert_from_polar(r, t));
            is(&z, r * libm::cosf(t), r * libm::sinf(t), RIGHT);
            reach("polar");
        }
        _ => {
            good(z.expo());
            let e = libm::expf(a);
            close(re(&z), e * libm::cosf(b), 1e-3, RIGHT);
            close(im(&z), e * libm::sinf(b), 1e-3, RIGHT);
            reach("exponential");
        }
    }
}
