//! Rotations, conversions, exponential and interpolation (C17-C21), real-number semantics.
use crate::alg::*;
use crate::api::*;
use crate::pred::*;
use crate::world::*;
use linalg::common::LinalgError;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

const SAME_TURN: &str = "every form applies the same rotation";

fn quat(q: &[f32; 4]) -> Vector<f32> { vec_of(&q[..]) }

fn vec3() -> ([f32; 3], Vector<f32>) {
    let e = [fin(), fin(), fin()];
    (e, vec_of(&e[..]))
}

/// Rotation by a unit quaternion: matrix, both ways of rotating, sandwich product.
#[no_mangle]
pub fn c17_rotate() {
    let q = unit::<4>();
    let a = quat(&q);
    let t = turn(&q);
    let d = snap_m(&good(a.convert_to_dcm()));
    check((d.r == 3) & (d.c == 3), "the rotation matrix is 3x3");
    let mut i = 0;
    while i < 9 { same(d.e[i], t[i], "the rotation matrix is the one of the quaternion"); i += 1; }
    let (e, v) = vec3();
    let r = snap_v(&good(a.rotate(&v)));
    let mut w = good(v.duplicate());
    good(a.rotate_in_place(&mut w));
    let w = snap_v(&w);
    let p = ham(&ham(&q, &[0.0, e[0], e[1], e[2]]), &[q[0], -q[1], -q[2], -q[3]]);
    let mut i = 0;
    while i < 3 {
        let x = d.e[3 * i] * e[0] + d.e[3 * i + 1] * e[1] + d.e[3 * i + 2] * e[2];
        same(r.e[i], x, SAME_TURN);
        same(w.e[i], x, SAME_TURN);
        same(p[i + 1], x, SAME_TURN);
        i += 1;
    }
    same(r.e[0] * r.e[0] + r.e[1] * r.e[1] + r.e[2] * r.e[2], e[0] * e[0] + e[1] * e[1] + e[2] * e[2], "rotating keeps the length");
    unchanged(&Snap { init: true, r: 3, c: 1, e: pad(&e) }, &snap_v(&v), READ_ONLY);
    unchanged(&Snap { init: true, r: 4, c: 1, e: pad(&q) }, &snap_v(&a), READ_ONLY);
    reach("turned");
}

fn pad(e: &[f32]) -> [f32; 16] {
    let mut o = [0.0; 16];
    let mut i = 0;
    while i < e.len() { o[i] = e[i]; i += 1; }
    o
}

/// The rotation matrix is orthonormal with determinant one, and products go over to products.
#[no_mangle]
pub fn c17_group() {
    let q = unit::<4>();
    let d = snap_m(&good(quat(&q).convert_to_dcm()));
    if choose(2) == 0 {
        let mut i = 0;
        while i < 3 {
            let mut j = 0;
            while j < 3 {
                let x = at(&d, i, 0) * at(&d, j, 0) + at(&d, i, 1) * at(&d, j, 1) + at(&d, i, 2) * at(&d, j, 2);
                same(x, if i == j { 1.0 } else { 0.0 }, "the rotation matrix is orthonormal");
                j += 1;
            }
            i += 1;
        }
        same(crate::dec::det_ref(3, &d.e), 1.0, "the rotation matrix does not mirror");
        reach("orthonormal");
    } else {
        let p = unit::<4>();
        let f = snap_m(&good(quat(&p).convert_to_dcm()));
        let g = snap_m(&good(good(Quaternion::mul_new(&quat(&q), &quat(&p))).convert_to_dcm()));
        let mut i = 0;
        while i < 3 {
            let mut j = 0;
            while j < 3 {
                same(at(&g, i, j), at(&d, i, 0) * at(&f, 0, j) + at(&d, i, 1) * at(&f, 1, j) + at(&d, i, 2) * at(&f, 2, j), "the matrix of a product is the product of the matrices");
                j += 1;
            }
            i += 1;
        }
        reach("product");
    }
}

/// Rotations about a coordinate axis (any angle off 0 and a half turn): logarithm and adjugate.
#[no_mangle]
pub fn c17_log() {
    let k = choose(3) as usize;
    let u = unit::<2>();
    assume(u[1] * u[1] >= 0.01);
    let (i, j) = ((k + 1) % 3, (k + 2) % 3);
    let mut e = [0.0; 9];
    e[k * 4] = 1.0;
    e[i * 4] = u[0];
    e[j * 4] = u[0];
    e[i * 3 + j] = -u[1];
    e[j * 3 + i] = u[1];
    logarithm(&e, k);
}

fn logarithm(e: &[f32; 9], k: usize) {
    let mut m = mat_of(3, 3, &e[..]);
    let s = snap_m(&m);
    let l = snap_m(&good(m.log()));
    unchanged(&s, &snap_m(&m), READ_ONLY);
    let mut n = good(m.duplicate());
    good(n.log_in_place());
    let n = snap_m(&n);
    let (i, j) = ((k + 1) % 3, (k + 2) % 3);
    let mut z = 0;
    while z < 9 {
        close(l.e[z], n.e[z], 0.01, "both forms of the logarithm agree");
        if z != i * 3 + j && z != j * 3 + i { close(l.e[z], 0.0, 0.01, "the logarithm is the axis times the angle"); }
        z += 1;
    }
    let a = l.e[j * 3 + i];
    close(l.e[i * 3 + j], -a, 0.01, "the logarithm is skew-symmetric");
    close(libm::cosf(a), e[i * 4], 0.01, "the logarithm is the axis times the angle");
    close(libm::sinf(a), e[j * 3 + i], 0.01, "the logarithm is the axis times the angle");
    check((a <= 3.15) & (a >= -3.15), "the angle is at most a half turn");
    good(m.adjugate_in_place());
    let m = snap_m(&m);
    let mut z = 0;
    while z < 9 { same(m.e[z], s.e[(z % 3) * 3 + z / 3], "the adjugate of a rotation is its transpose"); z += 1; }
    reach("logarithm");
}

fn same_up_to_sign(a: &[f32; 4], b: &[f32; 4], id: &str) {
    // a = b or a = -b: all products agree
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j <= i { close(a[i] * a[j], b[i] * b[j], 0.01, id); j += 1; }
        i += 1;
    }
}

fn parts(v: &Vector<f32>) -> [f32; 4] { let s = snap_v(v); [s.e[0], s.e[1], s.e[2], s.e[3]] }

/// From the rotation matrix back to the quaternion.
#[no_mangle]
pub fn c18_chiaverini() {
    let q = unit::<4>();
    assume(q[0] * q[0] >= 0.001);
    let m = mat_of(3, 3, &turn(&q)[..]);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    good(o.chiaverini(&m));
    same_up_to_sign(&parts(&o), &q, "the conversion gives the quaternion back");
    reach("converted");
}

#[no_mangle]
pub fn c18_hughes() {
    let q = unit::<4>();
    assume(q[0] * q[0] >= 0.001);
    let m = mat_of(3, 3, &turn(&q)[..]);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    good(o.hughes(&m));
    same_up_to_sign(&parts(&o), &[q[0], -q[1], -q[2], -q[3]], "the conversion gives the conjugate quaternion back");
    reach("converted");
}

/// Half turns: the real part vanishes and the magnitudes of the others are found.
#[no_mangle]
pub fn c18_half() {
    let q = unit::<3>();
    let m = mat_of(3, 3, &turn(&[0.0, q[0], q[1], q[2]])[..]);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    if choose(2) == 0 { good(o.hughes(&m)); } else { good(o.chiaverini(&m)); }
    let o = parts(&o);
    close(o[0], 0.0, 0.01, "the real part of a half turn is zero");
    let mut i = 0;
    while i < 3 { close(o[i + 1] * o[i + 1], q[i] * q[i], 0.01, "the conversion of a half turn gives the magnitude of every component"); i += 1; }
    reach("converted");
}

/// The half turn about (0.6, -0.8, 0), whose components differ in sign.
#[no_mangle]
pub fn c18_half_signs() {
    let m = mat_of(3, 3, &turn(&[0.0, 0.6, -0.8, 0.0])[..]);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    if choose(2) == 0 { good(o.hughes(&m)); } else { good(o.chiaverini(&m)); }
    let o = parts(&o);
    close(o[1] * o[2], -0.48, 0.01, "the components of the half turn keep their relative signs");
    reach("converted");
}

#[no_mangle]
pub fn c18_sarabandi() {
    let q = unit::<4>();
    let m = mat_of(3, 3, &turn(&q)[..]);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    let eta = if choose(2) == 0 { None } else { Some(range(-0.5, 0.5)) };
    good(o.sarabandi(&m, eta));
    let p = parts(&o);
    let mut i = 0;
    while i < 4 {
        close(p[i] * p[i], q[i] * q[i], 0.01, "the conversion gives the magnitude of every component");
        check(p[i] >= 0.0, "the conversion gives the magnitude of every component");
        i += 1;
    }
    reach("converted");
}

/// Matrices near a rotation never make a conversion fail.
#[no_mangle]
pub fn c18_total() {
    let w = choose(2);
    let m = mat_sym(3, 3);
    let s = snap_m(&m);
    let mut o = vec_of(&[fin(), fin(), fin(), fin()][..]);
    let mut i = 0;
    while i < 9 { assume((s.e[i] >= -1.01) & (s.e[i] <= 1.01)); i += 1; }
    let r = if w == 0 { o.chiaverini(&m) } else { o.hughes(&m) };
    check(r.is_ok(), "a matrix off by rounding is converted");
    reach("converted");
}

/// Euler angles: composing them gives the rotation back.
#[no_mangle]
pub fn c19_compose() {
    let q = unit::<4>();
    let t = turn(&q);
    assume(t[6] <= 0.995);
    assume(t[6] >= -0.995);
    let (phi, theta, psi) = good(quat(&q).convert_to_euler());
    let (cf, sf) = (libm::cosf(phi), libm::sinf(phi));
    let (ct, st) = (libm::cosf(theta), libm::sinf(theta));
    let (cp, sp) = (libm::cosf(psi), libm::sinf(psi));
    let e = [cp * ct, cp * st * sf - sp * cf, cp * st * cf + sp * sf,
             sp * ct, sp * st * sf + cp * cf, sp * st * cf - cp * sf,
             -st, ct * sf, ct * cf];
    let mut i = 0;
    while i < 9 { close(e[i], t[i], 0.01, "the angles compose to the rotation"); i += 1; }
    reach("composed");
}

/// Any quaternion of nearly unit length has finite angles.
#[no_mangle]
pub fn c19_finite() {
    let q = [range(-1.001, 1.001), range(-1.001, 1.001), range(-1.001, 1.001), range(-1.001, 1.001)];
    let n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    assume((n >= 0.999) & (n <= 1.001));
    let (phi, theta, psi) = good(quat(&q).convert_to_euler());
    check((phi <= 3.15) & (phi >= -3.15), "roll is finite");
    check((theta <= 1.58) & (theta >= -1.58), "pitch stays within a quarter turn");
    check((psi <= 3.15) & (psi >= -3.15), "yaw is finite");
    reach("finite");
}

/// The exponential.
#[no_mangle]
pub fn c20_exp() {
    let real = choose(2) == 1;
    let w = range(-2.0, 2.0);
    let q = if real { [w, 0.0, 0.0, 0.0] } else { [w, range(-2.0, 2.0), range(-2.0, 2.0), range(-2.0, 2.0)] };
    let n2 = q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    if !real { assume(n2 >= 0.01); }
    let a = quat(&q);
    let b = parts(&good(a.exp_new()));
    let mut c = quat(&q);
    good(c.exp());
    let c = parts(&c);
    let n = libm::sqrtf(n2);
    let x = libm::expf(w);
    if real {
        let want = [x, 0.0, 0.0, 0.0];
        close4(&b, &want, 0.02, "the exponential of a real quaternion is that of the number");
        close4(&c, &want, 0.02, "the exponential of a real quaternion is that of the number");
        reach("real");
    } else {
        let k = x * libm::sinf(n) / n;
        let want = [x * libm::cosf(n), k * q[1], k * q[2], k * q[3]];
        close4(&b, &want, 0.02, "the exponential is the series");
        close4(&c, &want, 0.02, "the exponential is the series");
        reach("general");
    }
    unchanged(&Snap { init: true, r: 4, c: 1, e: pad(&q) }, &snap_v(&a), READ_ONLY);
}

/// Linear interpolation.
#[no_mangle]
pub fn c21_lerp() {
    let n = 1 + choose(4);
    let (u, v) = (vec_sym(n), vec_sym(n));
    let (s, t) = (snap_v(&u), snap_v(&v));
    let a = range(-4.0, 4.0);
    let mut o = vec_sym(n);
    match o.lerp(&u, &v, a) {
        Ok(()) => {
            check((a >= -1e-5) & (a <= 1.00001), "a parameter outside [0, 1] is refused");
            let o = snap_v(&o);
            let mut i = 0;
            while i < n as usize { same(o.e[i], (1.0 - a) * s.e[i] + a * t.e[i], "the point divides the segment at the parameter"); i += 1; }
            reach("interpolated");
        }
        Err(_) => {
            check((a < 1e-5) | (a > 0.99999), "a parameter inside [0, 1] is accepted");
            reach("refused");
        }
    }
    unchanged(&s, &snap_v(&u), READ_ONLY);
    unchanged(&t, &snap_v(&v), READ_ONLY);
}

/// Spherical interpolation between unit vectors that are neither equal nor opposite.
#[no_mangle]
pub fn c21_slerp() {
    let n = 2 + choose(3);
    // an orthonormal pair u, p and the second vector d*u + s*p
    let (x, p) = match n {
        2 => { let u = unit::<2>(); (pad(&u), pad(&[-u[1], u[0]])) }
        3 => { let t = turn(&unit::<4>()); (pad(&[t[0], t[3], t[6]]), pad(&[t[1], t[4], t[7]])) }
        _ => { let (u, v) = (unit::<4>(), unit::<3>()); (pad(&u), pad(&ham(&u, &[0.0, v[0], v[1], v[2]]))) }
    };
    let f = unit::<2>();
    let d = f[0];
    assume(f[1] >= 0.1);
    let mut y = [0.0; 16];
    let mut i = 0;
    while i < 4 { y[i] = d * x[i] + f[1] * p[i]; i += 1; }
    let (u, v) = (vec_of(&x[..n as usize]), vec_of(&y[..n as usize]));
    let (s, t) = (snap_v(&u), snap_v(&v));
    let e = choose(4);
    let a = match e { 0 => 0.0, 1 => 1.0, 2 => 0.5, _ => range(0.0, 1.0) };
    let mut o = vec_sym(n);
    match o.slerp(&u, &v, a) {
        Ok(()) => {
            let o = snap_v(&o);
            let mut i = 0;
            let (mut l, mut c) = (0.0, 0.0);
            while i < n as usize {
                l += o.e[i] * o.e[i];
                c += o.e[i] * x[i];
                if e == 0 { close(o.e[i], x[i], 0.01, "0 gives the first end point"); }
                if e == 1 { close(o.e[i], y[i], 0.01, "1 gives the second end point"); }
                i += 1;
            }
            close(l, 1.0, 0.01, "the interpolated vector is a unit vector");
            close(c, libm::cosf(a * libm::acosf(d)), 0.01, "the interpolated vector is at its fraction of the arc");
            reach("interpolated");
        }
        Err(_) => check(false, "unit vectors that are neither equal nor opposite are interpolated"),
    }
    unchanged(&s, &snap_v(&u), READ_ONLY);
    unchanged(&t, &snap_v(&v), READ_ONLY);
}

/// A parameter outside [0, 1] is refused by the spherical form too.
#[no_mangle]
pub fn c21_slerp_range() {
    let n = 1 + choose(4);
    let (u, v) = (vec_sym(n), vec_sym(n));
    let a = range(-4.0, 4.0);
    if choose(2) == 0 { assume(a < -1e-5); } else { assume(a > 1.00001); }
    let mut o = vec_sym(n);
    let s = snap_v(&o);
    check(matches!(o.slerp(&u, &v, a), Err(LinalgError::InvalidAlpha)), "a parameter outside [0, 1] is refused");
    unchanged(&s, &snap_v(&o), "a refused interpolation leaves the vector as it was");
    reach("refused");
}

/// Equal unit vectors interpolate to themselves.
#[no_mangle]
pub fn c21_equal() {
    let n = 1 + choose(4);
    let x = match n { 1 => pad(&[1.0]), 2 => pad(&unit::<2>()), 3 => pad(&unit::<3>()), _ => pad(&unit::<4>()) };
    let u = vec_of(&x[..n as usize]);
    let v = vec_of(&x[..n as usize]);
    let mut o = vec_sym(n);
    match o.slerp(&u, &v, range(0.0, 1.0)) {
        Ok(()) => {
            let o = snap_v(&o);
            let mut i = 0;
            while i < n as usize { close(o.e[i], x[i], 0.01, "equal unit vectors interpolate to themselves"); i += 1; }
            reach("equal");
        }
        Err(_) => check(false, "equal unit vectors interpolate to themselves"),
    }
}
