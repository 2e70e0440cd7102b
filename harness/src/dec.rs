//! Determinants (C10), solving and inverting (C11), triangular factorisations (C12), QR (C13) in real-number semantics.
use crate::alg::*;
use crate::api::*;
use crate::world::*;
use linalg::common::LinalgError;
use linalg::linalg::{lup, solve};
use linalg::matrix::Matrix;

/// Determinant by expansion along the first column.
pub fn det_ref(n: u8, e: &[f32; 16]) -> f32 {
    let a = |i: u8, j: u8| e[(i * n + j) as usize];
    let d2 = |r: u8, s: u8, i: u8, j: u8| a(r, i) * a(s, j) - a(r, j) * a(s, i);
    let d3 = |r: u8, s: u8, t: u8, i: u8, j: u8, k: u8| a(r, i) * d2(s, t, j, k) - a(s, i) * d2(r, t, j, k) + a(t, i) * d2(r, s, j, k);
    match n {
        1 => a(0, 0),
        2 => d2(0, 1, 0, 1),
        3 => d3(0, 1, 2, 0, 1, 2),
        _ => a(0, 0) * d3(1, 2, 3, 1, 2, 3) - a(1, 0) * d3(0, 2, 3, 1, 2, 3) + a(2, 0) * d3(0, 1, 3, 1, 2, 3) - a(3, 0) * d3(0, 1, 2, 1, 2, 3),
    }
}

/// The p-th permutation of 0..n.
pub fn perm(n: u8, p: u8) -> [u8; 4] {
    let mut left = [0u8, 1, 2, 3];
    let mut out = [0u8; 4];
    let mut x = p;
    let mut i = 0;
    while i < n {
        let k = (x % (n - i)) as usize;
        x /= n - i;
        out[i as usize] = left[k];
        let mut j = k;
        while j < 3 { left[j] = left[j + 1]; j += 1; }
        i += 1;
    }
    out
}

pub fn fact(n: u8) -> u8 { match n { 1 => 1, 2 => 2, 3 => 6, _ => 24 } }

/// A permutation matrix scaled by symbolic factors of either sign and magnitude 0.5..4.
pub fn scaled_perm(n: u8) -> Matrix {
    let p = perm(n, choose(fact(n)));
    let mut m = mat_new(n, n);
    let mut i = 0;
    while i < n {
        let k = range(-4.0, 4.0);
        assume(k * k >= 0.25);
        ok(m.set_element(i, p[i as usize], k));
        i += 1;
    }
    m
}

#[no_mangle]
pub fn c10_naive() {
    let n = 1 + choose(4);
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    same(good(m.det_naive()), det_ref(n, &s.e), "the determinant is the Leibniz sum");
    unchanged(&s, &snap_m(&m), READ_ONLY);
    reach("determinant");
}

#[no_mangle]
pub fn c10_det() {
    let n = 1 + choose(4);
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    match m.det() {
        Ok(d) => {
            same(d, det_ref(n, &s.e), "the determinant is the Leibniz sum");
            reach("determinant");
        }
        Err(e) => {
            check(matches!(e, LinalgError::Singular), "the only refusal of a square matrix is for singularity");
            let d = det_ref(n, &s.e);
            if n < 3 { check((d < 0.0017) & (d > -0.0017), "singularity is reported only for a nearly singular matrix"); }
            reach("singular");
        }
    }
    unchanged(&s, &snap_m(&m), READ_ONLY);
}

#[no_mangle]
pub fn c10_perm() {
    let n = 1 + choose(4);
    let m = scaled_perm(n);
    let s = snap_m(&m);
    same(good(m.det()), det_ref(n, &s.e), "the determinant is the Leibniz sum");
    reach("determinant");
}

fn residual(n: u8, a: &Snap, x: &Snap, b: &Snap) {
    let mut i = 0;
    while i < n {
        let mut s = 0.0;
        let mut j = 0;
        while j < n { s += at(a, i, j) * x.e[j as usize]; j += 1; }
        same(s, b.e[i as usize], "the solution satisfies the system");
        i += 1;
    }
}

fn identity_product(n: u8, a: &Snap, b: &Snap) {
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            let mut s = 0.0;
            let mut k = 0;
            while k < n { s += at(a, i, k) * at(b, k, j); k += 1; }
            same(s, if i == j { 1.0 } else { 0.0 }, "the inverse times the matrix is the identity");
            j += 1;
        }
        i += 1;
    }
}

#[no_mangle]
pub fn c11_solve() {
    let n = 1 + choose(4);
    let m = mat_sym(n, n);
    let b = vec_sym(n);
    let (s, t) = (snap_m(&m), snap_v(&b));
    let r = lup(&m).and_then(|(lu, p)| solve(&lu, &b, &p));
    match r {
        Ok(x) => {
            residual(n, &s, &snap_v(&x), &t);
            reach("solved");
        }
        Err(e) => {
            check(matches!(e, LinalgError::Singular | LinalgError::Unsolvable), "the only refusal is for a matrix that has no usable pivot");
            let d = det_ref(n, &s.e);
            if n < 3 { check((d < 0.0017) & (d > -0.0017), "only a nearly singular matrix is refused"); }
            reach("refused");
        }
    }
    unchanged(&s, &snap_m(&m), READ_ONLY);
    unchanged(&t, &snap_v(&b), READ_ONLY);
}

#[no_mangle]
pub fn c11_invert() {
    let n = 1 + choose(4);
    let mut m = mat_sym(n, n);
    let s = snap_m(&m);
    match m.invert() {
        Ok(()) => {
            identity_product(n, &s, &snap_m(&m));
            reach("inverted");
        }
        Err(e) => {
            check(matches!(e, LinalgError::NotInversible), "the only refusal is for a matrix that cannot be inverted");
            let d = det_ref(n, &s.e);
            if n < 3 { check((d < 0.0017) & (d > -0.0017), "only a nearly singular matrix is refused"); }
            unchanged(&s, &snap_m(&m), "a refused inversion leaves the matrix unchanged");
            reach("refused");
        }
    }
}

#[no_mangle]
pub fn c11_perm() {
    let n = 1 + choose(4);
    let mut m = scaled_perm(n);
    let b = vec_sym(n);
    let (s, t) = (snap_m(&m), snap_v(&b));
    let (lu, p) = good(lup(&m));
    let x = good(solve(&lu, &b, &p));
    residual(n, &s, &snap_v(&x), &t);
    good(m.invert());
    identity_product(n, &s, &snap_m(&m));
    reach("solved");
}

/// Leading principal minor of order k.
pub fn minor(n: u8, e: &[f32; 16], k: u8) -> f32 {
    let mut t = [0.0; 16];
    let mut i = 0;
    while i < k {
        let mut j = 0;
        while j < k { t[(i * k + j) as usize] = e[(i * n + j) as usize]; j += 1; }
        i += 1;
    }
    det_ref(k, &t)
}

/// Assume every leading minor at least a quarter in magnitude (either sign).
fn solid_minors(n: u8, e: &[f32; 16]) {
    let mut k = 1;
    while k <= n {
        let d = minor(n, e, k);
        if choose(2) == 0 { assume(d >= 0.25); } else { assume(d <= -0.25); }
        k += 1;
    }
}

fn product_is(n: u8, l: &Snap, u: &Snap, a: &Snap) {
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            let mut s = 0.0;
            let mut k = 0;
            while k < n { s += at(l, i, k) * at(u, k, j); k += 1; }
            same(s, at(a, i, j), "the factors multiply back to the matrix");
            j += 1;
        }
        i += 1;
    }
}

fn triangular(n: u8, s: &Snap, lower: bool, unit: bool) {
    check((s.r == n) & (s.c == n), "the factors have the size of the matrix");
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            if if lower { j > i } else { j < i } { same(at(s, i, j), 0.0, "the factors are triangular"); }
            if unit && i == j { same(at(s, i, j), 1.0, "the first factor has a unit diagonal"); }
            j += 1;
        }
        i += 1;
    }
}

pub fn factorise(which: u8, m: &Matrix) -> Result<(Matrix, Matrix), LinalgError> {
    if which == 0 { m.lr() } else { m.lu_crout() }
}

#[no_mangle]
pub fn c12_product() {
    let which = choose(2);
    let n = 1 + choose(4);
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    if let Ok((l, u)) = factorise(which, &m) {
        let (l, u) = (snap_m(&l), snap_m(&u));
        triangular(n, &l, true, true);
        triangular(n, &u, false, false);
        product_is(n, &l, &u, &s);
        reach("factorised");
    }
    unchanged(&s, &snap_m(&m), READ_ONLY);
}

#[no_mangle]
pub fn c12_accept() {
    let which = choose(2);
    let n = 1 + choose(4);
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    solid_minors(n, &s.e);
    check(factorise(which, &m).is_ok(), "a matrix with solid leading minors is factorised");
    reach("accepted");
}

pub fn symmetric(n: u8) -> Matrix {
    let mut m = mat_new(n, n);
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j <= i {
            let x = fin();
            ok(m.set_element(i, j, x));
            ok(m.set_element(j, i, x));
            j += 1;
        }
        i += 1;
    }
    m
}

#[no_mangle]
pub fn c12_chol() {
    let n = 1 + choose(if thorough() { 4 } else { 3 });
    let m = symmetric(n);
    let s = snap_m(&m);
    match m.chol() {
        Ok(l) => {
            let l = snap_m(&l);
            triangular(n, &l, true, false);
            let mut u = l;
            let mut i = 0;
            while i < n {
                let mut j = 0;
                while j < n { u.e[(i * n + j) as usize] = at(&l, j, i); j += 1; }
                i += 1;
            }
            product_is(n, &l, &u, &s);
            let mut k = 1;
            while k <= n { check(minor(n, &s.e, k) > 0.0, "a matrix that is not positive definite is refused"); k += 1; }
            reach("factorised");
        }
        Err(e) => {
            check(matches!(e, LinalgError::NotPositiveDefinite | LinalgError::Singular), "the refusal names the reason");
            reach("refused");
        }
    }
    unchanged(&s, &snap_m(&m), READ_ONLY);
}

/// A positive definite matrix and the triangular factor it is built from.
pub fn from_factor(n: u8) -> (Matrix, [f32; 16]) {
    let mut l = [0.0; 16];
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j <= i { l[(i * n + j) as usize] = if i == j { range(0.5, 2.0) } else { range(-2.0, 2.0) }; j += 1; }
        i += 1;
    }
    let mut m = mat_new(n, n);
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < n {
            let mut x = 0.0;
            let mut k = 0;
            while k < n { x += l[(i * n + k) as usize] * l[(j * n + k) as usize]; k += 1; }
            ok(m.set_element(i, j, x));
            j += 1;
        }
        i += 1;
    }
    (m, l)
}

#[no_mangle]
pub fn c12_chol_accept() {
    let n = 1 + choose(if thorough() { 4 } else { 3 });
    let (m, l) = from_factor(n);
    match m.chol() {
        Ok(f) => {
            let f = snap_m(&f);
            let mut i = 0;
            while i < n * n { close(f.e[i as usize], l[i as usize], 0.02, "the Cholesky factor is the one the matrix was built from"); i += 1; }
            reach("accepted");
        }
        Err(_) => check(false, "a symmetric positive definite matrix is factorised"),
    }
}

/// Matrices of size 4 given by a triangular factor with a full last row, a full first column, two coupled pairs,
/// a coupled chain, a coupled 2x2 corner or a full lower 3x3 block.
#[no_mangle]
pub fn c12_chol_four() {
    let shape = choose(6);
    let mut l = [0.0; 16];
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j <= i {
            let full = match shape { 0 => i == 3, 1 => j == 0, 2 => (i - j) == 2, 3 => i == j + 1, 4 => j < 2 && i > 1, _ => i > 0 && j > 0 };
            l[(i * 4 + j) as usize] = if i == j { range(0.5, 2.0) } else if full { range(-2.0, 2.0) } else { 0.0 };
            j += 1;
        }
        i += 1;
    }
    let mut m = mat_new(4, 4);
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            let mut x = 0.0;
            let mut k = 0;
            while k < 4 { x += l[(i * 4 + k) as usize] * l[(j * 4 + k) as usize]; k += 1; }
            ok(m.set_element(i, j, x));
            j += 1;
        }
        i += 1;
    }
    match m.chol() {
        Ok(f) => {
            let f = snap_m(&f);
            let mut i = 0;
            while i < 16 { close(f.e[i as usize], l[i as usize], 0.02, "the Cholesky factor is the one the matrix was built from"); i += 1; }
            reach("accepted");
        }
        Err(_) => check(false, "a symmetric positive definite matrix is factorised"),
    }
}

#[no_mangle]
pub fn c12_chol_refuse() {
    let n = 2 + choose(3);
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    let i = 1 + choose(n - 1);
    let j = choose(i);
    let d = at(&s, i, j) - at(&s, j, i);
    if choose(2) == 0 { assume(d > 0.001); } else { assume(d < -0.001); }
    check(m.chol().is_err(), "a matrix that is not symmetric is refused");
    reach("refused");
}

/// Matrices of size 4 that are a fixed orthogonal matrix times an arbitrary triangular one.
#[no_mangle]
pub fn c13_four() {
    let which = choose(3);
    // the identity, a cyclic shift, and a matrix without zeros
    let mut h = [0.0f32; 16];
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            h[(i * 4 + j) as usize] = match which {
                0 => if i == j { 1.0 } else { 0.0 },
                1 => if (i + 1) % 4 == j { 1.0 } else { 0.0 },
                _ => if ((i & j & 1) + ((i & j) >> 1)) % 2 == 1 { -0.5 } else { 0.5 },
            };
            j += 1;
        }
        i += 1;
    }
    let mut t = [0.0f32; 16];
    let mut i = 0;
    while i < 4 {
        let mut j = i;
        while j < 4 { t[(i * 4 + j) as usize] = if i == j { range(0.5, 2.0) } else { range(-2.0, 2.0) }; j += 1; }
        i += 1;
    }
    let mut m = mat_new(4, 4);
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            let mut x = 0.0;
            let mut k = 0;
            while k <= j { x += h[(i * 4 + k) as usize] * t[(k * 4 + j) as usize]; k += 1; }
            ok(m.set_element(i, j, x));
            j += 1;
        }
        i += 1;
    }
    let (q, u) = good(m.qr_decomp());
    let (q, u) = (snap_m(&q), snap_m(&u));
    let mut i = 0;
    while i < 16 {
        // the diagonal of the triangular factor is positive, which makes the factors unique up to the sign of each column
        let (r, c) = (i / 4, i % 4);
        let (s, z) = (if at(&q, 0, c) * h[c as usize] + at(&q, 1, c) * h[4 + c as usize] + at(&q, 2, c) * h[8 + c as usize] + at(&q, 3, c) * h[12 + c as usize] < 0.0 { -1.0 } else { 1.0 },
            if at(&u, r, r) < 0.0 { -1.0 } else { 1.0 });
        close(s * at(&q, r, c), h[i as usize], 0.001, "Q is the orthogonal factor the matrix was built from");
        close(z * at(&u, r, c), t[i as usize], 0.001, "R is the triangular factor the matrix was built from");
        i += 1;
    }
    reach("decomposed");
}

#[no_mangle]
pub fn c13_qr() {
    let (r, c) = match choose(10) { 0 => (1, 1), 1 => (2, 1), 2 => (3, 1), 3 => (4, 1), 4 => (2, 2), 5 => (3, 2), 6 => (4, 2), 7 => (3, 3), 8 => (4, 3), _ => (4, 4) };
    let mut m = mat_sym(r, c);
    let woven = r == 4 && c == 4;
    if woven {
        // two interleaved 2x2 blocks
        let mut i = 0;
        while i < 16 { if (i / 4 + i) % 2 == 1 { ok(m.set_element(i / 4, i % 4, 0.0)); } i += 1; }
    }
    let s = snap_m(&m);
    // Gram matrix of the columns
    let mut g = [0.0; 16];
    let mut i = 0;
    while i < c {
        let mut j = 0;
        while j < c {
            let mut x = 0.0;
            let mut k = 0;
            while k < r { x += at(&s, k, i) * at(&s, k, j); k += 1; }
            g[(i * c + j) as usize] = x;
            j += 1;
        }
        i += 1;
    }
    let mut k = 1;
    while k <= c {
        if woven {
            if k % 2 == 0 {
                let o = (k / 2 - 1) * 5;
                let d = s.e[o as usize] * s.e[o as usize + 10] - s.e[o as usize + 2] * s.e[o as usize + 8];
                if choose(2) == 0 { assume(d >= 0.5); } else { assume(d <= -0.5); }
            }
        } else if k == r {
            let d = det_ref(r, &s.e);
            if choose(2) == 0 { assume(d >= 0.5); } else { assume(d <= -0.5); }
        } else { assume(minor(c, &g, k) >= 0.25); }
        k += 1;
    }
    let (q, u) = good(m.qr_decomp());
    let (q, u) = (snap_m(&q), snap_m(&u));
    check((q.r == r) & (q.c == c) & (u.r == c) & (u.c == c), "the factors have the defined sizes");
    let mut i = 0;
    while i < c {
        let mut j = 0;
        while j < c {
            let mut x = 0.0;
            let mut k = 0;
            while k < r { x += at(&q, k, i) * at(&q, k, j); k += 1; }
            same(x, if i == j { 1.0 } else { 0.0 }, "the columns of Q are orthonormal");
            if j < i { same(at(&u, i, j), 0.0, "R is upper triangular"); }
            j += 1;
        }
        i += 1;
    }
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c {
            let mut x = 0.0;
            let mut k = 0;
            while k < c { x += at(&q, i, k) * at(&u, k, j); k += 1; }
            same(x, at(&s, i, j), "Q times R is the matrix");
            j += 1;
        }
        i += 1;
    }
    unchanged(&s, &snap_m(&m), READ_ONLY);
    reach("decomposed");
}
