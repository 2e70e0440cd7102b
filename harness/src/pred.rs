//! Matrix predicates (C14) and eigen-decomposition (C15), real-number semantics.
use crate::alg::*;
use crate::api::*;
use crate::dec::*;
use crate::world::*;
use linalg::linalg::eigen;
use linalg::matrix::Matrix;

/// Conjunction over the sixteen positions, without branching on the parts.
pub fn all16<F: Fn(u8) -> bool>(f: F) -> bool {
    f(0) & f(1) & f(2) & f(3) & f(4) & f(5) & f(6) & f(7) & f(8) & f(9) & f(10) & f(11) & f(12) & f(13) & f(14) & f(15)
}

/// Element (i, j), anything if there is none.
fn cell(s: &Snap, i: u8, j: u8) -> f32 { s.e[((i * s.c + j) & 15) as usize] }

/// Every pair below the diagonal within t of its mirror image.
pub fn mirrored(s: &Snap, t: f32) -> bool {
    all16(|k| (k / 4 >= s.r) | (k % 4 >= k / 4) | inside(cell(s, k / 4, k % 4), cell(s, k % 4, k / 4), t))
}

/// Every element strictly below (or above) the diagonal within t of zero.
fn cleared(s: &Snap, below: bool, t: f32) -> bool {
    all16(|k| (k / 4 >= s.r) | (k % 4 >= s.c) | (if below { k % 4 >= k / 4 } else { k % 4 <= k / 4 }) | inside(cell(s, k / 4, k % 4), 0.0, t))
}

#[no_mangle]
pub fn c14_shape() {
    let op = choose(4);
    let (r, c) = (1 + choose(4), 1 + choose(4));
    let m = mat_sym(r, c);
    let s = snap_m(&m);
    match op {
        0 => {
            let said = good(m.is_symmetric());
            if r == c { agree(said, mirrored(&s, IN), mirrored(&s, OUT), "a symmetric matrix equals its transpose"); }
            else { check(!said, "a matrix that is not square is not symmetric"); }
        }
        1 => agree(good(m.is_upper_triangular()), cleared(&s, true, IN), cleared(&s, true, OUT), "an upper triangular matrix has nothing below the diagonal"),
        2 => agree(good(m.is_lower_triangular()), cleared(&s, false, IN), cleared(&s, false, OUT), "a lower triangular matrix has nothing above the diagonal"),
        _ => {
            check(good(m.is_square()) == (r == c), "square means as many rows as columns");
            let (p, q) = (1 + choose(4), 1 + choose(4));
            let o = mat_sym(p, q);
            check(good(m.is_same_size_as(&o)) == ((r == p) & (c == q)), "same size means both dimensions agree");
            let (u, v) = (vec_sym(r), vec_sym(p));
            check(good(u.is_same_size_as(&v)) == (r == p), "same size means both dimensions agree");
        }
    }
    unchanged(&s, &snap_m(&m), "a question never modifies the matrix");
}

#[no_mangle]
pub fn c14_equal() {
    let (r, c) = (1 + choose(4), 1 + choose(4));
    let a = mat_sym(r, c);
    let b = mat_sym(r, c);
    let (s, t) = (snap_m(&a), snap_m(&b));
    let (lo, d, hi) = (fin(), fin(), fin());
    assume((0.0 <= d) & (lo < d) & (d < hi));
    let same_by = |k: f32| all16(|i| (i >= r * c) | inside(s.e[i as usize], t.e[i as usize], k));
    agree(good(a.is_equal_to(&b, d)), same_by(lo), same_by(hi), "equal within a deviation means every element is");
    if c == 1 {
        let (u, v) = (good(a.col_to_vector(0)), good(b.col_to_vector(0)));
        agree(good(u.is_equal_to(&v, d)), same_by(lo), same_by(hi), "equal within a deviation means every element is");
        unchanged(&s, &snap_v(&u), "a question never modifies the vector");
    }
    unchanged(&s, &snap_m(&a), "a question never modifies the matrix");
    unchanged(&t, &snap_m(&b), "a question never modifies the matrix");
}

/// Every element of M Mt within t of the identity.
fn orthonormal(s: &Snap, t: f32) -> bool {
    let g = gram(s);
    all16(|k| (k / 4 >= s.r) | (k % 4 > k / 4) | inside(g[k as usize], if k / 4 == k % 4 { 1.0 } else { 0.0 }, t))
}

/// M Mt, four to a row.
fn gram(s: &Snap) -> [f32; 16] {
    let mut g = [0.0; 16];
    let mut i = 0;
    while i < s.r {
        let mut j = 0;
        while j < s.r {
            let mut k = 0;
            while k < s.c { g[(i * 4 + j) as usize] += at(s, i, k) * at(s, j, k); k += 1; }
            j += 1;
        }
        i += 1;
    }
    g
}

/// "Yes" implies the definition, for every square matrix.
#[no_mangle]
pub fn c14_rotation_yes() {
    let so = choose(2) == 1;
    let n = 1 + choose(if thorough() { 4 } else { 3 });
    let m = mat_sym(n, n);
    let s = snap_m(&m);
    let r = if so { m.is_so_n() } else { m.is_orthogonal() };
    if let Ok(true) = r {
        check(orthonormal(&s, OUT), "an orthogonal matrix times its transpose is the identity");
        let d = det_ref(n, &s.e);
        if so { check(inside(d, 1.0, OUT), "a rotation has determinant one"); } else { check(inside(d, 1.0, OUT) | inside(d, -1.0, OUT), "an orthogonal matrix has determinant one or minus one"); }
        reach("yes");
    } else { reach("no"); }
    unchanged(&s, &snap_m(&m), "a question never modifies the matrix");
}

/// Rotation matrix of a unit quaternion (rows one after the other).
pub fn turn(q: &[f32; 4]) -> [f32; 9] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    [w * w + x * x - y * y - z * z, 2.0 * (x * y - w * z), 2.0 * (x * z + w * y),
     2.0 * (x * y + w * z), w * w - x * x + y * y - z * z, 2.0 * (y * z - w * x),
     2.0 * (x * z - w * y), 2.0 * (y * z + w * x), w * w - x * x - y * y + z * z]
}

/// Turn columns i and j of the permutation matrix p in their plane.
fn plane(n: u8, p: &[u8; 4], e: &mut [f32; 16], i: u8, j: u8) {
    let u = unit::<2>();
    let (a, b) = (p[i as usize] * n, p[j as usize] * n);
    e[(a + i) as usize] = u[0];
    e[(a + j) as usize] = -u[1];
    e[(b + i) as usize] = u[1];
    e[(b + j) as usize] = u[0];
}

/// Parity of a permutation.
fn odd(n: u8, p: &[u8; 4]) -> bool {
    let mut k = 0;
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < i { if p[j as usize] > p[i as usize] { k += 1; } j += 1; }
        i += 1;
    }
    k % 2 == 1
}

/// Orthogonal matrices: every one up to 2x2; plane rotations (one of them, or two interleaved) with their rows in any order from there on.
/// They pass, and are rotations exactly when they do not mirror.
#[no_mangle]
pub fn c14_rotation() {
    let n = 1 + choose(4);
    let flip = choose(2) == 1;
    let f = if flip { -1.0 } else { 1.0 };
    let p = perm(n, choose(fact(n)));
    let mut e = [0.0; 16];
    let (r, s) = (n / 2, n - 1);
    let mut i = 0;
    while i < n { e[(p[i as usize] * n + i) as usize] = 1.0; i += 1; }
    if n > 1 { plane(n, &p, &mut e, 0, r); }
    if n > 3 { plane(n, &p, &mut e, 1, s); }
    let mut i = 0;
    while i < n { e[(i * n) as usize] *= f; i += 1; }
    let flip = flip ^ odd(n, &p);
    let m = mat_of(n, n, &e[..(n * n) as usize]);
    let (o, s) = (m.is_orthogonal(), m.is_so_n());
    check(matches!(o, Ok(true)), "an orthogonal matrix is recognised");
    check(matches!(s, Ok(x) if x == !flip), "a rotation is an orthogonal matrix that does not mirror");
    reach("recognised");
}

/// "Yes" implies symmetric with positive leading minors, for every square matrix.
#[no_mangle]
pub fn c14_definite_yes() {
    let n = 1 + choose(if thorough() { 4 } else { 3 });
    let sym = choose(2) == 1;
    let m = if sym { symmetric(n) } else { mat_sym(n, n) };
    let s = snap_m(&m);
    if let Ok(true) = m.is_positive_definite() {
        check(mirrored(&s, OUT), "a positive definite matrix is symmetric");
        let mut k = 1;
        while k <= n { check(minor(n, &s.e, k) > 0.0, "a positive definite matrix has positive leading minors"); k += 1; }
        reach("yes");
    } else { reach("no"); }
    unchanged(&s, &snap_m(&m), "a question never modifies the matrix");
}

/// Every matrix built from a triangular factor with a solid diagonal passes.
#[no_mangle]
pub fn c14_definite() {
    let n = 1 + choose(if thorough() { 4 } else { 3 });
    let m = from_factor(n).0;
    check(matches!(m.is_positive_definite(), Ok(true)), "a positive definite matrix is recognised");
    reach("recognised");
}

/// Size 4: definite or not, from a unit triangular factor and a diagonal with at most one negative entry.
#[no_mangle]
pub fn c14_definite_four() {
    let shape = choose(6);
    let bad = choose(5);
    let (mut l, mut d) = ([0.0; 16], [0.0; 4]);
    let mut i = 0;
    while i < 4 {
        d[i as usize] = if i == bad { range(-2.0, -0.5) } else { range(0.5, 2.0) };
        let mut j = 0;
        while j <= i {
            let full = match shape { 0 => i == 3, 1 => j == 0, 2 => (i - j) == 2, 3 => i == j + 1, 4 => j < 2 && i > 1, _ => i > 0 && j > 0 };
            l[(i * 4 + j) as usize] = if i == j { 1.0 } else if full { range(-2.0, 2.0) } else { 0.0 };
            j += 1;
        }
        i += 1;
    }
    let mut m = mat_new(4, 4);
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            let mut x = 0.0;
            let mut k = 0;
            while k < 4 { x += l[(i * 4 + k) as usize] * d[k as usize] * l[(j * 4 + k) as usize]; k += 1; }
            ok(m.set_element(i, j, x));
            j += 1;
        }
        i += 1;
    }
    let yes = matches!(m.is_positive_definite(), Ok(true));
    if bad == 4 { check(yes, "a positive definite matrix is recognised"); } else { check(!yes, "a matrix with a negative direction is not positive definite"); }
    reach("answered");
}

/// Size 4: an orthogonal matrix, as it is or with one column sheared along another one.
#[no_mangle]
pub fn c14_sheared_four() {
    let so = choose(2) == 1;
    let which = choose(2);
    let (a, b) = (choose(4), choose(4));
    let x = range(-2.0, 2.0);
    let x = if a == b { 0.0 } else { x };
    let mut m = mat_new(4, 4);
    let mut i = 0;
    while i < 4 {
        let mut j = 0;
        while j < 4 {
            let h = |j: u8| if which == 0 { if i == j { 1.0f32 } else { 0.0 } } else if ((i & j & 1) + ((i & j) >> 1)) % 2 == 1 { -0.5 } else { 0.5 };
            ok(m.set_element(i, j, if j == b { h(j) + x * h(a) } else { h(j) }));
            j += 1;
        }
        i += 1;
    }
    if a != b { assume((x > 0.01) | (x < -0.01)); }
    let yes = matches!(if so { m.is_so_n() } else { m.is_orthogonal() }, Ok(true));
    if a == b { check(yes, "an orthogonal matrix is recognised"); } else { check(!yes, "a sheared matrix is not orthogonal"); }
    reach("answered");
}

/// Orthonormal columns, and each value the Rayleigh quotient of its vector.
fn spectrum(n: u8, a: &Snap, v: &Snap, l: &Snap) {
    check((v.r == n) & (v.c == n) & (l.r == n), "as many values and vectors as rows");
    let w = l.e[0] * l.e[0] + l.e[1] * l.e[1] + l.e[2] * l.e[2] + l.e[3] * l.e[3];
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j <= i {
            let (mut d, mut x) = (0.0, 0.0);
            let mut k = 0;
            while k < n {
                d += at(v, k, i) * at(v, k, j);
                let mut h = 0;
                while h < n { x += at(v, k, i) * at(a, k, h) * at(v, h, j); h += 1; }
                k += 1;
            }
            close(d, if i == j { 1.0 } else { 0.0 }, 0.01, "the vectors are orthonormal");
            if i == j { close(x, l.e[i as usize], 0.01, "each value belongs to its vector"); }
            else { check(x * x <= 1.1e-4 * w + 1e-6, "the vectors diagonalise the matrix"); }
            j += 1;
        }
        i += 1;
    }
}

/// Symmetric matrices of full rank; any budget.
#[no_mangle]
pub fn c15_symmetric() {
    let shifted = choose(2) == 1;
    let n = 1 + choose(2);
    let budget = choose(if n == 1 { 4 } else if shifted { 1 } else { 2 });
    let m = symmetric(n);
    let s = snap_m(&m);
    let d = det_ref(n, &s.e);
    if choose(2) == 0 { assume(d >= 0.5); } else { assume(d <= -0.5); }
    match eigen(&m, budget as u16, shifted) {
        Ok((l, v)) => {
            spectrum(n, &s, &snap_m(&v), &snap_v(&l));
            reach("converged");
        }
        Err(_) => reach("refused"),
    }
    unchanged(&s, &snap_m(&m), "the matrix is never modified");
}

fn diagonal(n: u8) -> (Matrix, [f32; 4]) {
    let mut m = mat_new(n, n);
    let mut d = [0.0; 4];
    let mut i = 0;
    while i < n {
        let x = range(-4.0, 4.0);
        assume(x * x >= 0.25);
        ok(m.set_element(i, i, x));
        d[i as usize] = x;
        i += 1;
    }
    (m, d)
}

/// Diagonal matrices of full rank: the values are the entries, whatever the budget beyond two rounds.
#[no_mangle]
pub fn c15_diagonal() {
    let n = 1 + choose(4);
    let budget = choose(5);
    let (m, d) = diagonal(n);
    let s = snap_m(&m);
    match eigen(&m, budget as u16, false) {
        Ok((l, v)) => {
            spectrum(n, &s, &snap_m(&v), &snap_v(&l));
            let mut i = 0;
            while i < n { close(good(l.get_element(i)), d[i as usize], 0.01, "the values of a diagonal matrix are its entries"); i += 1; }
            reach("converged");
        }
        Err(_) => {
            check(budget < 2, "two rounds are enough for a diagonal matrix");
            reach("refused");
        }
    }
}

/// With shifting, as long as the shift stays off the spectrum.
#[no_mangle]
pub fn c15_shifted() {
    let n = 1 + choose(3);
    let budget = choose(4);
    let (m, d) = diagonal(n);
    let s = snap_m(&m);
    let mut i = 0;
    while i < n {
        let mut j = 0;
        while j < i {
            let g = d[i as usize] - d[j as usize];
            assume(g * g >= 0.25);
            j += 1;
        }
        i += 1;
    }
    if n == 3 {
        let g = d[0] - 0.5 * (d[1] + d[2]);
        assume(g * g >= 0.25);
    }
    match eigen(&m, budget as u16, true) {
        Ok((l, v)) => {
            spectrum(n, &s, &snap_m(&v), &snap_v(&l));
            let mut i = 0;
            while i < n { close(good(l.get_element(i)), d[i as usize], 0.01, "the values of a diagonal matrix are its entries"); i += 1; }
            reach("converged");
        }
        Err(_) => {
            check(budget < 2, "two rounds are enough for a diagonal matrix");
            reach("refused");
        }
    }
}

/// Off the spectrum is not guaranteed: for this matrix the shift is an eigenvalue.
#[no_mangle]
pub fn c15_shift_hits() {
    let d = [2.0, 1.0, 3.0];
    let mut m = mat_new(3, 3);
    let mut i = 0;
    while i < 3 { ok(m.set_element(i, i, d[i as usize])); i += 1; }
    let s = snap_m(&m);
    if let Ok((l, v)) = eigen(&m, 4, true) {
        spectrum(3, &s, &snap_m(&v), &snap_v(&l));
        reach("converged");
    } else { reach("refused"); }
}

/// Symmetric scaled permutation matrices: the plain iteration stands still on them.
#[no_mangle]
pub fn c15_swap() {
    let n = 2 + choose(3);
    let j = 1 + choose(n - 1);
    let i = choose(j);
    let budget = choose(4);
    let mut m = mat_new(n, n);
    let mut k = 0;
    while k < n {
        let x = range(-4.0, 4.0);
        assume(x * x >= 0.25);
        if k == i { ok(m.set_element(i, j, x)); ok(m.set_element(j, i, x)); }
        else if k != j { ok(m.set_element(k, k, x)); }
        k += 1;
    }
    let s = snap_m(&m);
    match eigen(&m, budget as u16, false) {
        Ok((l, v)) => spectrum(n, &s, &snap_m(&v), &snap_v(&l)),
        Err(_) => reach("refused"),
    }
}

/// Two axes of a symmetric matrix coupled: eigenvalues x and y along (c, s) and (-s, c).
fn couple(m: &mut Matrix, i: u8, j: u8, x: f32, y: f32, c: f32, s: f32) {
    ok(m.set_element(i, i, x * c * c + y * s * s));
    ok(m.set_element(i, j, (x - y) * c * s));
    ok(m.set_element(j, i, (x - y) * c * s));
    ok(m.set_element(j, j, x * s * s + y * c * c));
}

/// Symmetric matrices with a coupled pair of axes, with eigenvalues far enough apart for a few rounds.
#[no_mangle]
pub fn c15_coupled() {
    let n = 2 + choose(3);
    let (i, j) = match choose(match n { 2 => 1, 3 => 3, _ => 6 }) { 0 => (0, 1), 1 => (0, 2), 2 => (1, 2), 3 => (0, 3), 4 => (1, 3), _ => (2, 3) };
    let (x, y) = (4.0, if choose(2) == 0 { 0.25 } else { -0.25 });
    let u = unit::<2>();
    assume(u[0] >= 0.8);
    let mut m = mat_new(n, n);
    couple(&mut m, i, j, x, y, u[0], u[1]);
    let mut k = 0;
    while k < n { if k != i && k != j { ok(m.set_element(k, k, 1.0 + 0.5 * k as f32)); } k += 1; }
    let s = snap_m(&m);
    match eigen(&m, 3, false) {
        Ok((l, v)) => {
            spectrum(n, &s, &snap_m(&v), &snap_v(&l));
            close(good(l.get_element(i)), x, 0.01, "the values are those of the matrix");
            close(good(l.get_element(j)), y, 0.01, "the values are those of the matrix");
            reach("converged");
        }
        Err(_) => check(false, "three rounds are enough for eigenvalues this far apart"),
    }
}
