//! Container-wide properties (finite gate, no panic, lifecycle, addressing, shape refusal).
use crate::api::*;
use crate::world::*;
use linalg::common::LinalgError;
use linalg::linalg::{lup, solve};
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use utils::utils::UtilsError;

fn finite_v(v: &V, id: &str) {
    if !v.is_initialized() { return; }
    let n = ok(v.get_rows());
    let mut i = 0;
    while i < n { check(ok(v.get_element(i)).is_finite(), id); i += 1; }
}

fn finite_m(m: &Matrix, id: &str) {
    if !m.is_initialized() { return; }
    let (r, c) = (ok(m.get_rows()), ok(m.get_cols()));
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c { check(ok(m.get_element(i, j)).is_finite(), id); j += 1; }
        i += 1;
    }
}

fn all_finite(w: &W) {
    let mut i = 0;
    while i < 3 {
        finite_v(&w.v[i], "vector operands hold finite elements after the call");
        finite_m(&w.m[i], "matrix operands hold finite elements after the call");
        i += 1;
    }
    finite_v(&w.ov[0], "returned vectors hold finite elements");
    finite_m(&w.om[0], "returned matrices hold finite elements");
    finite_m(&w.om[1], "returned matrices hold finite elements");
}

fn tell(r: &R) {
    match r {
        Ok(_) => reach("accepted"),
        Err(_) => reach("refused"),
    }
}

// ------------------------------------------------------------------------------------------ C01

#[no_mangle]
pub fn c01_vec() {
    let op = choose(N_VOPS);
    let n = 1 + choose(4);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if V_USES[op as usize] >> i & 1 == 1 { w.v[i] = vec_sym(n); }
        i += 1;
    }
    w.i = choose(4);
    if op > 1 && w.i > 0 { return; }
    w.s = any();
    let r = vop(op, &mut w);
    tell(&r);
    all_finite(&w);
    if r.is_ok() && matches!(op, 0 | 2 | 10 | 11 | 12 | 16 | 17 | 18 | 21 | 22 | 23) && w.i < n {
        check(w.s.is_finite(), "a non-finite scalar argument is refused");
    }
}

#[no_mangle]
pub fn c01_quat() {
    let op = choose(N_QOPS);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if Q_USES[op as usize] >> i & 1 == 1 { w.v[i] = vec_sym(if i == 1 && (op == 24 || op == 25) { 3 } else { 4 }); }
        i += 1;
    }
    if q_uses_dcm(op) { w.m[0] = mat_sym(3, 3); }
    w.s = any();
    let r = qop(op, &mut w);
    tell(&r);
    all_finite(&w);
    if r.is_ok() && matches!(op, 5 | 6 | 7 | 8 | 14) { check(w.s.is_finite(), "a non-finite component is refused"); }
}

fn big(op: u8) -> bool { matches!(op, 34 | 38 | 39 | 40 | 44 | 47 | 48 | 49 | 50 | 51) }

fn mat_case(op: u8) -> Option<W> {
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    if big(op) && (r != c || (r > 2 && !thorough()) || r > 3) { return None; }
    let mut w = W::empty();
    w.i = choose(4);
    if op > 10 && w.i > 0 { return None; }
    if op <= 1 {
        w.j = w.i;
    }
    let u = M_USES[op as usize];
    if op == 30 {
        let k = 1 + choose(2);
        w.m[0] = mat_sym(r, c);
        w.m[1] = mat_sym(r, k);
        w.m[2] = mat_sym(k, c);
    } else if op == 31 {
        w.m[0] = mat_sym(r, c);
        w.m[1] = mat_sym(c, r);
    } else {
        let mut i = 0;
        while i < 3 {
            if u >> i & 1 == 1 { w.m[i] = mat_sym(r, c); }
            i += 1;
        }
    }
    if u & 8 != 0 { w.v[0] = vec_sym(if matches!(op, 2 | 4 | 8) { c } else { r }); }
    w.s = any();
    Some(w)
}

#[no_mangle]
pub fn c01_mat() {
    let op = choose(N_MOPS);
    let mut w = match mat_case(op) { Some(w) => w, None => return };
    w.k = 0;
    let r = mop(op, &mut w);
    tell(&r);
    all_finite(&w);
    if r.is_ok() && matches!(op, 0 | 11 | 21 | 22 | 23 | 27 | 28 | 29 | 35) { check(w.s.is_finite(), "a non-finite scalar argument is refused"); }
}

#[no_mangle]
pub fn c01_lin() {
    let op = choose(N_LOPS);
    let n = 1 + choose(3);
    if n == 3 && !thorough() && op < 3 { return; }
    let mut w = W::empty();
    w.m[0] = mat_sym(n, n);
    w.v[0] = vec_sym(n);
    let r = lop(op, &mut w);
    tell(&r);
    all_finite(&w);
}

#[no_mangle]
pub fn c01_eigen() {
    let n = 1 + choose(2);
    let it = choose(3);
    let sh = choose(2) == 1;
    let m = mat_sym(n, n);
    match eig(&m, it as u16, sh) {
        Ok((v, q)) => {
            reach("accepted");
            finite_v(&v, "eigenvalues are finite");
            finite_m(&q, "eigenvectors are finite");
        }
        Err(_) => reach("refused"),
    }
    finite_m(&m, "the matrix holds finite elements after the call");
}

/// The setters name what is wrong and change nothing.
#[no_mangle]
pub fn c01_setters() {
    let x = any();
    assume(!x.is_finite());
    let want = LinalgError::UtilsError(if x.is_nan() { UtilsError::Nan } else { UtilsError::Inf });
    if choose(2) == 0 {
        let n = 1 + choose(4);
        let i = choose(4);
        if i >= n { return; }
        let mut v = vec_sym(n);
        let s = snap_v(&v);
        check(v.set_element(i, x) == Err(want), "the setter names the non-finite value");
        unchanged(&s, &snap_v(&v), "a refused value leaves the container as it was");
        reach("vector");
    } else {
        let r = 1 + choose(4);
        let c = 1 + choose(4);
        let i = choose(4);
        let j = choose(4);
        if i >= r || j >= c { return; }
        let mut m = mat_sym(r, c);
        let s = snap_m(&m);
        check(m.set_element(i, j, x) == Err(want), "the setter names the non-finite value");
        unchanged(&s, &snap_m(&m), "a refused value leaves the container as it was");
        reach("matrix");
    }
}

// ------------------------------------------------------------------------------------------ C02

#[no_mangle]
pub fn c02_vec() {
    let op = choose(N_VOPS);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if V_USES[op as usize] >> i & 1 == 1 { w.v[i] = vec_sym(choose(5)); }
        i += 1;
    }
    w.i = u8s();
    w.s = any();
    let r = vop(op, &mut w);
    tell(&r);
}

#[no_mangle]
pub fn c02_quat() {
    let op = choose(N_QOPS);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if Q_USES[op as usize] >> i & 1 == 1 { w.v[i] = vec_sym(choose(5)); }
        i += 1;
    }
    if q_uses_dcm(op) {
        let r = choose(5);
        w.m[0] = mat_sym(r, 1 + choose(4));
    }
    w.s = any();
    let r = qop(op, &mut w);
    tell(&r);
}

/// Shapes: uninitialised or any of the sixteen.
fn shape() -> (u8, u8) {
    let k = choose(17);
    if k == 16 { (0, 0) } else { (1 + k / 4, 1 + k % 4) }
}

/// Fewer shapes, for third operands.
fn shape_few() -> (u8, u8) {
    match choose(5) { 0 => (0, 0), 1 => (1, 1), 2 => (2, 3), 3 => (3, 2), _ => (4, 4) }
}

#[no_mangle]
pub fn c02_mat() {
    let op = choose(N_MOPS);
    let u = M_USES[op as usize];
    let mut w = W::empty();
    let (r, c) = shape();
    if big(op) && r == c && r > 2 && (!thorough() || r > 3) { return; }
    w.m[0] = mat_sym(r, c);
    if u & 2 != 0 {
        let (r, c) = if op == 49 || (u & 4 != 0 && !thorough()) { shape_few() } else { shape() };
        if op == 49 && r == 4 { return; }
        w.m[1] = mat_sym(r, c);
    }
    if u & 4 != 0 {
        let (r, c) = shape_few();
        w.m[2] = mat_sym(r, c);
    }
    if u & 8 != 0 { w.v[0] = vec_sym(choose(5)); }
    w.i = u8s();
    w.j = u8s();
    w.k = i8s();
    w.s = any();
    let r = mop(op, &mut w);
    tell(&r);
}

#[no_mangle]
pub fn c02_lin() {
    let op = choose(N_LOPS);
    let (r, c) = shape();
    let b = if op == 4 { choose(5) } else { 0 };
    if r == c && r > 2 && (r > 3 || !thorough()) { return; }
    let mut w = W::empty();
    w.m[0] = mat_sym(r, c);
    w.v[0] = vec_sym(b);
    let r = lop(op, &mut w);
    tell(&r);
}

/// Solving with an arbitrary (not necessarily matching) factor, right-hand side and permutation.
#[no_mangle]
pub fn c02_solve() {
    let (r, c) = shape();
    let n = choose(5);
    let k = choose(5);
    if r == c && r > 2 && !(thorough() && r == 3) { return; }
    let m = mat_sym(r, c);
    let b = vec_sym(n);
    let mut p: Vector<u8> = Vector::new();
    if k > 0 {
        ok(p.init(k));
        let mut i = 0;
        while i < k { ok(p.set_element(i, u8s())); i += 1; }
    }
    match solve(&m, &b, &p) { Ok(_) => reach("accepted"), Err(_) => reach("refused") }
}

#[no_mangle]
pub fn c02_eigen() {
    let (r, c) = shape();
    let it = choose(3);
    let sh = choose(2) == 1;
    if r == c && r > 2 { return; }
    let m = mat_sym(r, c);
    match eig(&m, it as u16, sh) { Ok(_) => reach("accepted"), Err(_) => reach("refused") }
}

#[no_mangle]
pub fn c02_init() {
    let a = u8s();
    let b = u8s();
    let (r, c) = shape();
    let mut m = mat_new(r, c);
    let mut v: V = vec_new(r);
    if choose(2) == 0 {
        let x = m.init(a, b).is_ok();
        let y = v.init(a).is_ok();
        if x && y { reach("accepted") } else { reach("refused") }
    } else {
        let x = m.reinit(a, b).is_ok();
        let y = v.reinit(a).is_ok();
        if x && y { reach("accepted") } else { reach("refused") }
    }
}

// ------------------------------------------------------------------------------------------ C03

#[no_mangle]
pub fn c03_vec() {
    let op = choose(N_VOPS);
    let u = V_USES[op as usize];
    // which operands are missing (at least one of those used)
    let miss = 1 + choose(7);
    if miss & u == 0 || miss & !u != 0 { return; }
    let n = 1 + choose(4);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 && miss >> i & 1 == 0 { w.v[i] = vec_sym(n); }
        i += 1;
    }
    w.i = u8s();
    w.s = any();
    let before = [snap_v(&w.v[0]), snap_v(&w.v[1]), snap_v(&w.v[2])];
    let r = vop(op, &mut w);
    check(r.is_err(), "an operation on an uninitialised vector reports an error");
    let mut i = 0;
    while i < 3 {
        unchanged(&before[i], &snap_v(&w.v[i]), "operands are left as they were");
        i += 1;
    }
    reach("refused");
}

#[no_mangle]
pub fn c03_quat() {
    let op = choose(N_QOPS);
    let u = Q_USES[op as usize] | if q_uses_dcm(op) { 8 } else { 0 };
    let miss = 1 + choose(15);
    if miss & u == 0 || miss & !u != 0 { return; }
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 && miss >> i & 1 == 0 { w.v[i] = vec_sym(if i == 1 && (op == 24 || op == 25) { 3 } else { 4 }); }
        i += 1;
    }
    if u & 8 != 0 && miss & 8 == 0 { w.m[0] = mat_sym(3, 3); }
    w.s = any();
    let before = [snap_v(&w.v[0]), snap_v(&w.v[1]), snap_v(&w.v[2])];
    let bm = snap_m(&w.m[0]);
    let r = qop(op, &mut w);
    check(r.is_err(), "a quaternion operation on an uninitialised operand reports an error");
    let mut i = 0;
    while i < 3 {
        unchanged(&before[i], &snap_v(&w.v[i]), "operands are left as they were");
        i += 1;
    }
    unchanged(&bm, &snap_m(&w.m[0]), "operands are left as they were");
    reach("refused");
}

#[no_mangle]
pub fn c03_mat() {
    let op = choose(N_MOPS);
    let u = M_USES[op as usize];
    let miss = 1 + choose(15);
    if miss & u == 0 || miss & !u != 0 { return; }
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 && miss >> i & 1 == 0 { w.m[i] = mat_sym(r, c); }
        i += 1;
    }
    if u & 8 != 0 && miss & 8 == 0 { w.v[0] = vec_sym(c); }
    w.i = u8s();
    w.j = u8s();
    w.k = i8s();
    w.s = any();
    let before = [snap_m(&w.m[0]), snap_m(&w.m[1]), snap_m(&w.m[2])];
    let bv = snap_v(&w.v[0]);
    let r = mop(op, &mut w);
    check(r.is_err(), "an operation on an uninitialised matrix reports an error");
    let mut i = 0;
    while i < 3 {
        unchanged(&before[i], &snap_m(&w.m[i]), "operands are left as they were");
        i += 1;
    }
    unchanged(&bv, &snap_v(&w.v[0]), "operands are left as they were");
    reach("refused");
}

#[no_mangle]
pub fn c03_rest() {
    let op = choose(9);
    let n = 1 + choose(4);
    let mut m = Matrix::new();
    let mut v: V = Vector::new();
    let mut p: Vector<u8> = Vector::new();
    let (a, b) = (u8s(), u8s());
    let bad = match op {
        0 => m.reinit(a, b).is_ok(),
        1 => v.reinit(a).is_ok(),
        2 => m.get_rows().is_ok() || m.get_cols().is_ok() || v.get_rows().is_ok(),
        3 => m.log().is_ok() || m.log_in_place().is_ok() || m.adjugate_in_place().is_ok(),
        4 => lup(&m).is_ok(),
        5 => eig(&m, 1 + choose(2) as u16, choose(2) == 0).is_ok(),
        6 => p.set_element(a, b).is_ok() || p.get_element(a).is_ok() || p.reinit(a).is_ok() || p.get_rows().is_ok(),
        7 => {
            // solving with one part missing
            let which = choose(3);
            if n > 2 { return; }
            let lu = if which == 0 { Matrix::new() } else { mat_sym(n, n) };
            let rhs = if which == 1 { Vector::new() } else { vec_sym(n) };
            if which != 2 {
                ok(p.init(n));
                let mut i = 0;
                while i < n { ok(p.set_element(i, i)); i += 1; }
            }
            solve(&lu, &rhs, &p).is_ok()
        }
        _ => m.is_initialized() || v.is_initialized() || p.is_initialized(),
    };
    check(!bad, "an uninitialised container is refused");
    check(!m.is_initialized() && !v.is_initialized(), "it stays uninitialised");
    reach("refused");
}

// ------------------------------------------------------------------------------------------ C04

fn rows_err(n: u8) -> Option<LinalgError> {
    if n > 4 { Some(LinalgError::RowsNumberOverflow) } else if n == 0 { Some(LinalgError::RowsNumberNull) } else { None }
}
fn cols_err(n: u8) -> Option<LinalgError> {
    if n > 4 { Some(LinalgError::ColsNumberOverflow) } else if n == 0 { Some(LinalgError::ColsNumberNull) } else { None }
}

#[no_mangle]
pub fn c04_mat() {
    let again = choose(2) == 1;
    let (r0, c0) = shape();
    let mut m = mat_sym(r0, c0);
    let before = snap_m(&m);
    let (r, c) = (u8s(), u8s());
    let res = if again { m.reinit(r, c) } else { m.init(r, c) };
    let want = if again && !before.init { Some(LinalgError::NotInit) } else if !again && before.init { Some(LinalgError::AlreadyInit) }
        else { match rows_err(r) { Some(e) => Some(e), None => cols_err(c) } };
    match want {
        None => {
            reach("accepted");
            check(res == Ok(()), "a size between 1 and 4 is accepted");
            check(m.is_initialized() && m.get_rows() == Ok(r) && m.get_cols() == Ok(c), "the requested dimensions are reported");
        }
        Some(e) => {
            reach("refused");
            // both limits broken: either may be named
            let alt = cols_err(c);
            match res {
                Ok(_) => check(false, "an invalid request is refused"),
                Err(x) => check(x == e || (r.wrapping_sub(1) >= 4 && Some(x) == alt), "the refusal names the broken limit"),
            }
            unchanged(&before, &snap_m(&m), "a refused request changes nothing");
        }
    }
}

#[no_mangle]
pub fn c04_vec() {
    let again = choose(2) == 1;
    let mut v = vec_sym(choose(5));
    let before = snap_v(&v);
    let r = u8s();
    let res = if again { v.reinit(r) } else { v.init(r) };
    let want = if again && !before.init { Some(LinalgError::NotInit) } else if !again && before.init { Some(LinalgError::AlreadyInit) } else { rows_err(r) };
    match want {
        None => {
            reach("accepted");
            check(res == Ok(()), "a size between 1 and 4 is accepted");
            check(v.is_initialized() && v.get_rows() == Ok(r), "the requested size is reported");
        }
        Some(e) => {
            reach("refused");
            check(res == Err(e), "the refusal names the broken limit");
            unchanged(&before, &snap_v(&v), "a refused request changes nothing");
        }
    }
}

#[no_mangle]
pub fn c04_bytes() {
    let again = choose(2) == 1;
    let n = choose(5);
    let mut v: Vector<u8> = Vector::new();
    let mut old = [0u8; 4];
    if n > 0 {
        ok(v.init(n));
        let mut i = 0;
        while i < n { old[i as usize] = u8s(); ok(v.set_element(i, old[i as usize])); i += 1; }
    }
    let r = u8s();
    let res = if again { v.reinit(r) } else { v.init(r) };
    let want = if again && n == 0 { Some(LinalgError::NotInit) } else if !again && n > 0 { Some(LinalgError::AlreadyInit) } else { rows_err(r) };
    match want {
        None => {
            reach("accepted");
            check(res == Ok(()) && v.get_rows() == Ok(r), "a size between 1 and 4 is accepted");
        }
        Some(e) => {
            reach("refused");
            check(res == Err(e), "the refusal names the broken limit");
            check(v.is_initialized() == (n > 0), "a refused request changes nothing");
            let mut i = 0;
            while i < n { check(v.get_element(i) == Ok(old[i as usize]), "a refused request changes nothing"); i += 1; }
        }
    }
}

/// Default values behave like freshly created containers.
#[no_mangle]
pub fn c04_fresh() {
    let m = Matrix::default();
    let v: V = Default::default();
    check(!m.is_initialized() && !v.is_initialized(), "a default container is uninitialised");
    let m = Matrix::new();
    let v: V = Vector::new();
    check(!m.is_initialized() && !v.is_initialized(), "a new container is uninitialised");
    reach("fresh");
}

// ------------------------------------------------------------------------------------------ C05

#[no_mangle]
pub fn c05_mat() {
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    let mut m = mat_sym(r, c);
    let before = snap_m(&m);
    let (i, j, x) = (u8s(), u8s(), fin());
    let res = m.set_element(i, j, x);
    let after = snap_m(&m);
    if i < r && j < c {
        reach("written");
        check(res == Ok(()), "an index inside the matrix is accepted");
        let mut p = 0;
        while p < r {
            let mut q = 0;
            while q < c {
                let k = (p * c + q) as usize;
                if p == i && q == j { same(after.e[k], x, "the written element reads back bit for bit"); }
                else { same(after.e[k], before.e[k], "no other element changes"); }
                q += 1;
            }
            p += 1;
        }
        check(after.r == r && after.c == c, "dimensions are kept");
    } else {
        reach("refused");
        check(res == Err(if i >= r { LinalgError::InvalidRow } else { LinalgError::InvalidCol })
            || (j >= c && res == Err(LinalgError::InvalidCol)), "an index outside the matrix is refused with the error of its axis");
        unchanged(&before, &after, "a refused write changes nothing");
        let g = m.get_element(i, j);
        check(g == Err(if i >= r { LinalgError::InvalidRow } else { LinalgError::InvalidCol })
            || (j >= c && g == Err(LinalgError::InvalidCol)), "a read outside the matrix is refused with the error of its axis");
    }
}

#[no_mangle]
pub fn c05_vec() {
    let n = 1 + choose(4);
    let mut v = vec_sym(n);
    let before = snap_v(&v);
    let (i, x) = (u8s(), fin());
    let res = v.set_element(i, x);
    let after = snap_v(&v);
    if i < n {
        reach("written");
        check(res == Ok(()), "an index inside the vector is accepted");
        let mut p = 0;
        while p < n {
            if p == i { same(after.e[p as usize], x, "the written element reads back bit for bit"); }
            else { same(after.e[p as usize], before.e[p as usize], "no other element changes"); }
            p += 1;
        }
    } else {
        reach("refused");
        check(res == Err(LinalgError::InvalidRow), "an index outside the vector is refused");
        check(v.get_element(i) == Err(LinalgError::InvalidRow), "a read outside the vector is refused");
        unchanged(&before, &after, "a refused write changes nothing");
    }
}

#[no_mangle]
pub fn c05_bytes() {
    let n = 1 + choose(4);
    let mut v: Vector<u8> = Vector::new();
    ok(v.init(n));
    let mut old = [0u8; 4];
    let mut k = 0;
    while k < n { old[k as usize] = u8s(); ok(v.set_element(k, old[k as usize])); k += 1; }
    let (i, x) = (u8s(), u8s());
    let res = v.set_element(i, x);
    check(res == if i < n { Ok(()) } else { Err(LinalgError::InvalidRow) }, "indices are checked");
    if i < n { reach("written") } else { reach("refused"); check(v.get_element(i) == Err(LinalgError::InvalidRow), "a read outside the vector is refused"); }
    let mut k = 0;
    while k < n {
        let want = if k == i { x } else { old[k as usize] };
        check(v.get_element(k) == Ok(want), "each byte has its own cell");
        k += 1;
    }
}

// ------------------------------------------------------------------------------------------ C06

fn judge(r: &R, fits: bool) {
    if fits {
        reach("fits");
        match r {
            Ok(_) => {}
            Err(e) => check(!is_size_error(e), "compatible shapes are not refused for their size"),
        }
    } else {
        reach("refused");
        match r {
            Ok(_) => check(false, "incompatible shapes are refused"),
            Err(_) => {}
        }
    }
}

#[no_mangle]
pub fn c06_vec() {
    let op = choose(N_VOPS);
    let u = V_USES[op as usize];
    let mut n = [0u8; 3];
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 { n[i] = 1 + choose(4); w.v[i] = vec_sym(n[i]); }
        i += 1;
    }
    w.i = u8s();
    w.s = if matches!(op, 26 | 27) { range(0.0, 1.0) } else { fin() };
    let before = [snap_v(&w.v[0]), snap_v(&w.v[1]), snap_v(&w.v[2])];
    let r = vop(op, &mut w);
    let fits = vop_fits(op, n, w.i);
    judge(&r, fits);
    if !fits {
        check(match &r { Ok(_) => false, Err(e) => is_size_error(e) }, "the refusal is a size or index error");
        let mut i = 0;
        while i < 3 { unchanged(&before[i], &snap_v(&w.v[i]), "a refused operation leaves its operands as they were"); i += 1; }
    }
}

#[no_mangle]
pub fn c06_quat() {
    let op = choose(N_QOPS);
    let u = Q_USES[op as usize];
    let mut n = [0u8; 3];
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 { n[i] = 1 + choose(4); w.v[i] = vec_sym(n[i]); }
        i += 1;
    }
    let (mut mr, mut mc) = (0, 0);
    if q_uses_dcm(op) {
        mr = 1 + choose(4);
        mc = 1 + choose(4);
        w.m[0] = mat_sym(mr, mc);
    }
    w.s = fin();
    let before = [snap_v(&w.v[0]), snap_v(&w.v[1]), snap_v(&w.v[2])];
    let bm = snap_m(&w.m[0]);
    let r = qop(op, &mut w);
    let fits = qop_fits(op, n, mr, mc);
    judge(&r, fits);
    if !fits {
        check(match &r { Ok(_) => false, Err(e) => is_size_error(e) }, "the refusal is a size or index error");
        let mut i = 0;
        while i < 3 { unchanged(&before[i], &snap_v(&w.v[i]), "a refused operation leaves its operands as they were"); i += 1; }
        unchanged(&bm, &snap_m(&w.m[0]), "a refused operation leaves its operands as they were");
    }
}

#[no_mangle]
pub fn c06_mat() {
    let op = choose(N_MOPS);
    let u = M_USES[op as usize];
    let (mut r, mut c) = ([0u8; 3], [0u8; 3]);
    let mut w = W::empty();
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 {
            r[i] = 1 + choose(4);
            c[i] = 1 + choose(4);
            // three-operand operations: sizes 1..3 only in the quick tier
            if u & 4 != 0 && !thorough() && (r[i] == 4 || c[i] == 4 || (i == 2 && op != 30 && r[i] == 1)) { return; }
        }
        i += 1;
    }
    if big(op) && r[0] == c[0] && r[0] > 2 && (!thorough() || r[0] > 3) { return; }
    if op == 49 && r[1] > 2 && r[1] == c[1] { return; }
    let mut i = 0;
    while i < 3 {
        if u >> i & 1 == 1 { w.m[i] = mat_sym(r[i], c[i]); }
        i += 1;
    }
    let mut n = 0;
    if u & 8 != 0 { n = 1 + choose(4); w.v[0] = vec_sym(n); }
    w.i = u8s();
    w.j = u8s();
    w.k = i8s();
    w.s = fin();
    let before = [snap_m(&w.m[0]), snap_m(&w.m[1]), snap_m(&w.m[2])];
    let bv = snap_v(&w.v[0]);
    let res = mop(op, &mut w);
    let fits = match mop_fits(op, r, c, n, w.i, w.j, w.k) { Some(f) => f, None => return };
    judge(&res, fits);
    if !fits {
        check(match &res { Ok(_) => false, Err(e) => is_size_error(e) }, "the refusal is a size or index error");
        let mut i = 0;
        while i < 3 { unchanged(&before[i], &snap_m(&w.m[i]), "a refused operation leaves its operands as they were"); i += 1; }
        unchanged(&bv, &snap_v(&w.v[0]), "a refused operation leaves its operands as they were");
    }
}

#[no_mangle]
pub fn c06_lin() {
    let op = choose(N_LOPS);
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    let b = if op == 4 { 1 + choose(4) } else { 1 };
    if r == c && r > 2 { return; }
    let mut w = W::empty();
    w.m[0] = mat_sym(r, c);
    w.v[0] = vec_sym(b);
    let before = snap_m(&w.m[0]);
    let bv = snap_v(&w.v[0]);
    let res = lop(op, &mut w);
    let fits = r == c && (op != 4 || b == r);
    judge(&res, fits);
    if !fits {
        unchanged(&before, &snap_m(&w.m[0]), "a refused operation leaves its operands as they were");
        unchanged(&bv, &snap_v(&w.v[0]), "a refused operation leaves its operands as they were");
    }
}

#[no_mangle]
pub fn c06_eigen() {
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    if r == c { return; }
    let m = mat_sym(r, c);
    check(eig(&m, 1, choose(2) == 1).is_err(), "eigen-decomposition refuses a matrix that is not square");
    reach("refused");
}
