//! Reshaping and copying (C07) and element-wise arithmetic (C08).
use crate::api::*;
use crate::world::*;
use linalg::common::LinalgError;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

fn at(s: &Snap, i: u8, j: u8) -> f32 { s.e[(i * s.c + j) as usize] }

/// Every element of `got` equals `want(i, j)`.
fn each<F: Fn(u8, u8) -> f32>(got: &Snap, r: u8, c: u8, id: &str, want: F) {
    check(got.init && got.r == r && got.c == c, "the result has the dimensions the operation defines");
    if got.r != r || got.c != c { return; }
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c { same(at(got, i, j), want(i, j), id); j += 1; }
        i += 1;
    }
}

const MOVED: &str = "every element is where the operation puts it";
const SOURCE: &str = "the source is left untouched";
const DONE: &str = "a valid request succeeds";

#[no_mangle]
pub fn c07_mat() {
    let op = choose(14);
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    let mut m = mat_sym(r, c);
    let a = snap_m(&m);
    let i = pin(u8s() & 3);
    match op {
        0 => {
            // replace a row
            let v = vec_sym(c);
            let x = snap_v(&v);
            if i >= r { return; }
            check(m.set_row(&v, i).is_ok(), DONE);
            each(&snap_m(&m), r, c, MOVED, |p, q| if p == i { x.e[q as usize] } else { at(&a, p, q) });
            unchanged(&x, &snap_v(&v), SOURCE);
        }
        1 => {
            let v = vec_sym(r);
            let x = snap_v(&v);
            if i >= c { return; }
            check(m.set_col(&v, i).is_ok(), DONE);
            each(&snap_m(&m), r, c, MOVED, |p, q| if q == i { x.e[p as usize] } else { at(&a, p, q) });
            unchanged(&x, &snap_v(&v), SOURCE);
        }
        2 => {
            // extract a row, both forms
            if i >= r { return; }
            let mut v = vec_sym(c);
            check(m.get_row(&mut v, i).is_ok(), DONE);
            each(&snap_v(&v), c, 1, MOVED, |p, _| at(&a, i, p));
            each(&snap_v(&ok(m.row_to_vector(i))), c, 1, MOVED, |p, _| at(&a, i, p));
            unchanged(&a, &snap_m(&m), SOURCE);
        }
        3 => {
            if i >= c { return; }
            let mut v = vec_sym(r);
            check(m.get_col(&mut v, i).is_ok(), DONE);
            each(&snap_v(&v), r, 1, MOVED, |p, _| at(&a, p, i));
            each(&snap_v(&ok(m.col_to_vector(i))), r, 1, MOVED, |p, _| at(&a, p, i));
            unchanged(&a, &snap_m(&m), SOURCE);
        }
        4 => {
            // insert a row
            if r == 4 || i > r { return; }
            let v = vec_sym(c);
            let x = snap_v(&v);
            check(m.add_row(&v, i).is_ok(), DONE);
            each(&snap_m(&m), r + 1, c, MOVED, |p, q| if p < i { at(&a, p, q) } else if p == i { x.e[q as usize] } else { at(&a, p - 1, q) });
            unchanged(&x, &snap_v(&v), SOURCE);
        }
        5 => {
            if c == 4 || i > c { return; }
            let v = vec_sym(r);
            let x = snap_v(&v);
            check(m.add_col(&v, i).is_ok(), DONE);
            each(&snap_m(&m), r, c + 1, MOVED, |p, q| if q < i { at(&a, p, q) } else if q == i { x.e[p as usize] } else { at(&a, p, q - 1) });
            unchanged(&x, &snap_v(&v), SOURCE);
        }
        6 => {
            // delete a row, which is returned
            if r == 1 || i >= r { return; }
            let d = ok(m.del_row(i));
            each(&snap_m(&m), r - 1, c, MOVED, |p, q| at(&a, if p < i { p } else { p + 1 }, q));
            each(&snap_v(&d), c, 1, MOVED, |p, _| at(&a, i, p));
        }
        7 => {
            // every diagonal that exists
            let k = choose(7) as i8 - 3;
            let (ro, co) = if k >= 0 { (0, k as u8) } else { ((-k) as u8, 0) };
            if ro >= r || co >= c { return; }
            let n = if r - ro < c - co { r - ro } else { c - co };
            each(&snap_v(&ok(m.diag(Some(k)))), n, 1, MOVED, |p, _| at(&a, p + ro, p + co));
            if k == 0 { each(&snap_v(&ok(m.diag(None))), n, 1, MOVED, |p, _| at(&a, p, p)); }
            unchanged(&a, &snap_m(&m), SOURCE);
        }
        8 => {
            let t = ok(m.transpose_new());
            each(&snap_m(&t), c, r, MOVED, |p, q| at(&a, q, p));
            unchanged(&a, &snap_m(&m), SOURCE);
            check(m.transpose().is_ok(), DONE);
            each(&snap_m(&m), c, r, MOVED, |p, q| at(&a, q, p));
        }
        9 => {
            let mut n = mat_sym(r, c);
            check(n.copy_from(&m).is_ok(), DONE);
            unchanged(&a, &snap_m(&n), MOVED);
            unchanged(&a, &snap_m(&m), SOURCE);
            // the copy is independent of the source
            check(n.set_element(0, 0, fin()).is_ok(), DONE);
            unchanged(&a, &snap_m(&m), SOURCE);
        }
        10 => {
            let mut n = ok(m.duplicate());
            unchanged(&a, &snap_m(&n), MOVED);
            check(n.set_element(r - 1, c - 1, fin()).is_ok(), DONE);
            unchanged(&a, &snap_m(&m), SOURCE);
        }
        11 => {
            let x = fin();
            check(m.fill(x).is_ok(), DONE);
            each(&snap_m(&m), r, c, MOVED, |_, _| x);
        }
        12 => {
            if r != c { return; }
            check(m.fill_identity().is_ok(), DONE);
            each(&snap_m(&m), r, c, MOVED, |p, q| if p == q { 1.0 } else { 0.0 });
        }
        _ => {
            // sizes survive a refused request followed by a valid one
            if r == 4 || i > r { return; }
            let v = vec_sym(c);
            let x = snap_v(&v);
            check(m.add_row(&v, i).is_ok(), DONE);
            let d = ok(m.del_row(i));
            unchanged(&a, &snap_m(&m), "inserting and deleting the same row gives the matrix back");
            unchanged(&x, &snap_v(&d), "the deleted row is the one inserted");
        }
    }
    reach("moved");
}

#[no_mangle]
pub fn c07_vec() {
    let op = choose(5);
    let n = 1 + choose(4);
    let mut v = vec_sym(n);
    let a = snap_v(&v);
    match op {
        0 => {
            let m = ok(v.convert_to_matrix());
            each(&snap_m(&m), n, 1, MOVED, |p, _| a.e[p as usize]);
            unchanged(&a, &snap_v(&v), SOURCE);
        }
        1 => {
            let mut w = vec_sym(n);
            check(w.copy_from(&v).is_ok(), DONE);
            unchanged(&a, &snap_v(&w), MOVED);
            check(w.set_element(0, fin()).is_ok(), DONE);
            unchanged(&a, &snap_v(&v), SOURCE);
        }
        2 => {
            let mut w = ok(v.duplicate());
            unchanged(&a, &snap_v(&w), MOVED);
            check(w.set_element(n - 1, fin()).is_ok(), DONE);
            unchanged(&a, &snap_v(&v), SOURCE);
        }
        3 => {
            let x = fin();
            check(v.fill(x).is_ok(), DONE);
            each(&snap_v(&v), n, 1, MOVED, |_, _| x);
        }
        _ => {
            if n != 4 { return; }
            let p = ok(v.get_vector_part());
            each(&snap_v(&p), 3, 1, MOVED, |i, _| a.e[i as usize + 1]);
            unchanged(&a, &snap_v(&v), SOURCE);
            let (w, x, y, z) = (fin(), fin(), fin(), fin());
            check(v.fillq(w, x, y, z).is_ok(), DONE);
            each(&snap_v(&v), 4, 1, MOVED, |i, _| [w, x, y, z][i as usize]);
            check(Quaternion::fill_identity(&mut v).is_ok(), DONE);
            each(&snap_v(&v), 4, 1, MOVED, |i, _| if i == 0 { 1.0 } else { 0.0 });
        }
    }
    reach("moved");
}

#[no_mangle]
pub fn c07_bytes() {
    let n = 1 + choose(4);
    let mut a: Vector<u8> = Vector::new();
    let mut e = [0u8; 4];
    ok(a.init(n));
    let mut i = 0;
    while i < n { e[i as usize] = u8s(); ok(a.set_element(i, e[i as usize])); i += 1; }
    let mut i = 0;
    while i < n { check(a.get_element(i) == Ok(e[i as usize]), MOVED); i += 1; }
    check(a.get_rows() == Ok(n), "the result has the dimensions the operation defines");
    reach("moved");
}

// ------------------------------------------------------------------------------------------ C08

/// The judged outcome of one variant: accepted exactly when every element of the result is finite, and then equal to it.
fn outcome(r: Result<Snap, LinalgError>, want: &Snap) {
    let n = want.r * want.c;
    let mut fin = true;
    let mut i = 0;
    while i < n { fin = fin & want.e[i as usize].is_finite(); i += 1; }
    match r {
        Ok(s) => {
            reach("computed");
            check(fin, "a result with a non-finite element is not reported as success");
            check(s.init && s.r == want.r && s.c == want.c, "the result has the operand's dimensions");
            let mut i = 0;
            while i < n { same(s.e[i as usize], want.e[i as usize], "each element is the exact result on that element"); i += 1; }
        }
        Err(_) => {
            reach("overflow");
            check(!fin, "finite results are never refused");
        }
    }
}

fn lift<F: Fn(f32, f32) -> f32>(a: &Snap, b: &Snap, f: F) -> Snap {
    let mut o = *a;
    let n = a.r * a.c;
    let mut i = 0;
    while i < n { o.e[i as usize] = f(a.e[i as usize], b.e[i as usize]); i += 1; }
    o
}

fn konst(a: &Snap, x: f32) -> Snap {
    let mut o = *a;
    let mut i = 0;
    while i < 16 { o.e[i] = x; i += 1; }
    o
}

#[no_mangle]
pub fn c08_vec() {
    let op = choose(5);
    let var = choose(3);
    let n = 1 + choose(4);
    let mut a = vec_sym(n);
    let b = vec_sym(n);
    let mut d = vec_sym(n);
    let s = fin();
    let (sa, sb) = (snap_v(&a), snap_v(&b));
    let ss = konst(&sa, s);
    let want = match op {
        0 => lift(&sa, &sb, |x, y| x + y),
        1 => lift(&sa, &sb, |x, y| x - y),
        2 => lift(&sa, &ss, |x, y| x + y),
        3 => lift(&sa, &ss, |x, y| x - y),
        _ => lift(&sa, &ss, |x, y| x * y),
    };
    let r = match (op, var) {
        (0, 0) => d.add(&a, &b).map(|_| snap_v(&d)),
        (0, 1) => a.add_in_place(&b).map(|_| snap_v(&a)),
        (0, _) => a.add_new(&b).map(|x| snap_v(&x)),
        (1, 0) => d.sub(&a, &b).map(|_| snap_v(&d)),
        (1, 1) => a.sub_in_place(&b).map(|_| snap_v(&a)),
        (1, _) => a.sub_new(&b).map(|x| snap_v(&x)),
        (2, 0) => d.add_scalar(&a, s).map(|_| snap_v(&d)),
        (2, 1) => a.add_scalar_in_place(s).map(|_| snap_v(&a)),
        (2, _) => a.add_scalar_new(s).map(|x| snap_v(&x)),
        (3, 0) => d.sub_scalar(&a, s).map(|_| snap_v(&d)),
        (3, 1) => a.sub_scalar_in_place(s).map(|_| snap_v(&a)),
        (3, _) => a.sub_scalar_new(s).map(|x| snap_v(&x)),
        (_, 0) => d.mul_by_scalar(&a, s).map(|_| snap_v(&d)),
        (_, 1) => a.mul_by_scalar_in_place(s).map(|_| snap_v(&a)),
        (_, _) => a.mul_by_scalar_new(s).map(|x| snap_v(&x)),
    };
    outcome(r, &want);
    if var != 1 { unchanged(&sa, &snap_v(&a), "operands other than the destination are unchanged"); }
    unchanged(&sb, &snap_v(&b), "operands other than the destination are unchanged");
}

#[no_mangle]
pub fn c08_mat() {
    let op = choose(5);
    let var = choose(3);
    let r = 1 + choose(4);
    let c = 1 + choose(4);
    if op == 4 && var != 1 { return; }
    let mut a = mat_sym(r, c);
    let b = mat_sym(r, c);
    let mut d = mat_sym(r, c);
    let s = fin();
    let (sa, sb) = (snap_m(&a), snap_m(&b));
    let ss = konst(&sa, s);
    let want = match op {
        0 => lift(&sa, &sb, |x, y| x + y),
        1 => lift(&sa, &sb, |x, y| x - y),
        2 => lift(&sa, &ss, |x, y| x + y),
        3 => lift(&sa, &ss, |x, y| x - y),
        _ => lift(&sa, &ss, |x, y| x * y),
    };
    let res = match (op, var) {
        (0, 0) => d.add(&a, &b).map(|_| snap_m(&d)),
        (0, 1) => a.add_in_place(&b).map(|_| snap_m(&a)),
        (0, _) => a.add_new(&b).map(|x| snap_m(&x)),
        (1, 0) => d.sub(&a, &b).map(|_| snap_m(&d)),
        (1, 1) => a.sub_in_place(&b).map(|_| snap_m(&a)),
        (1, _) => a.sub_new(&b).map(|x| snap_m(&x)),
        (2, 0) => d.add_scalar(&a, s).map(|_| snap_m(&d)),
        (2, 1) => a.add_scalar_in_place(s).map(|_| snap_m(&a)),
        (2, _) => a.add_scalar_new(s).map(|x| snap_m(&x)),
        (3, 0) => d.sub_scalar(&a, s).map(|_| snap_m(&d)),
        (3, 1) => a.sub_scalar_in_place(s).map(|_| snap_m(&a)),
        (3, _) => a.sub_scalar_new(s).map(|x| snap_m(&x)),
        (_, _) => a.mul_by_scalar_in_place(s).map(|_| snap_m(&a)),
    };
    outcome(res, &want);
    if var != 1 { unchanged(&sa, &snap_m(&a), "operands other than the destination are unchanged"); }
    unchanged(&sb, &snap_m(&b), "operands other than the destination are unchanged");
}
