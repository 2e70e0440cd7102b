//! A small world of operands and a numbered table of every public container operation, shared by the container-wide properties.
use crate::api::*;
use linalg::common::LinalgError;
use linalg::linalg::{eigen, lup, solve};
use linalg::matrix::Matrix;
use linalg::vector::Vector;
use quaternion::quaternion::Quaternion;

pub type V = Vector<f32>;
pub type R = Result<(), LinalgError>;

/// Observable state of a container through its public interface.
#[derive(Clone, Copy)]
pub struct Snap {
    pub init: bool,
    pub r: u8,
    pub c: u8,
    pub e: [f32; 16],
}

pub fn vec_new(n: u8) -> V {
    let mut v: V = Vector::new();
    if n > 0 { ok(v.init(n)); }
    v
}

pub fn mat_new(r: u8, c: u8) -> Matrix {
    let mut m = Matrix::new();
    if r > 0 { ok(m.init(r, c)); }
    m
}

/// Unwrap without formatting machinery; a failure here ends the path as a failed check.
pub fn ok<T>(r: Result<T, LinalgError>) -> T {
    match r {
        Ok(x) => x,
        Err(_) => {
            check(false, "setting up an operand succeeds");
            loop {}
        }
    }
}

/// Vector of n symbolic finite elements (uninitialised when n is 0).
pub fn vec_sym(n: u8) -> V {
    let mut v = vec_new(n);
    let mut i = 0;
    while i < n { ok(v.set_element(i, fin())); i += 1; }
    v
}

pub fn vec_of(e: &[f32]) -> V {
    let mut v = vec_new(e.len() as u8);
    let mut i = 0;
    while i < e.len() { ok(v.set_element(i as u8, e[i])); i += 1; }
    v
}

pub fn mat_sym(r: u8, c: u8) -> Matrix {
    let mut m = mat_new(r, c);
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c { ok(m.set_element(i, j, fin())); j += 1; }
        i += 1;
    }
    m
}

/// Row-major matrix from a slice.
pub fn mat_of(r: u8, c: u8, e: &[f32]) -> Matrix {
    let mut m = mat_new(r, c);
    let mut i = 0;
    while i < r {
        let mut j = 0;
        while j < c { ok(m.set_element(i, j, e[(i * c + j) as usize])); j += 1; }
        i += 1;
    }
    m
}

pub fn snap_v(v: &V) -> Snap {
    let mut s = Snap { init: v.is_initialized(), r: 0, c: 1, e: [0.0; 16] };
    if s.init {
        s.r = ok(v.get_rows());
        let mut i = 0;
        while i < s.r { s.e[i as usize] = ok(v.get_element(i)); i += 1; }
    }
    s
}

pub fn snap_m(m: &Matrix) -> Snap {
    let mut s = Snap { init: m.is_initialized(), r: 0, c: 0, e: [0.0; 16] };
    if s.init {
        s.r = ok(m.get_rows());
        s.c = ok(m.get_cols());
        let mut i = 0;
        while i < s.r {
            let mut j = 0;
            while j < s.c { s.e[(i * s.c + j) as usize] = ok(m.get_element(i, j)); j += 1; }
            i += 1;
        }
    }
    s
}

pub fn unchanged(a: &Snap, b: &Snap, id: &str) {
    check(a.init == b.init && a.r == b.r && a.c == b.c, id);
    let n = a.r * a.c;
    let mut i = 0;
    while i < n { same(b.e[i as usize], a.e[i as usize], id); i += 1; }
}

pub struct W {
    pub m: [Matrix; 3],
    pub v: [V; 3],
    pub i: u8,
    pub j: u8,
    pub k: i8,
    pub s: f32,
    pub om: [Matrix; 2],
    pub ov: [V; 1],
}

impl W {
    pub fn empty() -> W {
        W { m: [Matrix::new(), Matrix::new(), Matrix::new()], v: [Vector::new(), Vector::new(), Vector::new()], i: 0, j: 0, k: 0, s: 0.0,
            om: [Matrix::new(), Matrix::new()], ov: [Vector::new()] }
    }
}

pub const N_VOPS: u8 = 30;
/// Which vector operands (bit 0: receiver) a vector operation uses.
pub const V_USES: [u8; N_VOPS as usize] = [
    1, 1, 1, 3, 3, 3, 1, 7, 3, 3, 3, 1, 1, 7, 3, 3, 3, 1, 1, 1, 1, 3, 1, 1, 3, 3, 7, 7, 1, 1,
];

/// Vector operations; the receiver is v[0].
pub fn vop(op: u8, w: &mut W) -> R {
    let W { v, i, s, om, ov, .. } = w;
    let [a, b, c] = v;
    let (i, s) = (*i, *s);
    match op {
        0 => a.set_element(i, s),
        1 => a.get_element(i).map(|_| ()),
        2 => a.fill(s),
        3 => a.is_same_size_as(b).map(|_| ()),
        4 => a.is_equal_to(b, s).map(|_| ()),
        5 => a.copy_from(b),
        6 => a.duplicate().map(|x| ov[0] = x),
        7 => a.add(b, c),
        8 => a.add_in_place(b),
        9 => a.add_new(b).map(|x| ov[0] = x),
        10 => a.add_scalar(b, s),
        11 => a.add_scalar_in_place(s),
        12 => a.add_scalar_new(s).map(|x| ov[0] = x),
        13 => a.sub(b, c),
        14 => a.sub_in_place(b),
        15 => a.sub_new(b).map(|x| ov[0] = x),
        16 => a.sub_scalar(b, s),
        17 => a.sub_scalar_in_place(s),
        18 => a.sub_scalar_new(s).map(|x| ov[0] = x),
        19 => a.calculate_norm().map(|_| ()),
        20 => a.normalize(),
        21 => a.mul_by_scalar(b, s),
        22 => a.mul_by_scalar_in_place(s),
        23 => a.mul_by_scalar_new(s).map(|x| ov[0] = x),
        24 => a.dot_product(b).map(|_| ()),
        25 => a.outer_product(b).map(|x| om[0] = x),
        26 => a.slerp(b, c, s),
        27 => a.lerp(b, c, s),
        28 => a.power_elements(s),
        _ => a.convert_to_matrix().map(|x| om[0] = x),
    }
}

/// Whether operand sizes (and index) suit a vector operation; all operands initialised.
pub fn vop_fits(op: u8, n: [u8; 3], i: u8) -> bool {
    match op {
        0 | 1 => i < n[0],
        5 | 8 | 9 | 10 | 14 | 15 | 16 | 21 | 24 => n[0] == n[1],
        7 | 13 | 26 | 27 => n[0] == n[1] && n[0] == n[2],
        _ => true,
    }
}

pub const N_QOPS: u8 = 32;
pub const Q_USES: [u8; N_QOPS as usize] = [
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 7, 3, 1, 1, 1, 1, 3, 3, 1, 1, 1, 1, 1, 1,
];

/// Quaternion operations; the receiver is v[0], direction cosine matrices are m[0].
pub fn qop(op: u8, w: &mut W) -> R {
    let W { v, m, s, om, ov, .. } = w;
    let [a, b, c] = v;
    let s = *s;
    match op {
        0 => a.is_quaternion().map(|_| ()),
        1 => a.is_real().map(|_| ()),
        2 => a.is_pure().map(|_| ()),
        3 => a.is_versor().map(|_| ()),
        4 => a.is_identity().map(|_| ()),
        5 => a.set_qw(s),
        6 => a.set_qx(s),
        7 => a.set_qy(s),
        8 => a.set_qz(s),
        9 => a.get_qw().map(|_| ()),
        10 => a.get_qx().map(|_| ()),
        11 => a.get_qy().map(|_| ()),
        12 => a.get_qz().map(|_| ()),
        13 => a.get_vector_part().map(|x| ov[0] = x),
        14 => a.fillq(s, s, s, s),
        15 => Quaternion::fill_identity(a),
        16 => a.conjugate(),
        17 => a.conjugate_new().map(|x| ov[0] = x),
        18 => Quaternion::mul(a, b, c),
        19 => Quaternion::mul_new(a, b).map(|x| ov[0] = x),
        20 => Quaternion::invert(a),
        21 => a.convert_to_dcm().map(|x| om[0] = x),
        22 => a.exp(),
        23 => a.exp_new().map(|x| ov[0] = x),
        24 => a.rotate(b).map(|x| ov[0] = x),
        25 => a.rotate_in_place(b),
        26 => a.convert_to_euler().map(|_| ()),
        27 => a.hughes(&m[0]),
        28 => a.chiaverini(&m[0]),
        29 => a.sarabandi(&m[0], None),
        30 => a.sarabandi(&m[0], Some(s)),
        _ => a.get_vector_part().map(|_| ()),
    }
}

pub fn q_uses_dcm(op: u8) -> bool { op >= 27 && op <= 30 }

pub fn qop_fits(op: u8, n: [u8; 3], mr: u8, mc: u8) -> bool {
    match op {
        0 => true,
        18 => n[0] == 4 && n[1] == 4 && n[2] == 4,
        19 => n[0] == 4 && n[1] == 4,
        24 | 25 => n[0] == 4 && n[1] == 3,
        27..=30 => n[0] == 4 && mr == 3 && mc == 3,
        _ => n[0] == 4,
    }
}

pub const N_MOPS: u8 = 54;
/// Matrix operands (bits 0..2) and vector operands (bits 3..4) a matrix operation uses.
pub const M_USES: [u8; N_MOPS as usize] = [
    1, 1, 9, 9, 9, 9, 1, 1, 9, 9, // set/get element, set_row, set_col, get_row, get_col, row_to_vector, col_to_vector, add_row, add_col
    1, 1, 3, 1, 3, 1, 3, 1, 7, 3, // del_row, fill, same_size, square, equal, identity, copy_from, duplicate, add, add_in_place
    3, 3, 1, 1, 7, 3, 3, 3, 1, 1, // add_new, add_scalar, _in_place, _new, sub, sub_in_place, sub_new, sub_scalar, _in_place, _new
    7, 3, 1, 1, 1, 1, 1, 1, 1, 1, // mul, mul_new, transpose, transpose_new, invert, mul_by_scalar_in_place, power_elements, trace, lr, lu_crout
    1, 1, 1, 1, 1, 1, 1, 1, 1, 3, // qr, upper, lower, frobenius, det, det_naive, symmetric, positive_definite, chol, dlyap
    1, 1, 1, 1,                   // orthogonal, so_n, diag, log / adjugate
];

/// Matrix operations; the receiver is m[0].
pub fn mop(op: u8, w: &mut W) -> R {
    let W { m, v, i, j, k, s, om, ov } = w;
    let [a, b, c] = m;
    let [x, _y, _z] = v;
    let (i, j, k, s) = (*i, *j, *k, *s);
    match op {
        0 => a.set_element(i, j, s),
        1 => a.get_element(i, j).map(|_| ()),
        2 => a.set_row(x, i),
        3 => a.set_col(x, i),
        4 => a.get_row(x, i),
        5 => a.get_col(x, i),
        6 => a.row_to_vector(i).map(|r| ov[0] = r),
        7 => a.col_to_vector(i).map(|r| ov[0] = r),
        8 => a.add_row(x, i),
        9 => a.add_col(x, i),
        10 => a.del_row(i).map(|r| ov[0] = r),
        11 => a.fill(s),
        12 => a.is_same_size_as(b).map(|_| ()),
        13 => a.is_square().map(|_| ()),
        14 => a.is_equal_to(b, s).map(|_| ()),
        15 => a.fill_identity(),
        16 => a.copy_from(b),
        17 => a.duplicate().map(|r| om[0] = r),
        18 => a.add(b, c),
        19 => a.add_in_place(b),
        20 => a.add_new(b).map(|r| om[0] = r),
        21 => a.add_scalar(b, s),
        22 => a.add_scalar_in_place(s),
        23 => a.add_scalar_new(s).map(|r| om[0] = r),
        24 => a.sub(b, c),
        25 => a.sub_in_place(b),
        26 => a.sub_new(b).map(|r| om[0] = r),
        27 => a.sub_scalar(b, s),
        28 => a.sub_scalar_in_place(s),
        29 => a.sub_scalar_new(s).map(|r| om[0] = r),
        30 => a.mul(b, c),
        31 => a.mul_new(b).map(|r| om[0] = r),
        32 => a.transpose(),
        33 => a.transpose_new().map(|r| om[0] = r),
        34 => a.invert(),
        35 => a.mul_by_scalar_in_place(s),
        36 => a.power_elements(s),
        37 => a.trace().map(|_| ()),
        38 => a.lr().map(|(p, q)| { om[0] = p; om[1] = q; }),
        39 => a.lu_crout().map(|(p, q)| { om[0] = p; om[1] = q; }),
        40 => a.qr_decomp().map(|(p, q)| { om[0] = p; om[1] = q; }),
        41 => a.is_upper_triangular().map(|_| ()),
        42 => a.is_lower_triangular().map(|_| ()),
        43 => a.calculate_frobenius_norm().map(|_| ()),
        44 => a.det().map(|_| ()),
        45 => a.det_naive().map(|_| ()),
        46 => a.is_symmetric().map(|_| ()),
        47 => a.is_positive_definite().map(|_| ()),
        48 => a.chol().map(|r| om[0] = r),
        49 => a.dlyap(b).map(|r| om[0] = r),
        50 => a.is_orthogonal().map(|_| ()),
        51 => a.is_so_n().map(|_| ()),
        52 => a.diag(Some(k)).map(|r| ov[0] = r),
        _ => a.diag(None).map(|r| ov[0] = r),
    }
}

/// Whether shapes and indices suit a matrix operation; `None` where the operation makes no such promise.
pub fn mop_fits(op: u8, r: [u8; 3], c: [u8; 3], n: u8, i: u8, j: u8, k: i8) -> Option<bool> {
    let same01 = r[0] == r[1] && c[0] == c[1];
    let same02 = r[0] == r[2] && c[0] == c[2];
    let square = r[0] == c[0];
    Some(match op {
        0 | 1 => i < r[0] && j < c[0],
        2 | 4 => n == c[0] && i < r[0],
        3 | 5 => n == r[0] && i < c[0],
        6 => i < r[0],
        7 => i < c[0],
        8 => r[0] < 4 && n == c[0] && i <= r[0],
        9 => c[0] < 4 && n == r[0] && i <= c[0],
        10 => r[0] > 1 && i < r[0],
        15 | 34 | 37 | 38 | 39 | 44 | 45 | 50 | 51 => square,
        47 | 48 => return if square { Some(true) } else { None },
        16 | 19 | 20 | 21 | 25 | 26 | 27 => same01,
        18 | 24 => same01 && same02,
        30 => c[1] == r[2] && r[0] == r[1] && c[0] == c[2],
        31 => c[0] == r[1],
        40 => return if r[0] >= c[0] { Some(true) } else { None },
        49 => return if square && same01 { Some(true) } else { None },
        52 => (k as i16) < c[0] as i16 && -(k as i16) < r[0] as i16,
        _ => true,
    })
}

pub const N_LOPS: u8 = 5;

/// Remaining operations: rotation logarithm and adjugate, factorisation with pivoting, solving, eigen-decomposition.
pub fn lop(op: u8, w: &mut W) -> R {
    let W { m, v, om, ov, .. } = w;
    let [a, _b, _c] = m;
    match op {
        0 => a.log().map(|r| om[0] = r),
        1 => a.log_in_place(),
        2 => a.adjugate_in_place(),
        3 => lup(a).map(|(r, _)| om[0] = r),
        _ => {
            let (lu, p) = lup(a)?;
            solve(&lu, &v[0], &p).map(|r| ov[0] = r)
        }
    }
}

pub fn eig(m: &Matrix, n: u16, shifted: bool) -> Result<(V, Matrix), LinalgError> { eigen(m, n, shifted) }

pub fn is_size_error(e: &LinalgError) -> bool {
    matches!(e, LinalgError::RowsNumberOverflow | LinalgError::RowsNumberNull | LinalgError::ColsNumberOverflow | LinalgError::ColsNumberNull
        | LinalgError::InvalidRow | LinalgError::InvalidCol | LinalgError::NotSquare | LinalgError::NotSameSize | LinalgError::UnchangedSize
        | LinalgError::InvalidSize | LinalgError::InvalidDiagonalLength)
}
