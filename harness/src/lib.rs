#![no_std]
#![allow(clippy::all)]
pub mod api;
pub mod scalars;
pub mod world;
pub mod cont;
pub mod moves;
pub mod alg;
pub mod dec;
pub mod pred;
pub mod quat;
pub mod sens;
pub mod filt;

macro_rules! entries {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub static ENTRIES: &[(&str, fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}

entries! {
    scalars::c32_valid, scalars::c32_close, scalars::c32_order, scalars::c32_order_int, scalars::c32_clip, scalars::c32_sign, scalars::c32_factorial,
    cont::c01_vec, cont::c01_quat, cont::c01_mat, cont::c01_lin, cont::c01_eigen, cont::c01_setters, cont::c02_vec, cont::c02_quat, cont::c02_mat, cont::c02_lin, cont::c02_solve, cont::c02_eigen, cont::c02_init, cont::c03_vec, cont::c03_quat, cont::c03_mat, cont::c03_rest, cont::c04_mat, cont::c04_vec, cont::c04_bytes, cont::c04_fresh, cont::c05_mat, cont::c05_vec, cont::c05_bytes, cont::c06_vec, cont::c06_quat, cont::c06_mat, cont::c06_lin, cont::c06_eigen,
    moves::c07_mat, moves::c07_vec, moves::c07_bytes, moves::c08_vec, moves::c08_mat,
    alg::c09_mul, alg::c09_vec, alg::c09_norm, alg::c09_mat, alg::c09_power, alg::c16_product, alg::c16_parts, alg::c16_inverse, alg::c16_tests,
    alg::c31_build, alg::c31_field, alg::c31_div, alg::c31_polar,
    dec::c10_naive, dec::c10_det, dec::c10_perm, dec::c11_solve, dec::c11_invert, dec::c11_perm,
    dec::c12_product, dec::c12_accept, dec::c12_chol, dec::c12_chol_accept, dec::c12_chol_four, dec::c12_chol_refuse, dec::c13_four, dec::c13_qr,
    pred::c14_shape, pred::c14_equal, pred::c14_rotation_yes, pred::c14_rotation, pred::c14_definite_yes, pred::c14_definite, pred::c14_definite_four, pred::c14_sheared_four, pred::c15_symmetric, pred::c15_diagonal, pred::c15_shifted, pred::c15_shift_hits, pred::c15_swap, pred::c15_coupled,
    quat::c17_rotate, quat::c17_group, quat::c17_log, quat::c18_chiaverini, quat::c18_hughes, quat::c18_half, quat::c18_half_signs, quat::c18_sarabandi, quat::c18_total,
    quat::c19_compose, quat::c19_finite, quat::c20_exp, quat::c21_lerp, quat::c21_slerp, quat::c21_slerp_range,
    sens::c22_reading, sens::c22_default, sens::c22_overflow, sens::c23_sensor, sens::c23_kept, sens::c23_filter, sens::c24_sensor, sens::c24_rate, sens::c24_aqua, sens::c24_davenport,
    sens::c27_init, sens::c27_rates, sens::c27_gains, sens::c30_weights, sens::c30_update,
    filt::c25_closed, filt::c25_still, filt::c25_unit, filt::c26_series, filt::c26_high, filt::c26_euler, filt::c26_other, filt::c28_attitude, filt::c28_current, filt::c29_full, filt::c29_predict, filt::c29_zero, sens::c24_kept, quat::c21_equal, filt::c29_partial, filt::c29_adaptive, filt::c29_heading,
}
