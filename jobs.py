"""Which harness entries decide which property, with their semantics, bounds and named situations that must be reachable."""

FULL = 'float arguments: all 2^32 bit patterns'


def J(entry, mode='bits', **k):
    return dict(entry=entry, mode=mode, **k)


REALS = 'real arguments: every real of magnitude at most 4 unless the entry states another range'
SHAPES = 'shapes: every size 1..4 (x 1..4) and the uninitialised state'
ELEMS = 'elements: every finite float; scalar arguments: all 2^32 bit patterns'
HEAVY = 'inversion, factorisations, determinant and predicates built on them: square sizes up to 2 (3 in the thorough tier)'
NOPANIC = dict(panic='ignore')

AIM = 'every direction of gravity except a band of 1e-7 at the horizon, every heading except a band of 1e-7 at east and west, field with a horizontal part of 0.1..2 and a vertical part of -2..2'

JOBS = {
    'C01': [
        J('c01_vec', split=(30,), reach=['accepted', 'refused'], opts=NOPANIC, bounds=[SHAPES, ELEMS]),
        J('c01_quat', split=(32,), parts=[((28,), 8)], reach=['accepted', 'refused'], opts=NOPANIC, bounds=[ELEMS]),
        J('c01_mat', split=(54, 4), reach=['accepted', 'refused'], opts=NOPANIC, bounds=[HEAVY]),
        J('c01_lin', split=(5, 3), reach=['accepted', 'refused'], opts=NOPANIC, bounds=[HEAVY]),
        J('c01_eigen', split=(2, 3, 2), parts=[((1, 2, 0), 4), ((1, 2, 1), 4)], reach=['accepted', 'refused'], opts=NOPANIC, bounds=['eigen-decomposition: sizes 1 and 2, iteration budgets 0..2']),
        J('c01_setters', reach=['vector', 'matrix'], bounds=[SHAPES]),
    ],
    'C02': [
        J('c02_vec', split=(30,), reach=['accepted', 'refused'], bounds=[SHAPES, ELEMS, 'indices: all 256 values']),
        J('c02_quat', split=(32,), parts=[((28,), 4)], reach=['accepted', 'refused'], bounds=[SHAPES, ELEMS]),
        J('c02_mat', split=(54,), reach=['accepted', 'refused'], bounds=[HEAVY, 'diagonal offsets: all 256 values']),
        J('c02_lin', split=(5,), reach=['accepted', 'refused'], bounds=[HEAVY]),
        J('c02_solve', split=(17,), reach=['accepted', 'refused'], bounds=['solving: any factor up to 2x2 (3x3 thorough), right-hand side and permutation of any length and content']),
        J('c02_eigen', split=(17, 3), parts=[((5, 2), 4)], reach=['accepted', 'refused'], bounds=['eigen-decomposition: sizes 1 and 2 and every non-square shape, iteration budgets 0..2']),
        J('c02_init', reach=['accepted', 'refused'], bounds=['requested sizes: all 256 x 256 values']),
    ],
    'C03': [
        J('c03_vec', split=(30,), reach=['refused'], bounds=[SHAPES, ELEMS]),
        J('c03_quat', split=(32,), reach=['refused'], bounds=[ELEMS]),
        J('c03_mat', split=(54,), reach=['refused'], bounds=[SHAPES, ELEMS]),
        J('c03_rest', reach=['refused'], bounds=[SHAPES]),
    ],
    'C04': [
        J('c04_mat', split=(2,), reach=['accepted', 'refused'], bounds=['requested sizes: all 256 x 256 values', SHAPES]),
        J('c04_vec', reach=['accepted', 'refused'], bounds=[SHAPES]),
        J('c04_bytes', reach=['accepted', 'refused'], bounds=[SHAPES]),
        J('c04_fresh', reach=['fresh'], bounds=[SHAPES]),
    ],
    'C05': [
        J('c05_mat', split=(4, 4), reach=['written', 'refused'], bounds=[SHAPES, 'indices: all 256 x 256 values', 'elements: every finite float']),
        J('c05_vec', reach=['written', 'refused'], bounds=[SHAPES]),
        J('c05_bytes', reach=['written', 'refused'], bounds=['byte vectors: all values']),
    ],
    'C06': [
        J('c06_vec', split=(30,), reach=['fits', 'refused'], bounds=[SHAPES, ELEMS]),
        J('c06_quat', split=(32,), parts=[((28,), 4)], reach=['fits', 'refused'], bounds=[SHAPES, ELEMS]),
        J('c06_mat', split=(54, 4), reach=['fits', 'refused'], bounds=[SHAPES, HEAVY, 'three-operand matrix operations: sizes 1..3 (1..4 in the thorough tier)']),
        J('c06_lin', split=(5,), reach=['fits', 'refused'], bounds=[HEAVY]),
        J('c06_eigen', reach=['refused'], bounds=[SHAPES]),
    ],
    'C07': [
        J('c07_mat', split=(14,), reach=['moved'], bounds=[SHAPES, 'elements: every finite float', 'positions: every valid one']),
        J('c07_vec', reach=['moved'], bounds=[SHAPES]),
        J('c07_bytes', reach=['moved'], bounds=['byte vectors: all values']),
    ],
    'C08': [
        J('c08_vec', split=(5, 3), reach=['computed', 'overflow'], bounds=[SHAPES, 'elements and scalars: every finite float']),
        J('c08_mat', split=(5, 3, 4), reach=['computed', 'overflow'], bounds=[SHAPES, 'elements and scalars: every finite float']),
    ],
    'C09': [
        J('c09_mul', 'real', split=(4, 4), reach=['multiplied'], bounds=[SHAPES, REALS]),
        J('c09_vec', 'real', reach=['vectors'], bounds=[SHAPES, REALS]),
        J('c09_norm', 'real', reach=['long', 'short'], bounds=[SHAPES, REALS]),
        J('c09_mat', 'real', reach=['matrix'], bounds=[SHAPES, REALS]),
        J('c09_power', 'real', reach=['powers'], bounds=['exponents 0..3', REALS]),
    ],
    'C10': [
        J('c10_naive', 'real', reach=['determinant'], bounds=['sizes 1..4', REALS]),
        J('c10_det', 'real', split=(4,), reach=['determinant', 'singular'], bounds=['sizes 1..4', REALS]),
        J('c10_perm', 'real', split=(4,), reach=['determinant'], bounds=['scaled permutation matrices of sizes 1..4, every permutation, scales of magnitude 0.5..4']),
    ],
    'C11': [
        J('c11_solve', 'real', split=(4,), reach=['solved', 'refused'], bounds=['sizes 1..4', REALS]),
        J('c11_invert', 'real', split=(4,), reach=['inverted', 'refused'], bounds=['sizes 1..4', REALS]),
        J('c11_perm', 'real', split=(4,), reach=['solved'], bounds=['scaled permutation matrices of sizes 1..4, every permutation, scales of magnitude 0.5..4']),
    ],
    'C12': [
        J('c12_product', 'real', split=(2, 4), reach=['factorised'], bounds=['sizes 1..4', REALS]),
        J('c12_accept', 'real', split=(2, 4), reach=['accepted'], bounds=['every leading minor at least 0.25 in magnitude']),
        J('c12_chol', 'real', split=(4,), reach=['factorised', 'refused'], bounds=['Cholesky: sizes 1..3 of arbitrary real entries']),
        J('c12_chol_accept', 'real', split=(4,), reach=['accepted'], bounds=['positive definite matrices given by a triangular factor with a diagonal of at least 0.5']),
        J('c12_chol_four', 'real', split=(6,), reach=['accepted'], bounds=['size 4: triangular factors with a full last row, a full first column, two coupled pairs, a coupled chain, a coupled 2x2 corner, or a full lower 3x3 block']),
        J('c12_chol_refuse', 'real', split=(3,), reach=['refused'], bounds=['one pair of mirrored entries further apart than 0.001, sizes 2..4']),
    ],
    'C13': [
        J('c13_four', 'real', split=(3,), reach=['decomposed'], bounds=['4x4: the identity, a cyclic shift or a matrix of halves without zeros, times an arbitrary triangular matrix with a diagonal of 0.5 to 2']),
        J('c13_qr', 'real', split=(10,), reach=['decomposed'], bounds=['shapes 1x1 to 4x1, 2x2, 3x2, 4x2, 3x3, 4x3 with arbitrary real entries, 4x4 with two interleaved 2x2 blocks; columns well apart from linear dependence (Gram determinants at least 0.25)']),
    ],
    'C14': [
        J('c14_shape', 'real', split=(4, 4), reach=['yes', 'no'], bounds=[SHAPES, REALS]),
        J('c14_equal', 'real', split=(4, 4), reach=['yes', 'no'], bounds=[SHAPES, REALS, 'any tolerance']),
        J('c14_rotation_yes', 'real', split=(2, 4), parts=[((0, 2), 4), ((1, 2), 4)], reach=['yes', 'no'], bounds=['orthogonality and rotation tests, positive answers: sizes 1..3 (1..4 thorough), any entries']),
        J('c14_rotation', 'real', split=(4, 2), reach=['recognised'], bounds=['orthogonality and rotation tests, matrices that must pass: one or two interleaved plane rotations with rows in any order, mirrored or not, sizes 1..4']),
        J('c14_definite_yes', 'real', split=(4, 2), reach=['yes', 'no'], bounds=['positive definiteness, positive answers: sizes 1..3 (1..4 thorough), any entries']),
        J('c14_definite', 'real', split=(4,), reach=['recognised'], bounds=['positive definiteness, matrices that must pass: given by a triangular factor with a diagonal of at least 0.5']),
        J('c14_definite_four', 'real', split=(6, 5), reach=['answered'], bounds=['positive definiteness at size 4: products of a unit triangular factor of six sparse patterns and a diagonal with none or one negative entry']),
        J('c14_sheared_four', 'real', split=(2, 2), reach=['answered'], bounds=['orthogonality and rotation tests at size 4: the identity and a matrix of halves, as they are or with any column sheared along any other by 0.01 to 2']),
    ],
    'C15': [
        J('c15_symmetric', 'real', reach=['converged', 'refused'], bounds=['symmetric matrices: size 1 with budgets 0..3, size 2 with budgets 0 and 1, determinant at least 0.5 in magnitude']),
        J('c15_diagonal', 'real', split=(4,), reach=['converged', 'refused'], bounds=['diagonal matrices of sizes 1..4 with entries of magnitude 0.5..4, budgets 0..4, no shift']),
        J('c15_shifted', 'real', split=(3,), reach=['converged', 'refused'], bounds=['diagonal matrices of sizes 1..3, entries at least 0.5 apart and the shift at least 0.5 off the spectrum, budgets 0..3, shifted']),
        J('c15_swap', 'real', split=(3, 3), reach=['refused'], bounds=['symmetric scaled permutation matrices (one exchanged pair) of sizes 2..4, budgets 0..3']),
        J('c15_coupled', 'real', split=(3,), reach=['converged'], bounds=['symmetric matrices of sizes 2..4 with one coupled pair of axes turned by any angle with a cosine of at least 0.8, eigenvalues 4 and 0.25 or -0.25 (1 to 2.5 for the other axes), three rounds, no shift']),
        J('c15_shift_hits', 'real', bounds=['diag(2, 1, 3), shifted (known finding)']),
    ],
    'C16': [
        J('c16_product', 'real', reach=['product'], bounds=[REALS]),
        J('c16_parts', 'real', reach=['parts'], bounds=[REALS]),
        J('c16_inverse', 'real', reach=['inverted', 'short'], bounds=[REALS]),
        J('c16_tests', 'real', reach=['yes', 'no'], bounds=[REALS]),
    ],
    'C17': [
        J('c17_rotate', 'real', reach=['turned'], bounds=['every unit quaternion, vectors with components in [-4, 4]']),
        J('c17_group', 'real', split=(2,), reach=['orthonormal', 'product'], bounds=['every pair of unit quaternions']),
        J('c17_log', 'real', split=(3,), reach=['logarithm'], bounds=['logarithm and adjugate: rotations about each coordinate axis by any angle with a sine of at least 0.1 in magnitude']),
    ],
    'C18': [
        J('c18_chiaverini', 'real', reach=['converted'], bounds=['every unit quaternion with a squared real part of at least 0.001']),
        J('c18_hughes', 'real', reach=['converted'], bounds=['every unit quaternion with a squared real part of at least 0.001']),
        J('c18_half', 'real', split=(2,), reach=['converted'], bounds=['half turns about every axis (Hughes, Chiaverini)']),
        J('c18_half_signs', 'real', split=(2,), bounds=['the half turn about (0.6, -0.8, 0) (known finding)']),
        J('c18_sarabandi', 'real', split=(2,), reach=['converted'], bounds=['every unit quaternion, no threshold or any threshold in [-0.5, 0.5]']),
        J('c18_total', 'real', split=(2,), parts=[((0,), 6)], reach=['converted'], bounds=['any 3x3 matrix with entries in [-1.01, 1.01]']),
    ],
    'C19': [
        J('c19_compose', 'real', reach=['composed'], bounds=['every unit quaternion with a sine of the pitch of at most 0.995 in magnitude']),
        J('c19_finite', 'real', reach=['finite'], bounds=['every quaternion with a squared norm in [0.999, 1.001]']),
    ],
    'C20': [
        J('c20_exp', 'real', split=(2,), reach=['general', 'real'], bounds=['components in [-2, 2]; vector part zero or of squared length at least 0.01']),
    ],
    'C21': [
        J('c21_lerp', 'real', reach=['interpolated', 'refused'], bounds=['sizes 1..4', REALS]),
        J('c21_slerp', 'real', split=(3, 4), reach=['interpolated'], bounds=['unit vectors of sizes 2..4 with an angle between them of sine at least 0.1, any parameter in [0, 1]']),
        J('c21_slerp_range', 'real', split=(4,), reach=['refused'], bounds=['sizes 1..4', REALS]),
        J('c21_equal', 'real', reach=['equal'], bounds=['spherical interpolation of equal unit vectors: sizes 1..4']),
    ],
    'C22': [
        J('c22_reading', 'real', split=(3, 4), reach=['corrected'], bounds=['three sensor kinds, twelve parameters and three raw values each in [-4, 4], one or two updates with reconfiguration in between, every non-finite component refused']),
        J('c22_default', 'bits', split=(3,), reach=['default'], bounds=['default configuration, every finite measurement bit for bit']),
        J('c22_overflow', reach=['accepted', 'refused'], bounds=['one axis with any finite scale, bias and measurement (bit for bit), including corrections that overflow']),
    ],
    'C23': [
        J('c23_sensor', split=(3,), reach=['read back'], bounds=['three sensor kinds, all finite parameter values bit for bit']),
        J('c23_kept', 'real', reach=['kept'], bounds=['parameters and measurements in [-4, 4]']),
        J('c23_filter', split=(4, 4), reach=['read back'], bounds=['the three sensors of an Aqua filter, every sequence of up to two reconfigurations, all finite parameter values bit for bit']),
    ],
    'C24': [
        J('c24_sensor', 'real', split=(3, 6), reach=['lived'], bounds=['every sequence of three calls (four thorough) on a sensor']),
        J('c24_rate', 'real', split=(6, 6), reach=['lived'], bounds=['every sequence of three calls (four thorough) on the angular-rate filter']),
        J('c24_aqua', 'real', split=(2, 8), parts=[((0, 5), 3), ((1, 5), 3), ((0, 6), 3), ((1, 6), 3)], reach=['lived'], bounds=['every sequence of three calls (four thorough) on the Aqua filter, both modes; valid measurements are two fixed pairs']),
        J('c24_davenport', 'real', split=(4,), reach=['lived'], bounds=['every sequence of three calls on the Davenport filter']),
        J('c24_kept', 'real', reach=['refused'], bounds=['Aqua update refused for one gain or threshold in [-4, 4] outside [0, 1]']),
    ],
    'C25': [
        J('c25_closed', 'real', split=(4,), reach=['turned'], bounds=['closed form: every unit attitude, period in [0, 2], plain configuration with any rates in [-4, 4], or one scale, one bias and one coupling free with rates about two axes']),
        J('c25_still', 'real', split=(5,), reach=['still'], bounds=['all methods at rates of at most 5e-5 per axis']),
        J('c25_unit', 'real', split=(5,), reach=['updated'], bounds=['unit length, one step from any unit attitude (inductive step): closed form, Euler, series of orders 1..3; period in [0, 1], rates in [-4, 4]']),
    ],
    'C26': [
        J('c26_series', 'real', split=(11,), reach=['updated'], bounds=['series of orders 0..8 (0..10 thorough), every unit attitude, rates in [-2, 2], period in [0, 1]']),
        J('c26_high', 'real', split=(2, 3), reach=['updated'], bounds=['series of orders 12 and 16 for a turn about one axis: every unit attitude, rate in [-4, 4], period in [0, 4]']),
        J('c26_euler', 'real', reach=['updated'], bounds=['Euler step: every unit attitude, rates in [-4, 4], period in [0, 1]']),
        J('c26_other', 'real', reach=['refused'], bounds=['the two methods without implementation, rates above the tolerance']),
    ],
    'C27': [
        J('c27_init', 'real', split=(2, 16), reach=['started', 'refused'], bounds=['both modes, all sixteen presence patterns of the attitude, gyro configuration present or not']),
        J('c27_rates', 'real', split=(2,), reach=['updated', 'refused'], bounds=['both modes, all eight presence patterns of the rates']),
        J('c27_gains', 'real', split=(2, 6), reach=['updated', 'refused'], bounds=['one gain or threshold at a time in [-4, 4], one tilted measurement']),
    ],
    'C28': [
        J('c28_attitude', 'real', split=(2, 2), reach=['aligned'], bounds=[AIM]),
        J('c28_current', 'real', split=(2, 2), reach=['same'], bounds=['lengths scaled by 0.5..4, any biases and starting attitude in [-4, 4], with and without one earlier update']),
    ],
    'C29': [
        J('c29_full', 'real', split=(2, 2), reach=['aligned'], bounds=['both gains one, at rest, every unit attitude before', AIM]),
        J('c29_predict', 'real', reach=['predicted'], bounds=['both gains zero, rates in [-4, 4], period in [0, 1], measurements that agree with the prediction']),
        J('c29_zero', 'real', split=(2, 2), reach=['kept'], bounds=['both gains zero, at rest, any measured directions']),
        J('c29_partial', 'real', split=(2,), reach=['partial'], bounds=['gravity gain in [0, 1] alone, tilt of at most 90 degrees, linear and spherical interpolation']),
        J('c29_heading', 'real', split=(3, 2), reach=['partial'], bounds=['heading gain in [0, 1] alone, any heading more than 1.1 degrees from south, linear and spherical interpolation']),
        J('c29_adaptive', 'real', split=(2, 3, 2), reach=['adapted'], bounds=['thresholds 0.05..0.6, relative error of the magnitude up to 0.9 either way, gain in [0, 1], at once and after one earlier measurement of any magnitude 0.5..40']),
    ],
    'C30': [
        J('c30_weights', reach=['started', 'refused'], bounds=['weights: every float; gravity and dip given or not']),
        J('c30_update', 'real', reach=['updated'], bounds=['two measurements with components in [-4, 4]']),
    ],
    'C31': [
        J('c31_build', reach=['set', 'refused'], bounds=[FULL]),
        J('c31_field', 'real', reach=['field'], bounds=[REALS]),
        J('c31_div', 'real', reach=['divided', 'refused'], bounds=[REALS]),
        J('c31_polar', 'real', reach=['modulus', 'polar', 'exponential'], bounds=[REALS]),
    ],
    'C32': [
        J('c32_valid', reach=['nan', 'inf', 'finite'], bounds=[FULL]),
        J('c32_close', reach=['finite', 'refused'], bounds=[FULL]),
        J('c32_order', reach=['ordered'], bounds=[FULL]),
        J('c32_order_int', reach=['int'], bounds=['32-bit and 8-bit integers: all values']),
        J('c32_clip', reach=['clip'], bounds=[FULL]),
        J('c32_sign', reach=['sign'], bounds=[FULL]),
        J('c32_factorial', reach=['exact', 'large'], bounds=['factorial argument: all 256 values']),
    ],
}
