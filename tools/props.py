#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one dict per property). Run to regenerate the file."""
import json, os
V, M, L, C = "linalg/src/vector.rs", "linalg/src/matrix.rs", "linalg/src/linalg.rs", "linalg/src/common.rs"
U, Q = "utils/src/lib.rs", "quaternion/src/quaternion.rs"
G, A, MG = "open_ahrs/src/gyrometer.rs", "open_ahrs/src/accelerometer.rs", "open_ahrs/src/magnetometer.rs"
AR, AQ, DV, OC = "open_ahrs/src/ar.rs", "open_ahrs/src/aqua.rs", "open_ahrs/src/davenport.rs", "open_ahrs/src/common.rs"
CX = "dsp/src/complex.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Containers never hold or hand out a NaN or infinite element",
  "After any vector, matrix or quaternion operation, whether it succeeded or failed, every element that can be read back is a finite number. An operation whose argument or computed element is NaN or infinite returns an error instead of storing it. A setter given a non-finite value returns the error naming it (NaN or infinity) and leaves the container as it was.",
  ["inputs"], "all 2^32 bit patterns of every scalar argument and every finite element value, every container size 1..4 (x1..4), every storing operation",
  "Tests store a handful of ordinary decimals; overflow to infinity and NaN payloads only appear for specific bit patterns of specific operands.",
  [V, M, Q, U], [("value gate on every element store", f"{V}: set_element; {M}: set_element; {U}: is_valid_value")], ["get_element", "returned error"])
p("C02", "No container or quaternion call panics, whatever its arguments and state",
  "No public operation on vectors, matrices or quaternions panics, overflows an integer or reads outside its storage, for any index, size, exponent, offset, tolerance or element value. This holds for containers that are uninitialised, of any shape, or of mismatched shapes. Bad input is reported through the returned error.",
  ["inputs", "configurations"], "every operation, every 8-bit index/size/offset argument, every shape 1..4 x 1..4 and the uninitialised state, arbitrary float arguments",
  "A test visits one shape and one in-range index; the panics live at 0-sized (uninitialised) objects, at index 255 and on shape combinations nobody writes down.",
  [V, M, L, Q, C], [("size/index validation before arithmetic on sizes", f"{C}: is_valid_*; {M}: add_row, del_row, is_lower_triangular, diag; {L}: lup, eigen")])
p("C03", "An uninitialised vector or matrix cannot be used",
  "Until it is initialised, a vector or matrix reports an error from every operation that would read, write, measure, compare, convert or resize it, and it stays uninitialised. An initialised operand combined with an uninitialised one also yields an error and is left unchanged.",
  ["inputs", "histories"], "every operation x which of the operands is uninitialised x every shape and content of the initialised ones",
  "The tests check the not-initialised error on two or three getters only; the claim is about every entry point and operand position.",
  [V, M, Q, C], [("initialization flag checks", f"{V}, {M}: every method")], state=[("initialized", "whether the container may be used", f"{V}, {M}")])
p("C04", "Sizes 1 to 4 are the only ones accepted, once, and a refusal changes nothing",
  "Initialising or re-initialising a vector or matrix succeeds exactly when every dimension is between 1 and 4, and reports which limit was broken otherwise. A container can be initialised only once, re-initialised only after that, and reports the requested dimensions afterwards. A refused request leaves state, dimensions and elements exactly as they were.",
  ["inputs", "histories"], "all 256x256 size requests, from every prior state (uninitialised, or any shape with any content)",
  "Tests try four or five sizes from a fresh object; the refusal path from an already populated object is never exercised.",
  [V, M, C], [("size validation", f"{C}: is_valid_rows_number, is_valid_cols_number; {V}, {M}: init, reinit")])
p("C05", "Every element has its own cell and out-of-range indices are refused",
  "Writing an element changes that element and nothing else, and reading returns the last value written there, bit for bit, for every matrix and vector shape. An index outside the dimensions is refused with the error for that axis and changes nothing.",
  ["inputs", "histories"], "every shape, every (write index, read index) pair over all 8-bit indices, every finite float value including signed zeros and subnormals",
  "Aliasing of two cells needs a particular rectangular shape and index pair; tests probe one square case.",
  [V, M, C, Q], [("row-major addressing with the number of columns as stride", f"{M}: set_element, get_element")])
p("C06", "Operands of incompatible shape are refused without side effects",
  "Every binary or three-operand operation on vectors, matrices or quaternions succeeds on shapes exactly when they are compatible for that operation, and otherwise returns a size error. An operation refused because of a shape, an index or a size leaves every operand, dimensions and elements, exactly as it was.",
  ["inputs", "configurations"], "every operation x every combination of operand shapes, every index argument, arbitrary element values",
  "The shape space is a product of up to six dimensions; tests cover matching shapes and one or two mismatches, never the state after a refusal.",
  [V, M, Q], [("shape checks before work", f"{V}, {M}: is_same_size_as and the size tests in mul, set_row, set_col, get_row, get_col, add_row, add_col; {Q}: is_quaternion")])
p("C07", "Reshaping and copying moves exactly the right elements",
  "Inserting a row or column, deleting a row, replacing or extracting a row or column, taking any diagonal, transposing, copying, duplicating, filling, filling with the identity and converting a vector to a column put every element where the definition of the operation says, bit for bit, with the resulting dimensions, and disturb nothing else. Extraction and copying leave the source untouched.",
  ["inputs"], "every shape, every position argument, arbitrary finite element values",
  "Tests check one or two shapes with hand-written numbers; off-by-one shifts show only for particular rectangular shapes and positions.",
  [M, V], [("element shifting", f"{M}: add_row, add_col, del_row, set_cols, transpose, diag, set_row, set_col, get_row, get_col"), ("copies", f"{V}, {M}: copy_from, duplicate, convert_to_matrix")])
p("C08", "Element-wise arithmetic is exact per element and identical in all variants",
  "Addition, subtraction, scalar addition, scalar subtraction and scaling of vectors and matrices apply the operation to every element of the operand, in the documented operand order. The store-into, in-place and returning variants of an operation produce the same result, and operands other than the destination are unchanged.",
  ["inputs"], "every shape, all finite element and scalar values (result in IEEE single precision)",
  "Nothing in the suite compares the variants with each other or covers rectangular shapes; a wrong operand order or index needs distinct symbolic values to show.",
  [V, M], [("element loops", f"{V}, {M}: add*, sub*, add_scalar*, sub_scalar*, mul_by_scalar*")])
p("C09", "Products, norms and traces equal their mathematical definition",
  "Matrix product, dot product, outer product, trace, Euclidean norm, Frobenius norm and element powers equal their textbook definition on the operands for every compatible shape, up to rounding, with a vector norm at or below the library's tolerance reported as zero. Normalising a vector longer than the tolerance gives the parallel unit vector, and any shorter one gives the zero vector. Operands that are only read stay unchanged.",
  ["inputs"], "every compatible shape, arbitrary real element values in a bounded box",
  "A test fixes one numeric example per operation; a dropped or doubled term can vanish on it.",
  [V, M], [("accumulation loops", f"{M}: mul, trace, calculate_frobenius_norm, power_elements; {V}: dot_product, outer_product, calculate_norm, normalize, power_elements")])
p("C10", "Both determinant routines give the determinant, sign included",
  "For every square matrix the permutation-based determinant equals the Leibniz determinant, and the factorisation-based determinant, whenever it returns a value, equals it too, up to rounding. The factorisation-based routine reports singularity only for a matrix that has no usable pivot, and non-square matrices are refused by both.",
  ["inputs"], "square matrices of sizes 1..4 with arbitrary entries in a bounded box, over all pivot orders",
  "The sign depends on which of the row permutations the pivoting takes; one example exercises one of them.",
  [M, L], [("pivoted LU and permutation sign", f"{L}: lup; {M}: det, det_naive, generate_permutations, count_inversions")])
p("C11", "Solving and inverting return true solutions, and only refuse singular input",
  "Whenever factorising and solving succeeds, the solution satisfies the linear system, and whenever inversion succeeds the result times the original is the identity, up to rounding. A matrix with no usable pivot is refused, a well-conditioned one never is, and a refused inversion leaves the matrix unchanged.",
  ["inputs"], "square matrices of sizes 1..4 and right-hand sides with arbitrary entries in a bounded box, over all pivot orders",
  "Existing tests only print a factorisation; correctness for each pivot order and refusal of exactly the singular inputs are universally quantified over matrices.",
  [L, M], [("pivoted LU, forward and backward substitution", f"{L}: lup, solve; {M}: invert")])
p("C12", "Triangular factorisations multiply back to the matrix",
  "When the LR, Crout LU or Cholesky factorisation succeeds, the factors are triangular (unit lower-triangular first factor for LR and LU, lower-triangular factor for Cholesky) and their product is the original matrix, up to rounding. A matrix whose leading principal minors are all well away from zero is always factorised, and Cholesky refuses matrices that are not symmetric positive definite.",
  ["inputs"], "square matrices of sizes 1..4 with arbitrary entries in a bounded box with non-degenerate leading minors",
  "The suite runs the factorisation on a few matrices; wrong accumulators only show from size 3 on and for generic entries.",
  [M], [("Doolittle/Crout/Cholesky loops", f"{M}: lr, lu_crout, chol, is_positive_definite")])
p("C13", "QR gives an orthonormal Q and triangular R that multiply back to the matrix",
  "For every matrix with at least as many rows as columns and independent columns, the QR decomposition succeeds, Q has orthonormal columns, R is square upper triangular, and Q times R is the original matrix, up to rounding.",
  ["inputs"], "full-column-rank matrices with bounded entries: 1x1..4x1, 2x2, 3x2, 4x2, 3x3, 4x3 with arbitrary entries; 4x4 made of two interleaved 2x2 blocks, or a fixed orthogonal matrix times an arbitrary triangular one",
  "No test checks the decomposition; rectangular input is never tried.",
  [M], [("Gram-Schmidt", f"{M}: qr_decomp")])
p("C14", "Matrix predicates answer exactly their definition",
  "Equality, symmetry, upper and lower triangularity, orthogonality, membership of the rotation group, positive-definiteness, squareness and same-size answer true exactly when the definition holds within the stated tolerance, for every shape for which the question makes sense, and never modify the matrix.",
  ["inputs"], "every shape and arbitrary real entries; tolerance comparisons at any distance from the threshold",
  "Each predicate is a universally quantified statement over entries; tests check one positive example of a few of them.",
  [M, V, U], [("entry comparisons", f"{M}: is_equal_to, is_symmetric, is_upper_triangular, is_lower_triangular, is_orthogonal, is_so_n, is_positive_definite; {U}: allclose")])
p("C15", "Eigen-decomposition returns orthonormal vectors and never invents eigenvalues",
  "When the eigen-decomposition of a full-rank symmetric matrix succeeds, the returned vectors are orthonormal, diagonalise the matrix up to the tolerance and each returned value is the one of its vector, with and without shifting; for a diagonal matrix the values are its entries. A budget too small to converge, or an iteration that stands still, is reported as an error, never as a success with made-up values.",
  ["inputs"], "symmetric matrices of size 1 and 2, diagonal ones of sizes 1..4, symmetric scaled permutation matrices of sizes 2..4, sizes 2..4 with one coupled pair of axes turned by any angle up to 36 degrees; iteration budgets 0..4",
  "The routine is not tested at all; the failure needs a particular size, a stalled iteration or an exhausted budget.",
  [L, M], [("QR iteration", f"{L}: eigen")])
p("C16", "Quaternion algebra is the Hamilton algebra",
  "The quaternion product is the Hamilton product in both its forms, conjugation negates exactly the vector part, and a quaternion longer than the tolerance times its inverse is the identity while a shorter one inverts to zero. Component access and the real, pure, unit and identity tests agree with the same component order.",
  ["inputs"], "all pairs of quaternions with bounded real components (polynomial identity)",
  "A sign error in one term of sixteen is invisible on inputs with zero or symmetric components such as the one tested.",
  [Q, V], [("component formulas", f"{Q}: mul, mul_new, conjugate, conjugate_new, invert, fillq, get_vector_part, is_*")])
p("C17", "A unit quaternion acts as one and the same rotation everywhere",
  "For every unit quaternion the direction cosine matrix is a proper rotation, rotating a vector (in place or into a new one) equals multiplying by that matrix and equals the sandwich product with the conjugate, preserves length, and the matrix of a product is the product of the matrices. The logarithm of a rotation matrix away from the identity and half turns is the skew-symmetric matrix of its axis times its angle, in both its forms.",
  ["inputs"], "all unit quaternions and all vectors with bounded components",
  "Each statement is an identity over the unit 3-sphere; tests evaluate one point.",
  [Q, M], [("formulas", f"{Q}: convert_to_dcm, rotate, rotate_in_place; {M}: log, log_in_place, adjugate_in_place")])
p("C18", "Converting a rotation matrix back gives the quaternion it came from",
  "For the rotation matrix of any unit quaternion that is not a half turn, Chiaverini's conversion returns that quaternion up to overall sign, Hughes's returns its conjugate up to sign (it reads the transposed convention), and Sarabandi's returns the magnitude of every component. For half turns Chiaverini's and Hughes's conversions return a zero real part and the magnitude of every component. Matrices that are off by rounding never make Chiaverini's or Hughes's conversion fail with a non-finite value.",
  ["inputs"], "all unit quaternions, half turns as a case of their own, over every branch of the conversions, any threshold for Sarabandi in [-0.5,0.5]",
  "Each conversion has several branches chosen by the matrix itself; no test runs them.",
  [Q], [("branch formulas", f"{Q}: hughes, chiaverini, sarabandi")])
p("C19", "Euler angles describe the same rotation and are always finite",
  "For every unit quaternion away from gimbal lock, composing yaw, pitch and roll rotations with the returned angles gives the quaternion's rotation matrix. For every quaternion of unit length up to rounding, including at gimbal lock, the three angles are finite and the pitch stays within a quarter turn.",
  ["inputs"], "all unit quaternions, and all quaternions with norm within 0.1% of one",
  "The failure sits exactly at the gimbal-lock set, which a fixed example misses.",
  [Q], [("angle extraction", f"{Q}: convert_to_euler")])
p("C20", "The quaternion exponential is the exponential series, in both forms",
  "The exponential of a quaternion equals e to its real part times (cosine of the vector length, sine of the vector length along the vector direction), and e to the real part for a real quaternion. The in-place and the returning form give the same result.",
  ["inputs"], "all quaternions with bounded components, over every branch (real, pure, general)",
  "The two forms differ only on a thin set of inputs; the suite does not call either.",
  [Q], [("branching on real/pure", f"{Q}: exp, exp_new")])
p("C21", "Interpolation hits both endpoints and stays on the segment or arc",
  "Linear interpolation gives (1-a)u + a v for every a in [0,1]; spherical interpolation of unit vectors that are not opposite gives the unit vector on the arc between them at fraction a, so 0 gives the first, 1 the second and a=1/2 the bisector. A parameter outside [0,1] is refused, and the end points themselves are never modified.",
  ["inputs"], "all vector pairs of size 1..4 with bounded components and all parameters",
  "Holds for a continuum of parameters and directions; there is no test of either interpolation.",
  [V], [("weights", f"{V}: lerp, slerp")])
p("C22", "Sensors deliver the configured correction of the last accepted measurement",
  "After a successful update every sensor's reading is the configured scale and misalignment matrix applied to the raw measurement minus the configured biases, where each off-diagonal parameter couples exactly the two axes it is named after. Readings depend only on the current configuration and the last accepted update, and a refused (non-finite) update leaves the readings as they were; with the default configuration the reading is the measurement itself.",
  ["inputs", "histories", "configurations"], "all configurations (12 symbolic parameters), all raw measurements, one and two updates, reconfiguration in between, three sensor kinds",
  "The test uses the default configuration, under which swapped or dropped cross terms and biases are invisible.",
  [G, A, MG], [("bias removal then matrix product", f"{G}, {A}, {MG}: correct, update")])
p("C23", "Sensor configurations round-trip, directly and through the filter",
  "Reading back a sensor's configuration returns exactly the twelve values last set, whether they were given at initialisation or later, on the sensor or through the filter that owns it, and for each of the three sensors independently.",
  ["inputs", "histories"], "all finite parameter values (bit for bit), any order of set/get across the three sensors of the filter",
  "No test reads a configuration back; swapped fields are invisible when both hold the default.",
  [G, A, MG, AQ], [("field mapping", f"{G}, {A}, {MG}: private_set_config, get_config; {AQ}: set_*_config, get_*_config")])
p("C24", "Sensors and filters enforce their lifecycle and survive a refused start",
  "Sensors and filters refuse every use before initialisation and a second initialisation after it, with the error of that component, and an initialisation that is refused leaves the component uninitialised and able to be initialised afterwards. A refused call never changes the estimated attitude.",
  ["histories", "inputs", "fault_sequences"], "every sequence of up to three calls drawn from init (valid / each way of being invalid), configure, update and read, with symbolic arguments",
  "Call orders and failing initialisations are histories; the test only runs the happy path.",
  [G, A, MG, AR, AQ, DV], [("initialized flags", f"{G}, {A}, {MG}, {AR}, {AQ}, {DV}: init, update, getters")])
p("C25", "Angular-rate filter: the closed form is the exact rotation and keeps unit length",
  "From any unit attitude, one closed-form update multiplies the attitude on the right by the rotation of angle |w|*period about the corrected rate w, and leaves it unchanged when |w| is within the tolerance of zero. The estimate stays a unit quaternion after every successful update by any method, for any sequence of measurements.",
  ["inputs", "histories"], "all unit attitudes, rates, periods and sensor configurations in a bounded box; one update symbolically plus the inductive unit-length step",
  "The only test prints the result; the identity ranges over attitudes, axes, rates and periods.",
  [AR, OC, G, V], [("quaternion propagation", f"{AR}: update; {OC}: calculate_omega_matrix")])
p("C26", "Angular-rate filter: series and Euler steps are truncations of the closed form",
  "The Taylor update of order n is the normalised truncation, at power n, of the exponential series whose full sum is the closed-form update, for every order; the Euler update is the order-1 truncation, so all methods agree to first order in the period. Unimplemented methods are reported as an error and leave the attitude unchanged.",
  ["inputs", "configurations"], "all unit attitudes, rates, periods in a bounded box; orders 0..8 (0..10 thorough), orders 12 and 16 for turns about one axis",
  "Needs order 2 or more and a rotation off the coordinate axes to differ from the truth, and agreement across methods is never compared by a test.",
  [AR, OC, U], [("series accumulation", f"{AR}: update; {U}: factorial")])
p("C27", "Aqua filter accepts exactly well-formed inputs and says what is wrong",
  "Initialisation in gyro mode needs a gyro configuration, an initial attitude must be given completely or not at all, and each gyro-mode update needs all three rates; each omission has its own error. Interpolation thresholds outside [0,1], interpolation gains outside [0,1] and adaptive thresholds in the wrong order are refused by the update that uses them, and without gyro those settings and the rates are ignored.",
  ["inputs", "configurations"], "all 2^4 present/absent patterns of the attitude, all 2^3 of the rates, both modes, symbolic thresholds and gains",
  "The pattern space of optional arguments is combinatorial; the test uses one pattern per mode.",
  [AQ], [("argument checks", f"{AQ}: init, update, interpolate, calculate_adaptative_gain")])
p("C28", "Aqua without gyro: the attitude is the one the two vectors define",
  "In accelerometer-magnetometer mode, for measurements that are not zero and not parallel, the updated attitude is a unit quaternion whose transposed rotation takes the measured gravity direction to (0,0,-1) and the magnetic field into the x-z plane with a non-negative x component. The result depends only on the current corrected measurements, not on earlier ones or on the length of the measured vectors.",
  ["inputs", "histories"], "all pairs of non-parallel accelerometer and magnetometer directions in a bounded box, both hemispheres of each branch",
  "Four sign branches selected by the inputs, each a separate formula; the test never asserts the result.",
  [AQ, Q], [("algebraic quaternion from acceleration and field", f"{AQ}: update (AM branch)")])
p("C29", "Aqua with gyro: corrections are bounded and never poison the filter",
  "In gyro mode with gains in [0,1], the attitude after a successful update is a unit quaternion, with both gains zero it is the normalised first-order gyro prediction, and each correction turns it the configured part of the way to the alignment that the measured gravity and field define. The adaptive gain is the configured gain below the first threshold, zero above the second, and between zero and the configured gain in the band between them, on every update regardless of earlier disturbances, so measurements with any magnitude of acceleration are accepted.",
  ["inputs", "histories"], "all unit attitudes and measurements in a bounded box; two consecutive updates for the history part",
  "Requires a disturbance in a narrow magnitude band followed by another update; the test has no disturbance.",
  [AQ, OC], [("prediction, correction, adaptive gain", f"{AQ}: update (MARG branch), calculate_adaptative_gain, interpolate")])
p("C30", "Davenport filter validates its weights and accepts measurements once initialised",
  "The filter initialises exactly when both weights lie in the accepted range up to 1, and once initialised it accepts every finite measurement pair.",
  ["inputs", "histories"], "all weights (every float), all optional-argument patterns, all finite measurements in a bounded box",
  "Weight validation is a statement over all floats; no test initialises with a bad weight or updates the filter.",
  [DV], [("weight range check", f"{DV}: init, update")])
p("C31", "Complex numbers form the complex field",
  "A complex number built or set from parts returns those parts, non-finite parts are refused without change, and addition, subtraction, multiplication, division, negation, conjugation, modulus, polar construction, exponential and swap satisfy their definitions for all operands. Division by a number within the tolerance of zero is refused.",
  ["inputs"], "all operand pairs with bounded real parts (polynomial identities), all bit patterns for the construction and setters",
  "The crate has no tests at all.",
  [CX, U], [("component formulas", f"{CX}: all methods")])
p("C32", "Scalar helpers meet their definition on every input",
  "Validity, closeness, range, minimum, maximum, clipping and sign agree with their mathematical definition for every argument including NaN, infinities and signed zeros, closeness refuses non-finite values, clipping into a proper range always lands in it, and the factorial is exact up to 20 and never fails for larger arguments.",
  ["inputs"], "all 2^32 bit patterns of each float argument, all 8-bit factorial arguments, all 32-bit and 8-bit integers for the ordered helpers",
  "These are total functions over floats; the crate has no tests.",
  [U], [("helpers", f"{U}: is_valid_value, allclose, in_range, min, max, minf, maxf, clip, factorial, sign")])

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
        for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
