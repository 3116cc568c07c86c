T += [
P("C01", "Matrix ring operations are the textbook ones",
  "For every pair of square matrices of size 2 to 6 and every scalar, addition, subtraction, negation, the in-place forms, the matrix product, and scaling or dividing by a scalar give exactly the entrywise or row-by-column results of linear algebra" + EX + ". The zero and one matrices are the neutral elements, the zero test holds exactly for the zero matrix, and two matrices are equal exactly when all entries are.",
  (["inputs"], "every entry of every matrix and every scalar"), MATS,
  [("operator implementations", "src/matrix2x2.rs .. src/matrix6x6.rs (impl Add/Sub/Neg/Mul/Div/AddAssign/SubAssign/Zero/One/PartialEq)")],
  "The products are written out entry by entry (36 sums of 6 terms for size 6); a wrong index or sign in one term shows only for operands in which that term matters, and tests use one example per size."),
P("C02", "Matrix-vector and vector-matrix products",
  "For sizes 2 to 6 a matrix times a vector is the vector of row products and a vector times a matrix is the vector of column products" + EX + ". This holds for every entry of the matrix and the vector.",
  (["inputs"], "every matrix and vector"), MATS + VECS,
  [("products", "impl Mul<V> for M in src/matrix*.rs, impl Mul<M> for V in src/vector*.rs")], SAMPLE),
P("C03", "Vector algebra: sums, scaling, dot and cross products, unit vectors",
  "For vectors of length 2 to 6, construction from numbers or arrays keeps the components, and addition, subtraction, negation, the in-place forms, scaling, division, equality, the zero test, the dot product and (length 3) the right-handed cross product follow the componentwise definitions" + EX + ". Normalising returns the parallel vector of unit length for every non-zero vector and an error exactly for the zero vector; the constant vectors (zeros, ones, axes) have their values.",
  (["inputs"], "every component"), VECS,
  [("operators and constructors", "src/vector2.rs .. src/vector6.rs"), ("normalize", "src/vector*.rs, src/errors.rs")], SAMPLE),
P("C04", "The determinant is the signed sum over permutations",
  "For every square matrix of size 2 to 6 the determinant equals the Leibniz sum over all permutations" + EX + ".",
  (["inputs"], "every entry of the matrix"), MATS,
  [("det", "LinearAlgebra::det in src/matrix2x2.rs .. src/matrix6x6.rs")],
  "The formulas are hand-expanded polynomials of up to 720 products; tests evaluate them at one or two matrices, where a wrong term is easily multiplied by zero or cancelled."),
P("C05", "The inverse inverts, and is refused only for singular matrices",
  "For sizes 2 to 6, whenever a matrix whose determinant exceeds 1e-3 in absolute value is inverted, the result times the matrix, in both orders, is the identity" + EX + ". No inverse is returned only when the determinant is zero within rounding (below 1e-9), and an inverse is never returned for a zero determinant.",
  (["inputs"], "every entry of the matrix"), MATS,
  [("inverse", "LinearAlgebra::inverse in src/matrix2x2.rs .. src/matrix6x6.rs")],
  "The cofactor formulas are hand-expanded (36 cofactors of 120 products each for size 6); a wrong cofactor term shows only for matrices in which that product is not zero."),
P("C08", "Constructors, accessors and views agree on the position of every entry",
  "For sizes 2 to 6 construction (by the constructor, conversion from arrays or the literal macros), indexing by pair or by row, transposition, row and column extraction, reconstruction from columns, the diagonal, the triangles, elementwise mapping, and submatrices (size 4) all agree on which entry is at row i, column j. Writing through an index, or copying a 3x3 block into a quadrant of a 6x6 matrix, changes exactly the addressed entries, and the reported row and column counts are the dimension.",
  (["inputs"], "every entry and every index"), MATS,
  [("indexing and views", "Index/IndexMut/transpose/get_rows/get_cols/new_from_vecs/get_diagonal/for_each in src/matrix*.rs"), ("block copy", "M66::copy_elements_from in src/matrix6x6.rs")], SAMPLE),
P("C09", "Norms, trace, extrema, projections and eigenvalues",
  "Trace, the euclidean (Frobenius) norm, the sum norm and the maximum norm have their mathematical values for every vector of length 2 to 6, matrix of size 2 to 6 and slice of up to 6 elements" + EX + "; slice maximum and minimum (with positions) bound every element and are attained. The scalar projection onto a vector and slice normalisation follow their definitions for non-zero vectors. For 2x2 matrices the reported eigenvalues are both roots of the characteristic polynomial, and they are refused exactly when they are complex.",
  (["inputs"], "every component of the vectors, matrices and slices"), MATS + VECS + ["src/slices_methods.rs"],
  [("norms", "src/vector*.rs, src/matrix*.rs, src/slices_methods.rs"), ("real_eigenvals", "src/matrix2x2.rs"), ("find_max_min", "src/slices_methods.rs")],
  "Maxima depend on the order and signs of all components; tests try one order."),
P("C10", "Quaternion algebra: Hamilton product, inverse, division, normalisation",
  "Quaternion addition, subtraction, negation, scaling, the Hamilton product, conjugate, dot product and norms have their algebraic definitions for all components" + EX + ", and the time derivative is half the rate times the quaternion. For every quaternion of norm above 1e-3 the inverse, division and normalisation satisfy their defining equations, also when they are applied to results of other operations whose operands are normalised, arbitrary or one of each. Below that norm they are refused (or, in the total variant, replaced by a unit quaternion for the zero quaternion) but never wrong.",
  (["inputs", "histories"], "every component, and one operation on operands with any combination of marks"), ["src/quaternion.rs"],
  [("operators", "impl Mul/Add/Sub/Neg/Div in src/quaternion.rs"), ("cached normalised mark", "field normalized in src/quaternion.rs")],
  "Results depend on a cached mark that is carried through operations; tests check single operations on fresh values."),
P("C11", "Unit quaternions act as rotations",
  "For every unit quaternion and vector, rotating the vector gives the vector part of q v q*, keeps its length, and agrees with the rotation matrix of the quaternion" + EX + ". That matrix is orthogonal with determinant one, the conjugate gives its transpose, the opposite quaternion the same matrix, and products of quaternions correspond to products of matrices and successive rotations.",
  (["inputs"], "every unit quaternion and vector"), ["src/quaternion.rs"],
  [("rotation of a vector", "impl Mul<V3> for Quaternion"), ("to_rotation", "src/quaternion.rs")], SAMPLE),
P("C12", "A rotation matrix converts to its quaternion and back",
  "For every rotation matrix the quaternion obtained from it is a unit quaternion, equal up to sign to the one that generates the matrix, and converting it back gives the matrix" + EX + ". This includes half turns and every case distinction of the conversion.",
  (["inputs"], "every rotation matrix"), ["src/quaternion.rs"],
  [("from_rotation", "Quaternion::from_rotation, to_rotation in src/quaternion.rs")],
  "The conversion branches on the largest component; tests exercise one rotation."),
P("C13", "Axis-angle quaternions, and recovering axis and angle",
  "The quaternion built from an angle and a non-zero axis is the unit quaternion with half-angle components and rotates by Rodrigues' formula; a zero axis is refused; the norm-encoded form uses the vector's norm as the angle" + EX + ". For every non-zero quaternion the reported angle has the half-angle cosine and sine of the quaternion and the reported axis is the unit vector along its imaginary part (absent only if that is negligible); angles in [0, 2 pi] are recovered.",
  (["inputs"], "every angle, axis and quaternion in the stated domains"), ["src/quaternion.rs"],
  [("constructors", "Quaternion::rotation, rotation_norm_encoded"), ("accessors", "Quaternion::get_angle, get_axis, axis_angle")], SAMPLE),
P("C14", "Quaternion exponential, logarithm, roots, powers, sine and cosine",
  "For components within [-4, 4] the quaternion exponential, sine and cosine have their closed forms along the imaginary direction, including the limits for real quaternions (for the exponential), and for norms above 1e-3 the logarithm has the log-norm and polar angle" + EX + ". exp(ln q) = q, ln(exp q) = q for imaginary norms below pi, the square root squares to q with non-negative real part, and the powers -1, 0, 1, 2, 3 are the corresponding products, for imaginary parts above 1e-3 of the norm; roots, the powers -1 to 2, sine and cosine also hold for real quaternions of either sign.",
  (["inputs"], "every component in the stated domains"), ["src/quaternion.rs"],
  [("functions", "Quaternion::exp, ln, sqrt, pow, sin, cos")], "Each function is tested on one value; signs, quadrants and the marked-normalised shortcuts are not reached."),
P("C15", "Spherical interpolation follows the short great circle",
  "For unit quaternions a and b and t in [0, 1], interpolation starts at a, ends at b (or at -b when that is nearer), stays on the unit sphere, and moves at constant angular speed along the shorter great circle" + EX + "; for orthogonal quaternions either quarter turn is allowed. For quaternions less than 1e-3 rad apart up to sign it follows the straight line along the short arc within 1e-6, and from a to a or -a it stays at a.",
  (["inputs"], "every pair of unit quaternions and every t"), ["src/quaternion.rs"],
  [("slerp", "Quaternion::slerp in src/quaternion.rs")], "The short-arc, near-parallel and generic branches each depend on the sign and size of the dot product; tests use two pairs."),
P("C16", "Elementary rotations, planar poses and Euler sequences",
  "The elementary rotations about x, y, z and in the plane are the right-handed ones for every angle, add their angles under multiplication, and are inverted by transposition; planar poses and pure translations have their blocks in place" + EX + ". For every triple of angles and each of the ten named sequences, and the default z-y-x, the Euler rotation is the product of the elementary rotations in the named order.",
  (["inputs", "configurations"], "every angle and every Euler sequence"), ["src/transformations.rs"],
  [("constructors", "rot2, rotx, roty, rotz, ksi, translation_2d, translation_3d, euler_to_rotation, rotation_inverse")],
  "Eight of the ten sequences have no test."),
P("C19", "Skew matrices, twists, adjoints and screw axes",
  "The skew matrix of a vector is antisymmetric, acts as the cross product and is inverted by its vector form; twists and their 4x4 forms convert both ways with the rotational part first (linear part first in the one function documented so) for all components. The adjoint of a pose has blocks R, 0, [p]R, R, changes the frame of twists by conjugation and is multiplicative; a screw axis is (s, -s x q + h s)" + EX + ". Splitting exponential coordinates into axis and magnitude multiplies back to the input, with a unit axis (rotational part first, linear part if there is no rotation).",
  (["inputs"], "every component"), ["src/transformations.rs", "src/matrix6x6.rs"],
  [("maps", "skew_from_vec, skew_to_vec, skew_v6, skew_from_vec_aug, twist_to_se3, se3_to_twist, adjoint, screw_to_axis, axis_angle, axis_angle6")], SAMPLE),
P("C20", "Exponential and logarithm of rotations",
  "The rotation of an axis and angle is Rodrigues' formula for every vector and angle, orthogonal with determinant one for unit axes, and the matrix exponential of theta times the skew matrix of a unit axis is the same rotation for every theta above 1e-6 (the identity at zero)" + EX + ". The matrix logarithm of a rotation by theta about u is theta times the skew matrix of u for theta in [1e-3, pi - 1e-3], zero for the identity, and pi times the skew matrix of u or -u for half turns about every axis; exponentiating it gives the rotation back.",
  (["inputs"], "every unit axis and angle in the stated domains"), ["src/transformations.rs"],
  [("maps", "rotation_from_axis_angle, matrix_exponential, matrix_log")], "Half turns and their three case distinctions have no test; the generic branches have one example."),

P("C06", "QR factorisation: orthogonal times upper triangular",
  "For sizes 2 to 6 and every matrix with a non-zero determinant, QR yields a matrix Q with orthonormal columns and an upper triangular R with non-negative diagonal whose product is the matrix; R is the transpose of Q times the matrix" + EX + ". A matrix with zero determinant has no factorisation.",
  (["inputs"], "every entry of the matrix"), MATS,
  [("qr", "LinearAlgebra::qr in src/matrix2x2.rs .. src/matrix6x6.rs")],
  "Gram-Schmidt loops are repeated per size; tests factor one matrix per size."),
P("C07", "LU factorisation: exchanged rows equal lower times upper triangular",
  "For sizes 2 to 6, whenever LU factorisation returns a result, the packed unit lower triangular factor times the upper triangular factor is the matrix with the recorded row exchanges applied in order (up to the tiny value that replaces a pivot that is exactly zero), each exchange is with a row from its own position on, and the product of the pivots, with the reported parity as sign, is the determinant" + EX + ".",
  (["inputs", "histories"], "every matrix, along every sequence of pivoting decisions within the stated deviations"), MATS,
  [("lu", "LinearAlgebra::lu in src/matrix2x2.rs .. src/matrix6x6.rs")],
  "The result depends on the sequence of row exchanges; tests follow one or two sequences."),
P("C17", "Euler angles are recovered from rotations and quaternions",
  "For yaw and roll within pi - 1e-6 and pitch with cosine above 1e-3, converting the z-y-x rotation back gives the three angles; for every rotation with such a pitch, the angles found rebuild the rotation, and with pitch exactly plus or minus pi/2 (gimbal lock), for every yaw and roll, they rebuild it too" + EX + ". The quaternion built from Euler angles is a unit quaternion that generates the same rotation, and its Euler angles are those of its rotation matrix.",
  (["inputs"], "every triple of angles in the stated domains"), ["src/transformations.rs", "src/quaternion.rs"],
  [("conversions", "rotation_to_euler, euler_to_rotation, Quaternion::from_euler_angles, to_euler_angles")],
  "Quadrants and the two gimbal-lock branches each need their own input; tests use one triple."),
P("C18", "Homogeneous matrices: blocks, inverse, inverse transform",
  "A homogeneous matrix built from a rotation matrix or a unit quaternion and a translation has exactly these blocks and the last row 0 0 0 1, and the parts read back are those put in (the rotation as a quaternion up to sign for cos(pitch) above 1e-3). The inverse has the transposed block and the back-rotated negative translation and, for every rigid motion, multiplies to the identity from both sides; the inverse transform of a point equals the inverse matrix applied to it" + EX + ".",
  (["inputs"], "every rotation block, translation and point"), ["src/transformations.rs"],
  [("homogeneous", "homogeneous_from_rotation, homogeneous_from_quaternion, homogeneous_inverse, homogeneous_inverse_transform, get_parts, get_parts_raw")], SAMPLE),
P("C21", "Exponential and logarithm of rigid motions",
  "The exponential of a twist with unit axis and angle above 1e-3 is the rigid motion with Rodrigues' rotation and the integrated translation; that of a pure translation is the translation" + EX + ". For angles in [1e-3, pi - 1e-3] the logarithm of the exponential of a twist is the twist, and the logarithm of a pure translation is the translation with no rotation.",
  (["inputs"], "every twist in the stated domains"), ["src/transformations.rs"],
  [("maps", "matrix_exponential6, matrix_log6")],
  "The V matrix and its inverse are written out by hand and tests evaluate one twist."),
P("C22", "Dual quaternion algebra, equality, inverse, division, normalisation",
  "Dual quaternion addition, subtraction, negation, scaling, product, the three conjugates and the norm follow the dual extension of quaternion algebra for all components, and two are equal exactly when all eight components are, whatever operations produced them" + EX + ". For every one with a real part of norm above 1e-3, inverse and division satisfy their defining equations and normalising gives a unit real part with an orthogonal dual part along the same screw motion, also for results of operations on rigid motions, or on one and an arbitrary dual quaternion. The normalised test holds exactly for a unit real part.",
  (["inputs", "histories"], "every component, and one operation on operands with any combination of marks"), ["src/dual_quaternion.rs", "src/quaternion.rs"],
  [("operators", "impl Add/Sub/Neg/Mul/Div/PartialEq in src/dual_quaternion.rs"), ("inverse, normalize", "DualQuaternion::inverse, normalize, is_normalized")],
  "The product shape and a cached mark carried through operations decide the results; tests check single operations on one or two values."),
P("C23", "Unit dual quaternions are rigid motions",
  "Building a dual quaternion from a rotation (a quaternion of norm above 1e-3, or a rotation matrix) and a translation, or from a homogeneous matrix, and reading back rotation, translation or matrix gives what was put in (the quaternion up to sign); products correspond to products of matrices and inverses and conjugates to inverses, for every rigid motion" + EX + ". Transforming a point by a rigid motion gives the rotated point plus the translation.",
  (["inputs"], "every rotation, translation and point"), ["src/dual_quaternion.rs"],
  [("conversions", "new_from_rot_trans, new_from_homogeneous, to_homogeneous, get_translation, to_rotation_translation, to_quaternion_translation"), ("transform_point", "DualQuaternion::transform_point")], SAMPLE),
P("C24", "Screw parameters, powers, logarithm and screw interpolation",
  "For every line, angle in (2e-3, 2 pi - 2e-3) and displacement, the dual quaternion of the screw is the rigid motion about and along that line, the parameters read from it are those it was built from, its power t is the screw with t times the angle and displacement (powers -1, 0, 1, 2 are the products), and its logarithm is half the angle and displacement along the line" + EX + ". For pure translations powers scale the translation. Screw interpolation starts at a, ends at b or its opposite, and follows the screw motion of the shorter turn for every t.",
  (["inputs"], "every line, angle, displacement and exponent in the stated domains"), ["src/dual_quaternion.rs"],
  [("screw", "new_from_screw_parameters, get_screw_parameters, pow, log, screw_lerp")],
  "Sign choices and the translation-only branches depend on the motion; tests interpolate one pair."),
P("C25", "Approximate comparison: relative, symmetric, elementwise",
  "For numbers that are zero or of magnitude in [1e-9, 1e9] and tolerances in (1e-9, 1), near-equality holds exactly when the numbers are equal, or one is zero and the other below the tolerance, or they differ by less than the tolerance times the sum of their magnitudes" + EX + "; it is symmetric and reflexive. Comparing slices of equal length or dual quaternions is that comparison of every component; near-zero means below the machine epsilon; the plain comparison is the absolute one; the element check finds a small element if there is one.",
  (["inputs"], "every number and tolerance"), ["src/utils.rs", "src/slices_methods.rs"],
  [("comparisons", "nearly_equal, nearly_zero, compare_floats, compare_vecs, compare_dual_quaternions, check_elements")],
  "All other tests are stated with these comparisons; one that accepts too much hides errors in everything else."),
P("C26", "Constants multiply vectors and matrices from the left; boolean vectors",
  "A float constant on the left multiplies every component of a vector of length 2 to 6 and every entry of a matrix of size 2 or 3 (f32; also f64 for length and size 3), exactly for whole numbers from -16 to 15, and the & of two boolean vectors of length 4 is taken component by component, for all operands.",
  (["inputs"], "every constant and component in the stated range"), VECS + ["src/matrix2x2.rs", "src/matrix3x3.rs"],
  [("left products", "impl Mul<V> for f32/f64, impl Mul<M22/M33> for f32/f64"), ("BitAnd", "impl BitAnd for V4<bool>")],
  "These implementations are written out per type for concrete floats; the generic ones have their own tests, most of these none.", technique=KTECH, note=KNOTE),
P("C27", "Comparisons and option-returning helpers on every IEEE float",
  "On every float, NaN, infinities and signed zeros included, the comparisons give a definite answer: nothing is nearly equal to NaN, equal infinities are nearly equal and an infinity is not within a tolerance below one of another number, numbers whose magnitudes overflow when added are told apart by sign and distance, and zero of either sign is nearly zero. Vectors, matrices, quaternions and dual quaternions are equal exactly when every component is IEEE-equal and zero exactly when every component is. The largest and smallest element of a slice lie at the positions reported. The zero quaternion has no normal form, and 2x2 and 3x3 matrices with a row or column of zeros (entries up to 1e9) have no inverse.",
  (["inputs"], "every bit pattern (some functions: every float of at most eight significant bits)"), ["src/utils.rs", "src/slices_methods.rs", "src/quaternion.rs", "src/dual_quaternion.rs"] + MATS[:2] + VECS,
  [("comparisons", "nearly_equal, nearly_zero, compare_floats, compare_vecs, compare_dual_quaternions"), ("equality", "PartialEq, Zero::is_zero"), ("find_max_min", "src/slices_methods.rs"), ("Option results", "Quaternion::normalize, M22/M33::inverse")],
  "NaN, infinities, signed zeros and overflow appear in no test.", technique=KTECH, note=KNOTE),
P("C28", "Rotation tests accept exactly the rotations",
  "Every rotation matrix is accepted as a rotation and every rigid motion as a homogeneous transformation. A matrix acting in one coordinate plane (any 2x2 block with entries in [-2, 2], third axis kept or reversed), or diagonal, is accepted only within 1e-3 of orthogonal with determinant one, and a homogeneous one only with such a block and the last row 0 0 0 1" + EX + ". The distance of a matrix to the rotations is the norm of R R^T - I for positive determinant and infinite otherwise.",
  (["inputs"], "every entry"), ["src/utils.rs", "src/transformations.rs"],
  [("tests", "is_rotation, is_rotation_h, distance_to_manifold")],
  "A test that accepts too much is not refuted by accepting rotations."),
P("C29", "Printing shows every component in place",
  "Formatting a vector, quaternion, dual quaternion or matrix of any size writes to the given destination one line per row, with every component once, in order, to two decimals, for all component values up to 1000 in magnitude.",
  (["inputs"], "every component"), MATS + VECS + ["src/quaternion.rs", "src/dual_quaternion.rs"],
  [("Display", "impl fmt::Display in src/*.rs")],
  "There is no test of the printed output."),
]
