//! C25, C28, C29: comparisons, rotation tests, printing.
use super::util::*;
use super::*;
use static_math::quaternion::Quaternion;
use static_math::dual_quaternion::DualQuaternion;
use static_math::traits::LinearAlgebra;
use static_math::transformations::distance_to_manifold;
use static_math::utils::*;
use static_math::*;

// ------------------------------------------------------------------ C25
/// what nearly_equal means, rounding and overflow apart
fn near<T: Sc>(a: T, b: T, e: T) -> Cond {
    let d = a - b;
    let z = zero::<T>();
    let az = any([T::eqx(a, z), T::eqx(b, z)]);
    // |a - b| < e (|a| + |b|), by the signs
    let rel = |x: T, y: T| {
        let s = x + y;
        all([T::lex(z, x), T::lex(z, y), T::ltx(d, e * s), T::ltx(-d, e * s)])
    };
    let r = any([rel(a, b), rel(-a, b), rel(a, -b), rel(-a, -b)]);
    let ab = all([T::ltx(d, e), T::ltx(-d, e)]);
    any([T::eqx(a, b), all([az.clone(), ab]), all([az.not(), r])])
}
fn sized<T: Sc>(x: T) {
    let (lo, hi) = (T::rat(1, 1_000_000_000), T::rat(1_000_000_000, 1));
    T::assume(any([T::eqx(x, zero()), all([T::lex(lo, x), T::lex(x, hi)]), all([T::lex(lo, -x), T::lex(-x, hi)])]));
}
fn tol<T: Sc>() -> T {
    let e = T::var("e");
    T::assume(all([T::ltx(T::rat(1, 1_000_000_000), e), T::ltx(e, one())]));
    e
}
pub fn nearly<T: Sc>() {
    T::bound("numbers zero or of magnitude in [1e-9, 1e9], tolerance in (1e-9, 1)");
    let (a, b) = (T::var("a"), T::var("b"));
    sized(a);
    sized(b);
    let e = tol::<T>();
    let r = nearly_equal(a, b, e);
    T::claim("nearly_equal is the relative comparison, absolute when a number is zero", c(r).iff(near(a, b, e)));
}
pub fn nearly_sym<T: Sc>() {
    T::bound("numbers zero or of magnitude in [1e-9, 1e9], tolerance in (1e-9, 1)");
    let (a, b) = (T::var("a"), T::var("b"));
    sized(a);
    sized(b);
    let e = tol::<T>();
    T::claim("nearly_equal is symmetric", c(nearly_equal(a, b, e)).iff(c(nearly_equal(b, a, e))));
    T::claim("a number is nearly equal to itself", c(nearly_equal(a, a, e)));
}
pub fn nearly_z<T: Sc>() {
    T::bound("every number; the machine epsilon of f64");
    let a = T::var("a");
    let e = T::epsilon();
    T::claim("nearly_zero exactly below the machine epsilon", c(nearly_zero(a)).iff(all([T::ltx(a, e), T::ltx(-a, e)])));
}
pub fn floats<T: Sc>() {
    T::bound("every pair of numbers and tolerance");
    let (a, b, t) = (T::var("a"), T::var("b"), T::var("t"));
    let d = a - b;
    T::claim("compare_floats exactly when the distance is below the tolerance", c(compare_floats(a, b, t)).iff(all([T::ltx(d, t), T::ltx(-d, t)])));
}
fn vecs_at<T: Sc, const N: usize>() {
    T::bound("slices of equal length (1 to 4); numbers zero or of magnitude in [1e-9, 1e9], tolerance in (1e-9, 1)");
    let k: [T; N] = std::array::from_fn(|i| int(i as i64 + 1));
    let e = tol::<T>();
    // each element in turn is the one that may differ
    for p in 0..N {
        let x = T::var(&format!("x{}", p));
        sized(x);
        let mut v = k;
        v[p] = x;
        T::claim(&format!("compare_vecs sees element {}", p), c(compare_vecs(&v, &k, e)).iff(near(x, k[p], e)));
    }
}
pub fn vecs1<T: Sc>() {
    vecs_at::<T, 1>()
}
pub fn vecs2<T: Sc>() {
    vecs_at::<T, 2>()
}
pub fn vecs3<T: Sc>() {
    vecs_at::<T, 3>()
}
pub fn vecs_all<T: Sc>() {
    T::bound("slices of length 2, every element in [1e-9, 1e9], tolerance in (1e-9, 1)");
    let (v, w): ([T; 2], [T; 2]) = (arr1("v"), arr1("w"));
    for x in v.iter().chain(w.iter()) {
        T::assume(all([T::lex(T::rat(1, 1_000_000_000), *x), T::lex(*x, T::rat(1_000_000_000, 1))]));
    }
    let e = tol::<T>();
    let n = |i: usize| {
        let (d, s) = (v[i] - w[i], v[i] + w[i]);
        all([T::ltx(d, e * s), T::ltx(-d, e * s)])
    };
    T::claim("compare_vecs exactly when every pair is nearly equal", c(compare_vecs(&v, &w, e)).iff(all([n(0), n(1)])));
}
fn dquats_at<T: Sc>(p: usize) {
    T::bound("dual quaternions that differ in one component; numbers zero or of magnitude in [1e-9, 1e9], tolerance in (1e-9, 1)");
    let e = tol::<T>();
    let mk = |a: &[T; 8]| {
        DualQuaternion::new(
            Quaternion::new(a[0], V3::new([a[1], a[2], a[3]])),
            Quaternion::new(a[4], V3::new([a[5], a[6], a[7]])),
        )
    };
    let k: [T; 8] = std::array::from_fn(|i| int(i as i64 - 3));
    let x = T::var("x");
    sized(x);
    let mut v = k;
    v[p] = x;
    T::claim(&format!("compare_dual_quaternions sees component {}", p), c(compare_dual_quaternions(mk(&v), mk(&k), e)).iff(near(x, k[p], e)));
}
macro_rules! dqs {
    ($($f:ident $p:literal)*) => { $(pub fn $f<T: Sc>() { dquats_at::<T>($p) })* };
}
dqs!(dq0 0 dq1 1 dq2 2 dq3 3 dq4 4 dq5 5 dq6 6 dq7 7);
pub fn elements<T: Sc>() {
    T::bound("slices of length 3, every tolerance in (1e-9, 1)");
    let v: [T; 3] = arr1("v");
    let e = tol::<T>();
    T::claim("check_elements exactly when some element is below the tolerance", c(slices_methods::check_elements(&v, e)).iff(any(v.iter().map(|x| all([T::ltx(*x, e), T::ltx(-*x, e)])))));
}

// ------------------------------------------------------------------ C28
fn orth_defect<T: Sc>(m: &[T; 9]) -> [T; 9] {
    std::array::from_fn(|k| {
        let (i, j) = (k / 3, k % 3);
        let s = sum((0..3).map(|l| m[3 * i + l] * m[3 * j + l]));
        if i == j {
            s - one()
        } else {
            s
        }
    })
}
/// a 2x2 block in one of the coordinate planes, the third axis fixed up to sign
fn planar<T: Sc>(p: usize, neg: bool, b: &[T; 4]) -> [T; 9] {
    let ax = [(0, 1, 2), (1, 2, 0), (2, 0, 1)][p];
    let mut m = [zero::<T>(); 9];
    m[3 * ax.0 + ax.0] = b[0];
    m[3 * ax.0 + ax.1] = b[1];
    m[3 * ax.1 + ax.0] = b[2];
    m[3 * ax.1 + ax.1] = b[3];
    m[3 * ax.2 + ax.2] = if neg { -one::<T>() } else { one() };
    m
}
fn ok3<T: Sc>(m: &[T; 9]) -> Cond {
    let t = T::rat(1, 1000);
    let det = leibniz(3, |i, j| m[3 * i + j]);
    let d = orth_defect(m);
    all([abs_le(det - one(), t)].into_iter().chain(d.iter().map(|x| abs_le(*x, t))))
}
fn rejects_at<T: Sc>(p: usize, neg: bool) {
    T::bound("matrices that act in one coordinate plane (every 2x2 block, entries in [-2, 2]), third axis kept or reversed");
    let b: [T; 4] = arr1("b");
    for x in &b {
        T::assume(abs_le(*x, int(2)));
    }
    let m = planar(p, neg, &b);
    if is_rotation(M33::new([[m[0], m[1], m[2]], [m[3], m[4], m[5]], [m[6], m[7], m[8]]])) {
        T::claim("what is accepted as a rotation is within 1e-3 of orthogonal with determinant one", ok3(&m));
    }
}
macro_rules! rej {
    ($($f:ident $p:literal $n:literal)*) => { $(pub fn $f<T: Sc>() { rejects_at::<T>($p, $n) })* };
}
rej!(rej0 0 false rej1 1 false rej2 2 false rejn0 0 true rejn1 1 true rejn2 2 true);
pub fn rejects_diag<T: Sc>() {
    T::bound("diagonal matrices with entries in [-2, 2]");
    let d: [T; 3] = arr1("d");
    for x in &d {
        T::assume(abs_le(*x, int(2)));
    }
    let z = zero::<T>();
    if is_rotation(M33::new([[d[0], z, z], [z, d[1], z], [z, z, d[2]]])) {
        T::claim("what is accepted as a rotation is within 1e-3 of orthogonal with determinant one", ok3(&[d[0], z, z, z, d[1], z, z, z, d[2]]));
    }
}
pub fn rejects_h<T: Sc>() {
    T::bound("homogeneous matrices with a fixed rotation, every translation and every last row");
    let r: [T; 9] = [0, -1, 0, 0, 0, -1, 1, 0, 0].map(int);
    let p: [T; 3] = arr1("p");
    let l: [T; 4] = arr1("l");
    let m = M44::new([[r[0], r[1], r[2], p[0]], [r[3], r[4], r[5], p[1]], [r[6], r[7], r[8], p[2]], l]);
    let t = T::rat(1, 1000);
    if is_rotation_h(m) {
        T::claim("an accepted matrix has the last row 0 0 0 1", all([abs_le(l[0], t), abs_le(l[1], t), abs_le(l[2], t), abs_le(l[3] - one(), t)]));
    }
}
fn rejects_h_at<T: Sc>(p: usize) {
    T::bound("homogeneous matrices that act in one coordinate plane (every 2x2 block, entries in [-2, 2]), every translation");
    let b: [T; 4] = arr1("b");
    for x in &b {
        T::assume(abs_le(*x, int(2)));
    }
    let q: [T; 3] = arr1("p");
    let m = planar(p, false, &b);
    let (z, o) = (zero::<T>(), one::<T>());
    let h = M44::new([[m[0], m[1], m[2], q[0]], [m[3], m[4], m[5], q[1]], [m[6], m[7], m[8], q[2]], [z, z, z, o]]);
    if is_rotation_h(h) {
        T::claim("the block of an accepted matrix is within 1e-3 of a rotation", ok3(&m));
    }
}
pub fn rejh0<T: Sc>() {
    rejects_h_at::<T>(0)
}
pub fn rejh1<T: Sc>() {
    rejects_h_at::<T>(1)
}
pub fn rejh2<T: Sc>() {
    rejects_h_at::<T>(2)
}
pub fn manifold<T: Sc>() {
    T::bound("every 3x3 matrix");
    let a: [[T; 3]; 3] = arr2("a");
    let m: [T; 9] = std::array::from_fn(|k| a[k / 3][k % 3]);
    let det = leibniz(3, |i, j| a[i][j]);
    let far = any([T::lex(det, zero())]);
    let d = distance_to_manifold(&M33::new(a));
    if d == T::infinity() {
        T::claim("the distance is infinite only without orientation", far);
    } else {
        T::claim("the distance is finite only with positive determinant", far.not());
        T::claim("the distance is not negative", T::cle(zero(), d));
        T::claim("the distance is the norm of R R^T - I", T::ceq(d * d, sum(orth_defect(&m).map(|x| x * x))));
    }
}

// ------------------------------------------------------------------ C29
/// the numbers printed, by line
fn shown<T: Sc>(s: &str) -> Vec<Vec<T>> {
    s.lines().map(T::parse_shown).filter(|l| !l.is_empty()).collect()
}
fn printed<T: Sc>(what: &str, s: String, rows: &[&[T]]) {
    let g = shown::<T>(&s);
    let n: Vec<usize> = g.iter().map(|r| r.len()).collect();
    let m: Vec<usize> = rows.iter().map(|r| r.len()).collect();
    T::claim(&format!("{} prints one line per row with one number per entry", what), c(n == m));
    if n == m {
        for (i, (r, w)) in g.iter().zip(rows).enumerate() {
            let e = T::rat(6, 1000);
            T::claim(&format!("{} prints row {} in order, to two decimals", what, i), all(r.iter().zip(w.iter()).map(|(x, y)| abs_le(*x - *y, e))));
        }
    }
}
pub fn print_vecs<T: Sc>() {
    T::bound("every vector; formatted with {}");
    let v: [T; 6] = arr1("v");
    for x in &v {
        T::assume(abs_le(*x, int(1000)));
    }
    printed("V2", format!("{}", V2::new([v[0], v[1]])), &[&v[..2]]);
    printed("V3", format!("{}", V3::new([v[0], v[1], v[2]])), &[&v[..3]]);
    printed("V4", format!("{}", V4::new([v[0], v[1], v[2], v[3]])), &[&v[..4]]);
    printed("V5", format!("{}", V5::new([v[0], v[1], v[2], v[3], v[4]])), &[&v[..5]]);
    printed("V6", format!("{}", V6::new(v)), &[&v[..6]]);
}
pub fn print_quats<T: Sc>() {
    T::bound("every quaternion and dual quaternion; formatted with {}");
    let v: [T; 8] = arr1("v");
    for x in &v {
        T::assume(abs_le(*x, int(1000)));
    }
    let q = Quaternion::new(v[0], V3::new([v[1], v[2], v[3]]));
    let p = Quaternion::new(v[4], V3::new([v[5], v[6], v[7]]));
    printed("Quaternion", format!("{}", q), &[&v[..4]]);
    printed("DualQuaternion", format!("{}", DualQuaternion::new(q, p)), &[&v[..4], &v[4..]]);
}
macro_rules! prm {
    ($($f:ident $M:ident $N:literal)*) => { $(pub fn $f<T: Sc>() {
        T::bound("every matrix; formatted with {}");
        let a: [[T; $N]; $N] = arr2("a");
        for x in a.iter().flatten() {
            T::assume(abs_le(*x, int(1000)));
        }
        let rows: Vec<&[T]> = a.iter().map(|r| &r[..]).collect();
        printed(stringify!($M), format!("{}", $M::new(a)), &rows);
    })* };
}
prm!(prm2 M22 2 prm3 M33 3 prm4 M44 4 prm5 M55 5 prm6 M66 6);

pub fn reg(v: &mut Vec<Harness>) {
    reg!(v, "C25", "nearly-equal", nearly, "nearly_equal");
    reg!(v, "C25", "nearly-equal-symmetric", nearly_sym, "nearly_equal");
    reg!(v, "C25", "nearly-zero", nearly_z, "nearly_zero, nearly_equal");
    reg!(v, "C25", "compare-floats", floats, "compare_floats");
    reg!(v, "C25", "compare-vecs-1", vecs1, "compare_vecs, nearly_equal");
    reg!(v, "C25", "compare-vecs-2", vecs2, "compare_vecs, nearly_equal");
    reg!(v, "C25", "compare-vecs-3", vecs3, "compare_vecs, nearly_equal");
    reg!(v, "C25", "compare-vecs-all", vecs_all, "compare_vecs, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-0", dq0, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-1", dq1, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-2", dq2, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-3", dq3, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-4", dq4, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-5", dq5, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-6", dq6, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "compare-dual-quaternions-7", dq7, "compare_dual_quaternions, nearly_equal");
    reg!(v, "C25", "check-elements", elements, "check_elements, nearly_equal");
    reg!(v, "C28", "rejects-z", rej0, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-x", rej1, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-y", rej2, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-reversed-z", rejn0, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-reversed-x", rejn1, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-reversed-y", rejn2, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-diagonal", rejects_diag, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-last-row", rejects_h, "is_rotation_h, get_parts_raw, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-h-z", rejh0, "is_rotation_h, get_parts_raw, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-h-x", rejh1, "is_rotation_h, get_parts_raw, compare_vecs, nearly_equal");
    reg!(v, "C28", "rejects-h-y", rejh2, "is_rotation_h, get_parts_raw, compare_vecs, nearly_equal");
    reg!(v, "C28", "distance-to-manifold", manifold, "distance_to_manifold, M33::det, M33::norm2");
    reg!(v, "C29", "vectors", print_vecs, "Display for V2..V6");
    reg!(v, "C29", "quaternions", print_quats, "Display for Quaternion, DualQuaternion");
    reg!(v, "C29", "matrix-2", prm2, "Display for M22");
    reg!(v, "C29", "matrix-3", prm3, "Display for M33");
    reg!(v, "C29", "matrix-4", prm4, "Display for M44");
    reg!(v, "C29", "matrix-5", prm5, "Display for M55");
    reg!(v, "C29", "matrix-6", prm6, "Display for M66");
}
