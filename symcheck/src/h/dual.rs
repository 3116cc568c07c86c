//! C22, C23, C24: dual quaternions.
use super::quat::*;
use super::transf::*;
use super::util::*;
use super::*;
use static_math::dual_quaternion::DualQuaternion;
use static_math::quaternion::Quaternion;
use static_math::transformations::*;
use static_math::*;

type D<T> = DualQuaternion<T>;
fn mkd<T: Sc>(a: &[T; 8]) -> D<T> {
    DualQuaternion::new(mkq([a[0], a[1], a[2], a[3]]), mkq([a[4], a[5], a[6], a[7]]))
}
fn dc<T: Sc>(d: &D<T>) -> [T; 8] {
    let (r, e) = (qc(&d.real()), qc(&d.dual()));
    [r[0], r[1], r[2], r[3], e[0], e[1], e[2], e[3]]
}
fn re<T: Sc>(a: &[T; 8]) -> [T; 4] {
    [a[0], a[1], a[2], a[3]]
}
fn du<T: Sc>(a: &[T; 8]) -> [T; 4] {
    [a[4], a[5], a[6], a[7]]
}
fn join<T: Sc>(r: &[T; 4], d: &[T; 4]) -> [T; 8] {
    [r[0], r[1], r[2], r[3], d[0], d[1], d[2], d[3]]
}
fn add4<T: Sc>(a: &[T; 4], b: &[T; 4]) -> [T; 4] {
    std::array::from_fn(|k| a[k] + b[k])
}
/// product of dual quaternions (specification)
fn dham<T: Sc>(a: &[T; 8], b: &[T; 8]) -> [T; 8] {
    join(&ham(&re(a), &re(b)), &add4(&ham(&re(a), &du(b)), &ham(&du(a), &re(b))))
}
fn one8<T: Sc>() -> [T; 8] {
    join(&one4(), &[zero(); 4])
}
fn neg8<T: Sc>(a: &[T; 8]) -> [T; 8] {
    a.map(|x| -x)
}
/// (q, t q / 2): the rigid motion x -> R(q) x + t
fn motion<T: Sc>(q: &[T; 4], t: &[T; 3]) -> [T; 8] {
    let h = T::rat(1, 2);
    let e = ham(&[zero(), t[0], t[1], t[2]], q).map(|x| x * h);
    join(q, &e)
}
fn eps6<T: Sc>() -> T {
    T::rat(1, 1_000_000)
}

// ------------------------------------------------------------------ C22
pub fn dring<T: Sc>() {
    T::ring_guard(true);
    T::bound("every component an arbitrary real");
    let (a, b): ([T; 8], [T; 8]) = (arr1("a"), arr1("b"));
    let s = T::var("s");
    let (x, y) = (mkd(&a), mkd(&b));
    same("the parts are the given quaternions", &dc(&x), &a);
    let v = DualQuaternion::new_from_vecs(&V4::new(re(&a)), &V4::new(du(&a)));
    same("construction from two 4-vectors keeps the components", &dc(&v), &a);
    same("addition is componentwise", &dc(&(x + y)), &std::array::from_fn::<T, 8, _>(|k| a[k] + b[k]));
    same("subtraction is componentwise", &dc(&(x - y)), &std::array::from_fn::<T, 8, _>(|k| a[k] - b[k]));
    same("negation is componentwise", &dc(&(-x)), &neg8(&a));
    same("scaling is componentwise", &dc(&(x * s)), &a.map(|e| e * s));
    same("the product is the product of dual numbers of quaternions", &dc(&(x * y)), &dham(&a, &b));
    let (cr, cd) = (cj(&re(&a)), cj(&du(&a)));
    same("the conjugate conjugates both parts", &dc(&x.conj()), &join(&cr, &cd));
    same("the dual conjugate negates the dual part", &dc(&x.conj_as_dual()), &join(&re(&a), &neg4(&du(&a))));
    same("the combined conjugate does both", &dc(&x.conj_combined()), &join(&cr, &neg4(&cd)));
    same("the norm is x times its conjugate", &dc(&x.norm()), &dham(&a, &join(&cr, &cd)));
    same("one() is 1", &dc(&D::<T>::one()), &one8());
    same("zero() is 0", &dc(&D::<T>::zero()), &[zero(); 8]);
    same("one is neutral on the left", &dc(&(D::<T>::one() * x)), &a);
    same("one is neutral on the right", &dc(&(x * D::<T>::one())), &a);
    same("zero is neutral for addition", &dc(&(x + D::<T>::zero())), &a);
    T::ring_guard(false);
}
pub fn dequal<T: Sc>() {
    use num::{One, Zero};
    T::bound("every component an arbitrary real, with and without the normalised mark");
    let a: [T; 8] = arr1("a");
    let x = mkd(&a);
    T::claim("is_zero exactly when every component is zero", c(Zero::is_zero(&x)).iff(all(a.iter().map(|e| T::eqx(*e, zero())))));
    let o = one8::<T>();
    T::claim("is_one exactly when it is 1", c(One::is_one(&x)).iff(all((0..8).map(|k| T::eqx(a[k], o[k])))));
    T::claim("1 times 1 is 1", c(D::<T>::one() * D::<T>::one() == D::<T>::one()));
}
fn dequal_at<T: Sc>(k: usize) {
    T::bound("two dual quaternions that differ in one component");
    let a: [T; 8] = arr1("a");
    let d = T::var("d");
    let mut b = a;
    b[k] = d;
    T::claim(&format!("equal exactly when component {} is equal", k), c(mkd(&a) == mkd(&b)).iff(T::eqx(a[k], d)));
}
macro_rules! dequal_n {
    ($($f:ident $k:literal)*) => { $(pub fn $f<T: Sc>() { dequal_at::<T>($k) })* };
}
dequal_n!(dequal0 0 dequal1 1 dequal2 2 dequal3 3 dequal4 4 dequal5 5 dequal6 6 dequal7 7);
pub fn dinverse<T: Sc>() {
    T::bound("real part of norm above 1e-3");
    let a: [T; 8] = arr1("a");
    let n2 = dot4(&re(&a), &re(&a));
    T::assume(T::ltx(eps6(), n2));
    let i = dc(&mkd(&a).inverse());
    same("the inverse times x is 1", &dham(&i, &a), &one8());
    same("x times the inverse is 1", &dham(&a, &i), &one8());
}
pub fn dinverse_marked<T: Sc>() {
    T::bound("every rotation (unit quaternion) and translation");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let y = dc(&x);
    same("the inverse of a rigid motion", &dham(&y, &dc(&x.inverse())), &one8());
    let tr = D::new_from_translation(&v3a(&t));
    same("the inverse of a translation", &dham(&dc(&tr), &dc(&tr.inverse())), &one8());
    let r = D::new_from_rotation(&mkq(u));
    same("the inverse of a rotation", &dham(&dc(&r), &dc(&r.inverse())), &one8());
    let o = D::<T>::one();
    same("the inverse of 1 is 1", &dc(&o.inverse()), &one8());
    let nx = -x;
    same("the inverse of the opposite", &dham(&dc(&nx), &dc(&nx.inverse())), &one8());
    let xt = x * tr;
    same("the inverse of a product of motions", &dham(&dc(&xt), &dc(&xt.inverse())), &one8());
    let cx = x.conj();
    same("the inverse of a conjugate", &dham(&dc(&cx), &dc(&cx.inverse())), &one8());
}
pub fn dinverse_mixed<T: Sc>() {
    T::bound("a rigid motion plus, minus or times an arbitrary dual quaternion; real part of the result of norm above 1e-3");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let b = D::new_from_translation(&v3a(&arr1("b")));
    let s = T::var("s");
    for (n, r) in [("sum", x + b), ("difference", x - b), ("multiple", x * s)] {
        let rc = dc(&r);
        let n2 = dot4(&re(&rc), &re(&rc));
        T::claim(&format!("the inverse of a {} with a marked operand", n), T::ltx(eps6(), n2).imp(eqs(&dham(&rc, &dc(&guard(&r, n2))), &one8())));
    }
}
/// the inverse, computed only where it is defined
fn guard<T: Sc>(r: &D<T>, n2: T) -> D<T> {
    if n2 > eps6::<T>() {
        r.inverse()
    } else {
        D::one()
    }
}
/// one marked operand (a rigid motion) and one arbitrary operand, in either position
fn dmix<T: Sc>(op: fn(D<T>, D<T>) -> D<T>, k: usize) {
    T::bound("a rigid motion and an arbitrary dual quaternion; real part of the result of squared norm above 1e-2");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let y = mkd(&arr1("a"));
    let r = if k == 0 { op(x, y) } else { op(y, x) };
    let rc = dc(&r);
    let n2 = dot4(&re(&rc), &re(&rc));
    T::assume(T::ltx(T::rat(1, 100), n2));
    same("the inverse of a result with one marked operand", &dham(&rc, &dc(&r.inverse())), &one8());
    match r.normalize() {
        Some(n) => {
            let nc = dc(&n);
            T::claim("the normalised result has a unit real part", T::ceq(dot4(&re(&nc), &re(&nc)), one()));
            T::claim("the normalised result has an orthogonal dual part", T::ceq(dot4(&re(&nc), &du(&nc)), zero()));
        }
        None => T::claim("a result that is not negligible can be normalised", Cond::F),
    }
}
macro_rules! dmixes {
    ($($n:ident $k:literal $a:ident $b:ident $e:expr;)*) => { $(
        pub fn $n<T: Sc>() { dmix::<T>(|$a, $b| { let _ = (&$a, &$b); $e }, $k) } )*
    };
}
dmixes! {
    dm_add0 0 a b a + b;
    dm_add1 1 a b a + b;
    dm_sub0 0 a b a - b;
    dm_sub1 1 a b a - b;
    dm_mul0 0 a b a * b;
    dm_mul1 1 a b a * b;
    dm_one0 1 a b D::one() * a;
    dm_one1 1 a b a * D::one();
    dm_zero 1 a b a + D::zero();
    dm_parts 1 a b D::new(b.real(), a.dual());
    dm_parts_r 1 a b D::new(a.real(), b.dual());
}
pub fn ddiv<T: Sc>() {
    T::bound("divisor with a real part of norm above 1e-3");
    let (a, b): ([T; 8], [T; 8]) = (arr1("a"), arr1("b"));
    T::assume(T::ltx(eps6(), dot4(&re(&b), &re(&b))));
    let q = dc(&(mkd(&a) / mkd(&b)));
    same("the quotient times the divisor is the dividend", &dham(&q, &b), &a);
}
pub fn dnormalize<T: Sc>() {
    T::bound("real part zero or of norm above 1e-3");
    let a: [T; 8] = arr1("a");
    let n2 = dot4(&re(&a), &re(&a));
    T::assume(any([T::ltx(eps6(), n2), T::eqx(n2, zero())]));
    match mkd(&a).normalize() {
        Some(u) => {
            T::claim("an accepted dual quaternion has a real part that is not negligible", T::ltx(eps6(), n2));
            T::claim("the result is marked as normalised", c(u.is_normalized()));
            let uc = dc(&u);
            same("the real part is a unit quaternion", &[dot4(&re(&uc), &re(&uc))], &[one()]);
            same("the dual part is orthogonal to the real part", &[dot4(&re(&uc), &du(&uc))], &[zero()]);
            // u times the dual number (n, e) gives x back
            let n = num::Float::sqrt(n2);
            let e = dot4(&re(&a), &du(&a)) / n;
            let back = join(&re(&uc).map(|x| x * n), &std::array::from_fn(|k| uc[4 + k] * n + uc[k] * e));
            same("the result times the norm of x is x", &back, &a);
        }
        None => T::claim("only a negligible real part is refused", T::ltx(n2, eps6())),
    }
}
pub fn dnormalize_marked<T: Sc>() {
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    same("normalising a rigid motion leaves it", &x.normalize().map(|e| dc(&e)).unwrap_or([zero(); 8]), &dc(&x));
    T::claim("a rigid motion is marked as normalised", c(x.is_normalized()));
}
pub fn dis_normalized<T: Sc>() {
    T::bound("real part of squared norm exactly 1, or above 1e-6 and different from 1 by more than 1e-3");
    let a: [T; 8] = arr1("a");
    let n2 = dot4(&re(&a), &re(&a));
    let x = mkd(&a);
    let b = T::rat(1, 1000);
    T::assume(any([T::eqx(n2, one()), T::ltx(n2, one::<T>() - b), T::ltx(one::<T>() + b, n2)]));
    T::assume(T::ltx(eps6(), n2));
    T::claim("is_normalized exactly when the real part has norm one", c(x.is_normalized()).iff(T::eqx(n2, one())));
}

// ------------------------------------------------------------------ C23
pub fn rt_forward<T: Sc>() {
    T::bound("every rotation (unit quaternion) and translation");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    same("the dual quaternion of a rotation and a translation", &dc(&x), &motion(&u, &t));
    same("its homogeneous matrix has the rotation and the translation", &flat44(&x.to_homogeneous()), &hom(&rot9(&u), &t));
    same("get_translation returns the translation", &a3(&x.get_translation()), &t);
    let (r, p) = x.to_rotation_translation();
    same("to_rotation_translation returns the rotation", &flat33(&r), &rot9(&u));
    same("to_rotation_translation returns the translation", &a3(&p), &t);
    let (q, p) = x.to_quaternion_translation();
    same("to_quaternion_translation returns the quaternion", &qc(&q), &u);
    same("to_quaternion_translation returns the translation", &a3(&p), &t);
    let n = -x;
    same("the opposite dual quaternion is the same motion", &flat44(&n.to_homogeneous()), &hom(&rot9(&u), &t));
    let ar = D::new_from_array([u[0], u[1], u[2], u[3], t[0], t[1], t[2]]);
    same("new_from_array takes the quaternion, then the translation", &dc(&ar), &motion(&u, &t));
}
pub fn rt_scaled<T: Sc>() {
    T::bound("every quaternion of norm above 1e-3, every translation");
    let q: [T; 4] = arr1("q");
    let t: [T; 3] = arr1("t");
    let n2 = dot4(&q, &q);
    T::assume(T::ltx(eps6(), n2));
    let x = D::new_from_rot_trans(&mkq(q), &v3a(&t));
    let xc = dc(&x);
    same("the rotation is normalised first", &[dot4(&re(&xc), &re(&xc))], &[one()]);
    let m = num::Float::sqrt(n2);
    same("the real part is the normalised quaternion", &re(&xc).map(|e| e * m), &q);
    same("the translation is kept", &a3(&x.get_translation()), &t);
}
pub fn pure_motions<T: Sc>() {
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let z = zero::<T>();
    let tr = D::new_from_translation(&v3a(&t));
    same("a translation has the identity rotation", &dc(&tr), &motion(&one4(), &t));
    same("the homogeneous matrix of a translation", &flat44(&tr.to_homogeneous()), &hom(&id9(), &t));
    let ro = D::new_from_rotation(&mkq(u));
    same("a rotation has no translation", &dc(&ro), &join(&u, &[z; 4]));
    same("the homogeneous matrix of a rotation", &flat44(&ro.to_homogeneous()), &hom(&rot9(&u), &[z; 3]));
    same("translation after rotation is the motion with both", &dc(&(tr * ro)), &motion(&u, &t));
    same("a point is 1 + epsilon p", &dc(&D::new_from_point(&v3a(&t))), &join(&one4(), &[z, t[0], t[1], t[2]]));
    same("the motion of one() is the identity", &flat44(&D::<T>::one().to_homogeneous()), &id16());
}
pub fn rt_matrix<T: Sc>() {
    T::bound("every rotation matrix (of a unit quaternion) and translation");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let m = rot9(&u);
    let h = hom(&m, &t);
    let x = D::new_from_homogeneous(&m44a(&h));
    same("a homogeneous matrix survives the way through a dual quaternion", &flat44(&x.to_homogeneous()), &h);
    let xc = dc(&x);
    same("it becomes a unit dual quaternion", &[dot4(&re(&xc), &re(&xc)), dot4(&re(&xc), &du(&xc))], &[one(), zero()]);
    let y = D::new_from_rotation_matrix(&m33a(&m));
    same("a rotation matrix survives the way through a dual quaternion", &flat44(&y.to_homogeneous()), &hom(&m, &[zero(); 3]));
}
pub fn compose<T: Sc>() {
    T::bound("every pair of rigid motions");
    let (u, v) = (T::unit::<4>("q"), T::unit::<4>("s"));
    let (p, t): ([T; 3], [T; 3]) = (arr1("p"), arr1("t"));
    let (x, y) = (D::new_from_rot_trans(&mkq(u), &v3a(&p)), D::new_from_rot_trans(&mkq(v), &v3a(&t)));
    same("the product of dual quaternions is the product of the homogeneous matrices", &flat44(&(x * y).to_homogeneous()), &mm4(&flat44(&x.to_homogeneous()), &flat44(&y.to_homogeneous())));
    let d = dc(&(x * y));
    same("the product of motions is a unit dual quaternion", &[dot4(&re(&d), &re(&d)), dot4(&re(&d), &du(&d))], &[one(), zero()]);
}
pub fn invert<T: Sc>() {
    T::bound("every rigid motion");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let hi = flat44(&homogeneous_inverse(&m44a(&hom(&rot9(&u), &t))));
    same("the inverse dual quaternion is the inverse motion", &flat44(&x.inverse().to_homogeneous()), &hi);
    same("the conjugate is the inverse motion", &flat44(&x.conj().to_homogeneous()), &hi);
    let y = mkd(&dc(&x));
    same("without the normalised mark the inverse is the same motion", &flat44(&y.inverse().to_homogeneous()), &hi);
}
pub fn point<T: Sc>() {
    T::bound("every rigid motion and point");
    let u = T::unit::<4>("q");
    let (t, p): ([T; 3], [T; 3]) = (arr1("t"), arr1("p"));
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let y = a3(&x.transform_point(&v3a(&p)));
    let rp = mv(&rot9(&u), &p);
    let full: [T; 3] = std::array::from_fn(|k| rp[k] + t[k]);
    same("transform_point applies the rigid motion", &y, &full);
    // what the finding listed in KNOWN_FINDINGS.txt does instead; anything else is new
    T::claim("transform_point applies the rigid motion, or its rotation only", any([eqs(&y, &full), eqs(&y, &rp)]));
}
pub fn point_rot<T: Sc>() {
    let u = T::unit::<4>("q");
    let p: [T; 3] = arr1("p");
    let x = D::new_from_rotation(&mkq(u));
    same("transform_point of a rotation rotates the point", &a3(&x.transform_point(&v3a(&p))), &mv(&rot9(&u), &p));
}

// ------------------------------------------------------------------ C24
/// the motion along a screw: rotation by 2h about the line with direction l and
/// moment m, displacement d along it, from the sine and cosine of h
fn screw<T: Sc>(l: &[T; 3], m: &[T; 3], h: T, d: T) -> [T; 8] {
    let (s, k) = (h.sn(), h.cs());
    let hd = d * T::rat(1, 2);
    [k, s * l[0], s * l[1], s * l[2], -hd * s, s * m[0] + hd * k * l[0], s * m[1] + hd * k * l[1], s * m[2] + hd * k * l[2]]
}
/// a line: unit direction and a point on it
fn line<T: Sc>() -> ([T; 3], [T; 3], [T; 3]) {
    let l = T::unit::<3>("l");
    let p: [T; 3] = arr1("p");
    let m = crs(&p, &l);
    (l, p, m)
}
fn half<T: Sc>(n: &str) -> T {
    let h = T::angle(n, Some(((0, 1), (1, 1))));
    let b = T::rat(1, 1000);
    T::assume(all([T::ltx(b, h), T::ltx(h, T::PI() - b)]));
    h
}
pub fn screw_build<T: Sc>() {
    T::bound("every line, angle and displacement");
    let (l, p, m) = line::<T>();
    let th = T::angle("th", None);
    let d = T::var("d");
    let x = D::new_from_screw_parameters(&v3a(&l), &v3a(&m), th, d);
    same("the components of a screw motion", &dc(&x), &screw(&l, &m, th * T::rat(1, 2), d));
    let r = rodrigues(&l, th.sn(), th.cs());
    let rp = mv(&r, &p);
    let t: [T; 3] = std::array::from_fn(|k| p[k] - rp[k] + d * l[k]);
    same("the motion turns about the line and moves along it", &flat44(&x.to_homogeneous()), &hom(&r, &t));
}
pub fn screw_params<T: Sc>() {
    T::bound("every line, rotation by an angle in (2e-3, 2 pi - 2e-3), every displacement");
    let (l, _, m) = line::<T>();
    let h = half::<T>("h");
    let d = T::var("d");
    let x = mkd(&screw(&l, &m, h, d));
    let (l2, m2, th2, d2) = x.get_screw_parameters();
    same("the angle is recovered", &[th2], &[h * int(2)]);
    same("the axis is recovered", &a3(&l2), &l);
    same("the displacement is recovered", &[d2], &[d]);
    same("the moment is recovered", &a3(&m2), &m);
}
pub fn screw_roundtrip<T: Sc>() {
    T::bound("every rigid motion with a rotation by an angle in (2e-3, 2 pi - 2e-3)");
    let u = T::unit::<3>("u");
    let h = half::<T>("h");
    let t: [T; 3] = arr1("t");
    let q = [h.cs(), u[0] * h.sn(), u[1] * h.sn(), u[2] * h.sn()];
    let x = D::new_from_rot_trans(&mkq(q), &v3a(&t));
    let (l, m, th, d) = x.get_screw_parameters();
    let y = D::new_from_screw_parameters(&l, &m, th, d);
    same("the screw parameters rebuild the motion", &dc(&y), &motion(&q, &t));
    let (la, ma) = (a3(&l), a3(&m));
    same("the axis is a unit vector", &[dt3(&la, &la)], &[one()]);
    same("the moment is orthogonal to the axis", &[dt3(&la, &ma)], &[zero()]);
}
pub fn screw_trans<T: Sc>() {
    T::bound("every translation of length above 1e-3, and none");
    let t: [T; 3] = arr1("t");
    let n2 = dt3(&t, &t);
    let z = T::eqx(n2, zero());
    T::assume(any([z.clone(), T::ltx(eps6(), n2)]));
    let x = D::new_from_translation(&v3a(&t));
    let (l, _, th, d) = x.get_screw_parameters();
    same("a translation has no angle", &[th], &[zero()]);
    same("a translation is along its axis", &a3(&l).map(|e| e * d), &t);
    T::claim("the displacement is the length", all([T::cle(zero(), d), T::ceq(d * d, n2)]));
}
pub fn dpow<T: Sc>() {
    T::bound("every line, rotation by an angle in (2e-3, 2 pi - 2e-3), every displacement and exponent");
    let (l, _, m) = line::<T>();
    let h = half::<T>("h");
    let d = T::var("d");
    let e = T::var("e");
    let x = mkd(&screw(&l, &m, h, d));
    let y = dc(&x.pow(e));
    same("the power multiplies angle and displacement", &y, &screw(&l, &m, e * h, e * d));
}
pub fn dpow_int<T: Sc>() {
    T::bound("every line, rotation by an angle in (2e-3, 2 pi - 2e-3), every displacement");
    let (l, _, m) = line::<T>();
    let h = half::<T>("h");
    let d = T::var("d");
    let a = screw(&l, &m, h, d);
    let x = mkd(&a);
    same("x^0 is 1", &dc(&x.pow(zero())), &one8());
    same("x^1 is x", &dc(&x.pow(one())), &a);
    same("x^2 is x x", &dc(&x.pow(int(2))), &dham(&a, &a));
    same("x^-1 is the inverse", &dham(&dc(&x.pow(int(-1))), &a), &one8());
}
pub fn dpow_trans<T: Sc>() {
    let t: [T; 3] = arr1("t");
    let e = T::var("e");
    let x = D::new_from_translation(&v3a(&t));
    same("the power of a translation is the scaled translation", &dc(&x.pow(e)), &motion(&one4(), &t.map(|k| k * e)));
}
pub fn sclerp<T: Sc>() {
    T::bound("every start, every relative screw motion by an angle in (2e-3, pi - 2e-3), every displacement and tau; both signs of the end");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let (l, _, m) = line::<T>();
    let h = T::angle("h", Some(((0, 1), (1, 2))));
    let b = T::rat(1, 1000);
    T::assume(all([T::ltx(b, h), T::ltx(h, T::PI() * T::rat(1, 2) - b)]));
    let d = T::var("d");
    let tau = T::var("tau");
    let a = motion(&u, &t);
    let rel = screw(&l, &m, h, d);
    let end = dham(&a, &rel);
    let want = dham(&a, &screw(&l, &m, tau * h, tau * d));
    let y = dc(&D::screw_lerp(&mkd(&a), &mkd(&end), tau));
    same("interpolation moves along the screw at constant speed", &y, &want);
    let y = dc(&D::screw_lerp(&mkd(&a), &mkd(&neg8(&end)), tau));
    T::claim("the opposite end gives the same (shorter) motion", any([eqs(&y, &want), eqs(&y, &neg8(&want))]));
}
pub fn sclerp_ends<T: Sc>() {
    T::bound("every start, every relative screw motion by an angle in (2e-3, pi - 2e-3)");
    let u = T::unit::<4>("q");
    let t: [T; 3] = arr1("t");
    let (l, _, m) = line::<T>();
    let h = T::angle("h", Some(((0, 1), (1, 2))));
    let b = T::rat(1, 1000);
    T::assume(all([T::ltx(b, h), T::ltx(h, T::PI() * T::rat(1, 2) - b)]));
    let d = T::var("d");
    let a = motion(&u, &t);
    let end = dham(&a, &screw(&l, &m, h, d));
    same("at 0 it is the start", &dc(&D::screw_lerp(&mkd(&a), &mkd(&end), zero())), &a);
    same("at 1 it is the end", &dc(&D::screw_lerp(&mkd(&a), &mkd(&end), one())), &end);
}
pub fn sclerp_trans<T: Sc>() {
    T::bound("every pair of motions with one rotation");
    let u = T::unit::<4>("q");
    let (t, s): ([T; 3], [T; 3]) = (arr1("t"), arr1("s"));
    let tau = T::var("tau");
    let x = D::new_from_rot_trans(&mkq(u), &v3a(&t));
    let y = D::new_from_rot_trans(&mkq(u), &v3a(&s));
    let p: [T; 3] = std::array::from_fn(|k| t[k] + tau * (s[k] - t[k]));
    same("between motions with one rotation the position moves on the straight line", &dc(&D::screw_lerp(&x, &y, tau)), &motion(&u, &p));
}
pub fn dlog<T: Sc>() {
    T::bound("every rigid motion along a screw by an angle in (2e-3, 2 pi - 2e-3)");
    let (l, p, m) = line::<T>();
    let h = half::<T>("h");
    let d = T::var("d");
    let q = [h.cs(), l[0] * h.sn(), l[1] * h.sn(), l[2] * h.sn()];
    let r = rot9(&q);
    let rp = mv(&r, &p);
    let t: [T; 3] = std::array::from_fn(|k| p[k] - rp[k] + d * l[k]);
    let x = D::new_from_rot_trans(&mkq(q), &v3a(&t));
    let z = zero::<T>();
    let hd = d * T::rat(1, 2);
    match x.log() {
        Some(g) => same("the logarithm is half of (theta l, theta m + d l)", &dc(&g), &[z, h * l[0], h * l[1], h * l[2], z, h * m[0] + hd * l[0], h * m[1] + hd * l[1], h * m[2] + hd * l[2]]),
        None => T::claim("a rigid motion has a logarithm", Cond::F),
    }
}

pub fn reg(v: &mut Vec<Harness>) {
    reg!(v, "C22", "mixed-add0", dm_add0, "DualQuaternion Add, normalize, inverse");
    reg!(v, "C22", "mixed-add1", dm_add1, "DualQuaternion Add, normalize, inverse");
    reg!(v, "C22", "mixed-sub0", dm_sub0, "DualQuaternion Sub, normalize, inverse");
    reg!(v, "C22", "mixed-sub1", dm_sub1, "DualQuaternion Sub, normalize, inverse");
    reg!(v, "C22", "mixed-mul0", dm_mul0, "DualQuaternion Mul, normalize, inverse");
    reg!(v, "C22", "mixed-mul1", dm_mul1, "DualQuaternion Mul, normalize, inverse");
    reg!(v, "C22", "mixed-one0", dm_one0, "DualQuaternion one, Mul, normalize, inverse");
    reg!(v, "C22", "mixed-one1", dm_one1, "DualQuaternion one, Mul, normalize, inverse");
    reg!(v, "C22", "mixed-zero", dm_zero, "DualQuaternion zero, Add, normalize, inverse");
    reg!(v, "C22", "mixed-parts", dm_parts, "DualQuaternion new, normalize, inverse");
    reg!(v, "C22", "mixed-parts-real", dm_parts_r, "DualQuaternion new, normalize, inverse");
    reg!(v, "C22", "ring", dring, "DualQuaternion Add, Sub, Neg, Mul, Mul<T>, conj, conj_as_dual, conj_combined, norm, one, zero, new, new_from_vecs, real, dual");
    reg!(v, "C22", "equality", dequal, "DualQuaternion PartialEq, Zero::is_zero, One::is_one");
    reg!(v, "C22", "equality-0", dequal0, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-1", dequal1, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-2", dequal2, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-3", dequal3, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-4", dequal4, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-5", dequal5, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-6", dequal6, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "equality-7", dequal7, "DualQuaternion PartialEq, Quaternion PartialEq");
    reg!(v, "C22", "inverse", dinverse, "DualQuaternion::inverse, Quaternion::inverse");
    reg!(v, "C22", "inverse-marked", dinverse_marked, "DualQuaternion::inverse, new_from_rot_trans, new_from_translation, new_from_rotation");
    reg!(v, "C22", "inverse-mixed", dinverse_mixed, "DualQuaternion::inverse, Add, Sub, Mul<T>");
    reg!(v, "C22", "division", ddiv, "DualQuaternion Div, Quaternion Div");
    reg!(v, "C22", "normalize", dnormalize, "DualQuaternion::normalize, is_normalized");
    reg!(v, "C22", "normalize-marked", dnormalize_marked, "DualQuaternion::normalize, is_normalized");
    reg!(v, "C22", "is-normalized", dis_normalized, "DualQuaternion::is_normalized, nearly_equal, nearly_zero");
    reg!(v, "C23", "rotation-translation", rt_forward, "new_from_rot_trans, to_homogeneous, get_translation, to_rotation_translation, to_quaternion_translation, new_from_array");
    reg!(v, "C23", "unnormalised-rotation", rt_scaled, "new_from_rot_trans, get_translation");
    reg!(v, "C23", "pure", pure_motions, "new_from_translation, new_from_rotation, new_from_point, to_homogeneous, Mul");
    reg!(v, "C23", "matrix", rt_matrix, "new_from_homogeneous, new_from_rotation_matrix, to_homogeneous, Quaternion::from_rotation");
    reg!(v, "C23", "composition", compose, "DualQuaternion Mul, to_homogeneous");
    reg!(v, "C23", "inverse", invert, "DualQuaternion::inverse, conj, to_homogeneous, homogeneous_inverse");
    reg!(v, "C23", "point", point, "transform_point");
    reg!(v, "C23", "point-rotation", point_rot, "transform_point, new_from_rotation");
    reg!(v, "C24", "build", screw_build, "new_from_screw_parameters, to_homogeneous");
    reg!(v, "C24", "parameters", screw_params, "get_screw_parameters, Quaternion::get_angle");
    reg!(v, "C24", "rebuild", screw_roundtrip, "get_screw_parameters, new_from_screw_parameters");
    reg!(v, "C24", "parameters-translation", screw_trans, "get_screw_parameters");
    reg!(v, "C24", "power", dpow, "DualQuaternion::pow");
    reg!(v, "C24", "integer-powers", dpow_int, "DualQuaternion::pow");
    reg!(v, "C24", "power-translation", dpow_trans, "DualQuaternion::pow, new_from_translation");
    reg!(v, "C24", "interpolation", sclerp, "DualQuaternion::screw_lerp, pow, inverse");
    reg!(v, "C24", "interpolation-ends", sclerp_ends, "DualQuaternion::screw_lerp");
    reg!(v, "C24", "interpolation-translation", sclerp_trans, "DualQuaternion::screw_lerp, pow");
    reg!(v, "C24", "logarithm", dlog, "DualQuaternion::log, get_screw_parameters, Quaternion::axis_angle");
}
