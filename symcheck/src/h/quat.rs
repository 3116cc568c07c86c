//! Quaternions: C10-C15.
use super::util::*;
use super::*;
use static_math::*;

pub type Q<T> = Quaternion<T>;
pub fn quat<T: Sc>(s: &str) -> Q<T> {
    mkq(arr1(s))
}
pub fn mkq<T: Sc>(a: [T; 4]) -> Q<T> {
    Quaternion::new_from(a[0], a[1], a[2], a[3])
}
/// a unit quaternion (not flagged as normalised)
pub fn uquat<T: Sc>(s: &str) -> Q<T> {
    mkq(T::unit::<4>(s))
}
/// a unit quaternion that carries the library's "already normalised" mark
pub fn fquat<T: Sc>(s: &str) -> Q<T> {
    uquat::<T>(s).normalize().unwrap()
}
pub fn qc<T: Sc>(q: &Q<T>) -> [T; 4] {
    let v = q.imag();
    [q.real(), v[0], v[1], v[2]]
}
pub fn dot4<T: Sc>(a: &[T; 4], b: &[T; 4]) -> T {
    sum((0..4).map(|k| a[k] * b[k]))
}
/// Hamilton product, written out
pub fn ham<T: Sc>(a: &[T; 4], b: &[T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
pub fn cj<T: Sc>(a: &[T; 4]) -> [T; 4] {
    [a[0], -a[1], -a[2], -a[3]]
}
pub fn neg4<T: Sc>(a: &[T; 4]) -> [T; 4] {
    [-a[0], -a[1], -a[2], -a[3]]
}
pub fn one4<T: Sc>() -> [T; 4] {
    [one(), zero(), zero(), zero()]
}
pub fn mm<T: Sc>(a: &[T; 9], b: &[T; 9]) -> [T; 9] {
    std::array::from_fn(|k| sum((0..3).map(|l| a[k / 3 * 3 + l] * b[l * 3 + k % 3])))
}
pub fn tr9<T: Sc>(a: &[T; 9]) -> [T; 9] {
    std::array::from_fn(|k| a[k % 3 * 3 + k / 3])
}
pub fn id9<T: Sc>() -> [T; 9] {
    std::array::from_fn(|k| if k % 4 == 0 { one() } else { zero() })
}
pub fn mv<T: Sc>(a: &[T; 9], v: &[T; 3]) -> [T; 3] {
    std::array::from_fn(|i| sum((0..3).map(|j| a[i * 3 + j] * v[j])))
}
pub fn crs<T: Sc>(a: &[T; 3], b: &[T; 3]) -> [T; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dt3<T: Sc>(a: &[T; 3], b: &[T; 3]) -> T {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn sk9<T: Sc>(w: &[T; 3]) -> [T; 9] {
    let z = zero::<T>();
    [z, -w[2], w[1], w[2], z, -w[0], -w[1], w[0], z]
}
/// the rotation matrix of a unit quaternion, from q v q* (specification)
pub fn rot9<T: Sc>(q: &[T; 4]) -> [T; 9] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let o = one::<T>();
    let t = int::<T>(2);
    [
        o - t * (y * y + z * z),
        t * (x * y - w * z),
        t * (x * z + w * y),
        t * (x * y + w * z),
        o - t * (x * x + z * z),
        t * (y * z - w * x),
        t * (x * z - w * y),
        t * (y * z + w * x),
        o - t * (x * x + y * y),
    ]
}
/// Rodrigues' formula for a unit axis, given sine and cosine
pub fn rodrigues<T: Sc>(u: &[T; 3], s: T, k: T) -> [T; 9] {
    let w = sk9(u);
    let ww = mm(&w, &w);
    let i = id9::<T>();
    std::array::from_fn(|n| i[n] + w[n] * s + ww[n] * (one::<T>() - k))
}
pub fn a3<T: Sc>(v: &V3<T>) -> [T; 3] {
    [v[0], v[1], v[2]]
}

// ------------------------------------------------------------------ C10
pub fn ring<T: Sc>() {
    T::ring_guard(true);
    T::bound("every component an arbitrary real");
    let (a, b, s) = (quat::<T>("a"), quat::<T>("b"), T::var("s"));
    let (ca, cb) = (qc(&a), qc(&b));
    let raw: [T; 4] = arr1("a");
    same("construction from numbers keeps the components", &ca, &raw);
    same("construction from scalar and vector keeps the components", &qc(&Quaternion::new(raw[0], V3::new_from(raw[1], raw[2], raw[3]))), &raw);
    same("construction from a 4-vector keeps the components", &qc(&Quaternion::new_from_vec(&V4::new(raw))), &raw);
    same("conversion from an array keeps the components", &qc(&Quaternion::from(raw)), &raw);
    let z = zero::<T>();
    same("a real quaternion has zero imaginary part", &qc(&Quaternion::new_real(raw[0])), &[raw[0], z, z, z]);
    same("an imaginary quaternion has zero real part", &qc(&Quaternion::new_imag(&V3::new_from(raw[1], raw[2], raw[3]))), &[z, raw[1], raw[2], raw[3]]);
    same("one() is 1", &qc(&Quaternion::<T>::one()), &one4());
    same("zero() is 0", &qc(&Quaternion::<T>::zero()), &[z; 4]);
    same("the product is the Hamilton product", &qc(&(a * b)), &ham(&ca, &cb));
    same("addition is componentwise", &qc(&(a + b)), &std::array::from_fn::<T, 4, _>(|k| ca[k] + cb[k]));
    same("subtraction is componentwise", &qc(&(a - b)), &std::array::from_fn::<T, 4, _>(|k| ca[k] - cb[k]));
    same("negation is componentwise", &qc(&(-a)), &neg4(&ca));
    same("scaling is componentwise", &qc(&(a * s)), &std::array::from_fn::<T, 4, _>(|k| ca[k] * s));
    same("the conjugate negates the imaginary part", &qc(&a.conj()), &cj(&ca));
    same("dot is the sum of the products", &[a.dot(b)], &[dot4(&ca, &cb)]);
    same("abs2 is the squared norm", &[a.abs2()], &[dot4(&ca, &ca)]);
    T::ring_guard(false);
}
pub fn qdiv_scalar<T: Sc>() {
    let (a, s) = (quat::<T>("a"), T::var("s"));
    T::assume(ne(s, zero()));
    same("dividing by a number divides every component", &qc(&(a / s)), &std::array::from_fn::<T, 4, _>(|k| qc(&a)[k] / s));
}
pub fn qnorms<T: Sc>() {
    let a = quat::<T>("a");
    let c4 = qc(&a);
    let n = a.norm2();
    T::claim("norm2 is the euclidean norm", all([T::cle(zero(), n), T::ceq(n * n, dot4(&c4, &c4))]));
    let m = a.abs_imag();
    T::claim("abs_imag is the norm of the imaginary part", all([T::cle(zero(), m), T::ceq(m * m, c4[1] * c4[1] + c4[2] * c4[2] + c4[3] * c4[3])]));
}
pub fn qis_zero<T: Sc>() {
    use num::Zero;
    let a = quat::<T>("a");
    let z = a.is_zero();
    T::claim("is_zero exactly when every component is zero", c(z).iff(all(qc(&a).iter().map(|x| T::eqx(*x, zero())))));
}
fn tiny<T: Sc>() -> T {
    T::rat(1, 1_000_000)
}
pub fn qinverse<T: Sc>() {
    let a = quat::<T>("a");
    let c4 = qc(&a);
    match a.inverse() {
        Some(i) => {
            T::assume(T::ltx(tiny(), dot4(&c4, &c4)));
            same("a * inverse(a) = 1", &ham(&c4, &qc(&i)), &one4());
            same("inverse(a) * a = 1", &ham(&qc(&i), &c4), &one4());
        }
        None => T::claim("only a (nearly) zero quaternion has no inverse", T::cle(dot4(&c4, &c4), tiny())),
    }
}
pub fn qdiv<T: Sc>() {
    let (a, b) = (quat::<T>("a"), quat::<T>("b"));
    let cb = qc(&b);
    T::assume(T::ltx(tiny(), dot4(&cb, &cb)));
    let r = a / b;
    same("(a / b) * b = a", &ham(&qc(&r), &cb), &qc(&a));
}
pub fn qnormalize<T: Sc>() {
    let a = quat::<T>("a");
    let c4 = qc(&a);
    let s2 = dot4(&c4, &c4);
    match a.normalize() {
        Some(u) => {
            T::assume(T::ltx(tiny(), s2));
            let cu = qc(&u);
            T::claim("a normalised quaternion has unit norm", T::ceq(dot4(&cu, &cu), one()));
            let n = a.norm2();
            same("a normalised quaternion times the norm is the quaternion", &std::array::from_fn::<T, 4, _>(|k| cu[k] * n), &c4);
            same("the inverse of a normalised quaternion is its inverse", &ham(&cu, &qc(&u.inverse().unwrap())), &one4());
            let again = u.normalize().unwrap();
            same("normalising twice changes nothing", &qc(&again), &cu);
        }
        None => T::claim("only a (nearly) zero quaternion cannot be normalised", T::cle(s2, tiny())),
    }
}
pub fn qnormalize_q<T: Sc>() {
    let a = quat::<T>("a");
    let c4 = qc(&a);
    let s2 = dot4(&c4, &c4);
    // between exactly zero and the threshold the fallback is a matter of precision
    T::assume(any([T::ltx(tiny(), s2), T::eqx(s2, zero())]));
    let u = a.normalize_q();
    let cu = qc(&u);
    T::claim("normalize_q always gives a unit quaternion", T::ceq(dot4(&cu, &cu), one()));
    let n = num::Float::sqrt(s2);
    same("normalize_q keeps the direction", &std::array::from_fn::<T, 4, _>(|k| cu[k] * n), &c4);
    same("the inverse of the result is its inverse", &ham(&cu, &qc(&u.inverse().unwrap())), &one4());
    let l = a.argq();
    let cl = qc(&l);
    let v2 = c4[1] * c4[1] + c4[2] * c4[2] + c4[3] * c4[3];
    T::assume(any([T::ltx(tiny(), v2), T::eqx(v2, zero())]));
    T::claim("argq is a unit imaginary quaternion along the imaginary part", {
        let m = num::Float::sqrt(v2);
        all([T::ceq(cl[0], zero()), T::ceq(dot4(&cl, &cl), one()), eqs(&[cl[1] * m, cl[2] * m, cl[3] * m], &[c4[1], c4[2], c4[3]])])
    });
}
/// whatever a chain of operations produced, the internal mark must not lie
fn flag_ok<T: Sc>(r: Q<T>) {
    let cr = qc(&r);
    let s2 = dot4(&cr, &cr);
    T::assume(T::ltx(T::rat(1, 100), s2));
    if let Some(i) = r.inverse() {
        same("results of operations on unit quaternions are inverted correctly", &ham(&cr, &qc(&i)), &one4());
    } else {
        T::claim("a result that is not zero has an inverse", Cond::F);
    }
    if let Some(n) = r.normalize() {
        let cn = qc(&n);
        T::claim("results of operations on unit quaternions are normalised correctly", T::ceq(dot4(&cn, &cn), one()));
    } else {
        T::claim("a result that is not zero can be normalised", Cond::F);
    }
}
macro_rules! flags {
    ($($n:ident $a:ident $b:ident $s:ident $e:expr;)*) => { $(
        pub fn $n<T: Sc>() {
            let ($a, $b, $s) = (fquat::<T>("a"), fquat::<T>("b"), T::var("s"));
            let _ = (&$a, &$b, &$s);
            flag_ok($e);
        } )*
    };
}
flags! {
    fl_add a b s a + b;
    fl_sub a b s a - b;
    fl_mul a b s a * b;
    fl_neg a b s -a;
    fl_scale a b s a * s;
    fl_conj a b s a.conj();
    fl_inv a b s a.inverse().unwrap();
    fl_div_s a b s { T::assume(T::ltx(T::rat(1, 100), s)); a / s };
    fl_one a b s Quaternion::<T>::one() * s;
    fl_deriv a b s a.derivative(&V3::new_from(s, T::var("x"), T::var("y")));
}
/// the same with one marked and one arbitrary operand, in either position
fn mixed<T: Sc>(k: usize) -> (Q<T>, Q<T>, T) {
    T::bound(if k == 0 { "a marked unit quaternion and an arbitrary one" } else { "an arbitrary quaternion and a marked unit one" });
    let s = T::var("s");
    if k == 0 {
        (fquat::<T>("a"), quat::<T>("b"), s)
    } else {
        (quat::<T>("a"), fquat::<T>("b"), s)
    }
}
macro_rules! mixed_flags {
    ($($n:ident $k:literal $a:ident $b:ident $s:ident $e:expr;)*) => { $(
        pub fn $n<T: Sc>() {
            let ($a, $b, $s) = mixed::<T>($k);
            let _ = (&$a, &$b, &$s);
            flag_ok($e);
        } )*
    };
}
/// the divisor is bounded away from zero
fn away<T: Sc>(q: Q<T>) -> Q<T> {
    let cq = qc(&q);
    T::assume(T::ltx(T::rat(1, 100), dot4(&cq, &cq)));
    q
}
/// the imaginary part is zero or not negligible
fn clear<T: Sc>(q: Q<T>) -> Q<T> {
    let cq = qc(&q);
    T::assume(any([T::eqx(v2of(&cq), zero()), T::ltx(tiny(), v2of(&cq))]));
    q
}
mixed_flags! {
    fm_add0 0 a b s a + b;
    fm_add1 1 a b s a + b;
    fm_sub0 0 a b s a - b;
    fm_sub1 1 a b s a - b;
    fm_mul0 0 a b s a * b;
    fm_mul1 1 a b s a * b;
    fm_div0 0 a b s a / away(b);
    fm_div1 1 a b s a / b;
    fm_zero0 0 a b s b + Quaternion::<T>::zero();
    fm_one0 0 a b s b * Quaternion::<T>::one();
    fm_one1 1 a b s Quaternion::<T>::one() * a;
    fm_real 0 a b s Quaternion::new_real(s);
    fm_vec 0 a b s Quaternion::new_from_vec(&V4::new(qc(&b)));
    fm_imag 0 a b s Quaternion::new_imag(&b.imag());
    fm_deriv 0 a b s b.derivative(&a.imag());
    fm_exp0 1 a b s {
        let ca = qc(&a);
        boxq(&ca, 4);
        T::assume(any([T::eqx(dot4(&ca, &ca), zero()), T::ltx(tiny(), dot4(&ca, &ca))]));
        clear(a).exp()
    };
    fm_exp1 1 a b s clear(b).exp();
    fm_expln 1 a b s clear(clear(b).ln()).exp();
    fm_ln0 1 a b s { boxq(&qc(&a), 4); away(a).ln() };
    fm_ln1 1 a b s b.ln();
}
pub fn qderiv<T: Sc>() {
    let a = quat::<T>("a");
    let w: [T; 3] = arr1("w");
    let h = T::rat(1, 2);
    let e = ham(&[zero(), w[0], w[1], w[2]], &qc(&a));
    same("the derivative is half the rate times the quaternion", &qc(&a.derivative(&V3::new(w))), &std::array::from_fn::<T, 4, _>(|k| e[k] * h));
}

// ------------------------------------------------------------------ C11
pub fn rotate<T: Sc>() {
    T::bound("every unit quaternion, every vector");
    let q = uquat::<T>("q");
    let v: [T; 3] = arr1("v");
    let cq = qc(&q);
    let r = q * V3::new(v);
    let e = ham(&ham(&cq, &[zero(), v[0], v[1], v[2]]), &cj(&cq));
    same("rotating a vector is q v q*", &r[..], &e[1..]);
    let m = flat33(&q.to_rotation());
    same("the rotation matrix applied to the vector is the rotated vector", &mv(&m, &v), &e[1..]);
    same("the matrix product with the vector is the rotated vector", &(q.to_rotation() * V3::new(v))[..], &r[..]);
    T::claim("rotating keeps the length", T::ceq(dt3(&a3(&r), &a3(&r)), dt3(&v, &v)));
}
pub fn rotmat<T: Sc>() {
    let q = uquat::<T>("q");
    let cq = qc(&q);
    let m = flat33(&q.to_rotation());
    same("the matrix of a unit quaternion", &m, &rot9(&cq));
    same("the matrix times its transpose is the identity", &mm(&m, &tr9(&m)), &id9());
    T::claim("the matrix has determinant one", T::ceq(leibniz(3, |i, j| m[i * 3 + j]), one()));
    same("the conjugate gives the transpose", &flat33(&q.conj().to_rotation()), &tr9(&m));
    same("the opposite quaternion gives the same matrix", &flat33(&(-q).to_rotation()), &m);
}
pub fn compose<T: Sc>() {
    let (p, q) = (uquat::<T>("p"), uquat::<T>("q"));
    let v: [T; 3] = arr1("v");
    let r = (p * q) * V3::new(v);
    let s = p * (q * V3::new(v));
    same("rotating by a product is rotating twice", &r[..], &s[..]);
    same(
        "the matrix of a product is the product of the matrices",
        &flat33(&(p * q).to_rotation()),
        &mm(&flat33(&p.to_rotation()), &flat33(&q.to_rotation())),
    );
}

// ------------------------------------------------------------------ C12
pub fn from_rot<T: Sc>() {
    T::bound("every rotation matrix, generated by a unit quaternion");
    let q = T::unit::<4>("q");
    let m = rot9(&q);
    let r = Quaternion::from_rotation(&M33::new([[m[0], m[1], m[2]], [m[3], m[4], m[5]], [m[6], m[7], m[8]]]));
    let cr = qc(&r);
    T::claim("the quaternion of a rotation matrix is the generating one up to sign", any([eqs(&cr, &q), eqs(&cr, &neg4(&q))]));
}
pub fn from_to<T: Sc>() {
    let q = T::unit::<4>("q");
    let m = rot9(&q);
    let r = Quaternion::from_rotation(&M33::new([[m[0], m[1], m[2]], [m[3], m[4], m[5]], [m[6], m[7], m[8]]]));
    let cr = qc(&r);
    T::claim("the quaternion of a rotation matrix is a unit quaternion", T::ceq(dot4(&cr, &cr), one()));
    same("converting a rotation matrix to a quaternion and back gives the matrix", &flat33(&r.to_rotation()), &m);
}

// ------------------------------------------------------------------ C13
pub fn axis_rot<T: Sc>() {
    T::bound("every angle, every non-zero axis, every vector");
    let th = T::angle("th", None);
    let a: [T; 3] = arr1("a");
    let v: [T; 3] = arr1("v");
    let n2 = dt3(&a, &a);
    T::assume(T::ltx(tiny(), n2));
    let q = Quaternion::rotation(th, &V3::new(a));
    let n = num::Float::sqrt(n2);
    let u = [a[0] / n, a[1] / n, a[2] / n];
    let cq = qc(&q);
    let h = th / int(2);
    same("rotation(angle, axis) has the half-angle components", &cq, &[num::Float::cos(h), u[0] * num::Float::sin(h), u[1] * num::Float::sin(h), u[2] * num::Float::sin(h)]);
    let _ = v;
    same("its inverse is its conjugate", &qc(&q.inverse().unwrap()), &cj(&cq));
    same("it is already normalised", &qc(&q.normalize().unwrap()), &cq);
    T::claim("it is a unit quaternion", T::ceq(dot4(&cq, &cq), one()));
}
pub fn axis_rodrigues<T: Sc>() {
    let th = T::angle("th", None);
    let u = T::unit::<3>("u");
    let v: [T; 3] = arr1("v");
    let q = Quaternion::rotation(th, &V3::new(u));
    let r = q * V3::new(v);
    let m = rodrigues(&u, num::Float::sin(th), num::Float::cos(th));
    same("rotating follows Rodrigues' formula", &r[..], &mv(&m, &v));
    same("its matrix is the one of Rodrigues' formula", &flat33(&q.to_rotation()), &m);
}
pub fn axis_zero<T: Sc>() {
    let th = T::angle("th", None);
    let r = panics(|| Quaternion::rotation(th, &V3::new([zero::<T>(); 3])));
    T::claim("a zero axis is refused", c(r.is_err()));
}
pub fn norm_encoded<T: Sc>() {
    T::bound("every vector of norm above 1e-6, and the zero vector");
    let a: [T; 3] = arr1("a");
    let n2 = dt3(&a, &a);
    T::assume(any([T::ltx(T::rat(1, 1_000_000_000_000), n2), T::eqx(n2, zero())]));
    let q = Quaternion::rotation_norm_encoded(&V3::new(a));
    let cq = qc(&q);
    let th = num::Float::sqrt(n2);
    let h = th / int(2);
    T::claim("the real part is the cosine of half the norm", T::ceq(cq[0], num::Float::cos(h)));
    let s = num::Float::sin(h);
    same("the imaginary part is along the vector with the sine of half the norm", &[cq[1] * th, cq[2] * th, cq[3] * th], &[a[0] * s, a[1] * s, a[2] * s]);
    T::claim("it is a unit quaternion", T::ceq(dot4(&cq, &cq), one()));
    same("its inverse is its conjugate", &ham(&cq, &qc(&q.inverse().unwrap())), &one4());
}
pub fn get_angle<T: Sc>() {
    T::bound("angles in [0, 2 pi], every unit axis");
    let th = T::angle("th", Some(((0, 1), (2, 1))));
    let u = T::unit::<3>("u");
    let q = Quaternion::rotation(th, &V3::new(u));
    let r = q.get_angle();
    T::angle_inj(th / int(2), r / int(2));
    T::claim("the angle of a rotation is recovered", T::ceq(r, th));
}
pub fn get_axis<T: Sc>() {
    T::bound("every non-zero quaternion");
    let q = quat::<T>("q");
    let cq = qc(&q);
    T::assume(T::ltx(tiny(), dot4(&cq, &cq)));
    let (ax, an) = q.axis_angle();
    let h = an / int(2);
    let n = q.norm2();
    let v2 = cq[1] * cq[1] + cq[2] * cq[2] + cq[3] * cq[3];
    T::claim("the cosine of half the angle is the real part over the norm", T::ceq(num::Float::cos(h) * n, cq[0]));
    T::claim("the sine of half the angle is the imaginary norm over the norm", {
        let s = num::Float::sin(h) * n;
        all([T::cle(zero(), s), T::ceq(s * s, v2)])
    });
    match ax {
        Some(a) => {
            let a = a3(&a);
            T::assume(T::ltx(T::rat(1, 1_000_000) * dot4(&cq, &cq), v2));
            T::claim("the axis is a unit vector", T::ceq(dt3(&a, &a), one()));
            let m = num::Float::sqrt(v2);
            same("the axis is along the imaginary part", &[a[0] * m, a[1] * m, a[2] * m], &cq[1..]);
        }
        None => T::claim("no axis only when the imaginary part is negligible", T::cle(v2, T::rat(1, 1_000_000) * dot4(&cq, &cq))),
    }
    same("axis_angle agrees with get_angle", &[q.get_angle()], &[an]);
    match (q.get_axis(), q.axis_angle().0) {
        (Some(x), Some(y)) => same("axis_angle agrees with get_axis", &a3(&x), &a3(&y)),
        (None, None) => {}
        _ => T::claim("axis_angle and get_axis agree on existence", Cond::F),
    }
}

// ------------------------------------------------------------------ C14
fn v2of<T: Sc>(q: &[T; 4]) -> T {
    q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
}
/// either no imaginary part, or one that is not negligible
fn clear_imag<T: Sc>(q: &[T; 4]) {
    let v = v2of(q);
    T::assume(any([T::eqx(v, zero()), T::ltx(T::rat(1, 1_000_000), v)]));
}
pub fn qexp<T: Sc>() {
    T::bound("components within [-4, 4], imaginary part zero or of norm above 1e-3");
    let q = quat::<T>("q");
    let cq = qc(&q);
    boxq(&cq, 4);
    clear_imag(&cq);
    T::assume(any([T::eqx(cq[0], zero()), T::ltx(T::rat(1, 1_000_000), cq[0] * cq[0])]));
    let e = q.exp();
    let ce = qc(&e);
    let m = num::Float::sqrt(v2of(&cq));
    let ea = num::Float::exp(cq[0]);
    T::claim("the real part of exp is e^a cos|v|", T::ceq(ce[0], ea * num::Float::cos(m)));
    let s = ea * num::Float::sin(m);
    same("the imaginary part of exp is e^a sin|v| v/|v|", &[ce[1] * m, ce[2] * m, ce[3] * m], &[cq[1] * s, cq[2] * s, cq[3] * s]);
    T::claim("the norm of exp is e^a", T::ceq(dot4(&ce, &ce), ea * ea));
    T::claim("exp of a real number is real", T::eqx(m, zero()).imp(eqs(&ce, &[ea, zero(), zero(), zero()])));
    same("the inverse of exp is its inverse", &ham(&ce, &qc(&e.inverse().unwrap_or(Quaternion::zero()))), &one4());
}
pub fn qln<T: Sc>() {
    T::bound("norm above 1e-3, imaginary part zero or above 1e-3 of the norm");
    let q = quat::<T>("q");
    let cq = qc(&q);
    let n2 = dot4(&cq, &cq);
    T::assume(T::ltx(tiny(), n2));
    let v = v2of(&cq);
    T::assume(any([T::eqx(v, zero()), T::ltx(tiny::<T>() * n2, v)]));
    let l = q.ln();
    let cl = qc(&l);
    let n = num::Float::sqrt(n2);
    T::claim("the real part of ln is the logarithm of the norm", T::ceq(cl[0], num::Float::ln(n)));
    let m = num::Float::sqrt(v);
    let th = num::Float::atan2(m, cq[0]);
    same("the imaginary part of ln is along the imaginary part", &[cl[1] * m, cl[2] * m, cl[3] * m], &[cq[1] * th, cq[2] * th, cq[3] * th]);
    T::claim("the imaginary part of ln has the polar angle as norm", T::ceq(v2of(&cl), th * th));
}
pub fn ln_unit<T: Sc>() {
    // marked as normalised: the shortcut must agree
    let q = fquat::<T>("q");
    let cq = qc(&q);
    let v = v2of(&cq);
    T::assume(any([T::eqx(v, zero()), T::ltx(tiny::<T>(), v)]));
    let cl = qc(&q.ln());
    let m = num::Float::sqrt(v);
    let th = num::Float::atan2(m, cq[0]);
    T::claim("ln of a unit quaternion is imaginary", T::ceq(cl[0], zero()));
    same("ln of a unit quaternion", &[cl[1] * m, cl[2] * m, cl[3] * m], &[cq[1] * th, cq[2] * th, cq[3] * th]);
}
/// keep the values where floating point replay is meaningful
fn boxq<T: Sc>(q: &[T; 4], k: i64) {
    T::assume(all(q.iter().map(|x| T::lex(num::Float::abs(*x), int(k)))));
}
fn nice<T: Sc>(s: &str) -> Q<T> {
    let q = quat::<T>(s);
    let cq = qc(&q);
    let n2 = dot4(&cq, &cq);
    T::assume(T::ltx(tiny(), n2));
    T::assume(T::ltx(tiny::<T>() * n2, v2of(&cq)));
    q
}
pub fn exp_ln<T: Sc>() {
    T::bound("norm above 1e-3, imaginary part above 1e-3 of the norm or zero");
    let q = quat::<T>("q");
    let cq = qc(&q);
    let n2 = dot4(&cq, &cq);
    T::assume(T::ltx(tiny(), n2));
    let v = v2of(&cq);
    T::assume(any([T::eqx(v, zero()), T::ltx(tiny::<T>() * n2, v)]));
    // the principal angle is not negligible either
    let l = q.ln();
    T::assume(any([T::eqx(v2of(&qc(&l)), zero()), T::ltx(tiny::<T>(), v2of(&qc(&l)))]));
    same("exp(ln q) = q", &qc(&l.exp()), &cq);
}
pub fn ln_exp<T: Sc>() {
    T::bound("components within [-4, 4], imaginary part of norm in (1e-3, pi)");
    let q = quat::<T>("q");
    let cq = qc(&q);
    boxq(&cq, 4);
    let v = v2of(&cq);
    let m = num::Float::sqrt(v);
    T::assume(T::ltx(T::rat(1, 1000), m));
    T::assume(T::ltx(m, T::PI() - T::rat(1, 1000)));
    let e = q.exp();
    let l = e.ln();
    let cl = qc(&l);
    same("ln(exp q) = q", &cl, &cq);
}
pub fn qsqrt<T: Sc>() {
    T::bound("norm above 1e-3, imaginary part above 1e-3 of the norm");
    let q = nice::<T>("q");
    let cq = qc(&q);
    let r = q.sqrt();
    let cr = qc(&r);
    same("the square of sqrt(q) is q", &ham(&cr, &cr), &cq);
    T::claim("sqrt has a non-negative real part", T::cle(zero(), cr[0]));
}
pub fn qpow<T: Sc>() {
    let q = nice::<T>("q");
    let cq = qc(&q);
    same("q^1 = q", &qc(&q.pow(Quaternion::new_real(one()))), &cq);
    same("q^2 = q q", &qc(&q.pow(Quaternion::new_real(int(2)))), &ham(&cq, &cq));
    same("q^0 = 1", &qc(&q.pow(Quaternion::zero())), &one4());
    let i = qc(&q.pow(Quaternion::new_real(int(-1))));
    same("q^-1 is the inverse", &ham(&cq, &i), &one4());
}
pub fn qpow3<T: Sc>() {
    let q = nice::<T>("q");
    let cq = qc(&q);
    same("q^3 = q q q", &qc(&q.pow(Quaternion::new_real(int(3)))), &ham(&ham(&cq, &cq), &cq));
}
/// a real quaternion, of either sign
fn real_q<T: Sc>() -> (Q<T>, T) {
    T::bound("real quaternions of absolute value above 1e-3 and at most 4");
    let a = T::var("a");
    T::assume(T::ltx(tiny(), a * a));
    T::assume(all([T::lex(-int::<T>(4), a), T::lex(a, int(4))]));
    // one sign at a time
    let _ = a < zero();
    (Quaternion::new_real(a), a)
}
pub fn qsqrt_real<T: Sc>() {
    let (q, _) = real_q::<T>();
    let cq = qc(&q);
    let cr = qc(&q.sqrt());
    same("the square of sqrt(q) is q", &ham(&cr, &cr), &cq);
    T::claim("sqrt has a non-negative real part", T::cle(zero(), cr[0]));
}
pub fn qpow_real<T: Sc>() {
    let (q, _) = real_q::<T>();
    let cq = qc(&q);
    same("q^1 = q", &qc(&q.pow(Quaternion::new_real(one()))), &cq);
    same("q^2 = q q", &qc(&q.pow(Quaternion::new_real(int(2)))), &ham(&cq, &cq));
    same("q^0 = 1", &qc(&q.pow(Quaternion::zero())), &one4());
    let i = qc(&q.pow(Quaternion::new_real(int(-1))));
    same("q^-1 is the inverse", &ham(&cq, &i), &one4());
}
pub fn qsincos_real<T: Sc>() {
    let (q, a) = real_q::<T>();
    let (s, k) = (num::Float::sin(a), num::Float::cos(a));
    same("sin of a real number", &qc(&q.sin()), &[s, zero(), zero(), zero()]);
    same("cos of a real number", &qc(&q.cos()), &[k, zero(), zero(), zero()]);
}
fn sincos_spec<T: Sc>(cq: &[T; 4]) -> (T, T, T, T, T) {
    let m = num::Float::sqrt(v2of(cq));
    let (ep, em) = (num::Float::exp(m), num::Float::exp(-m));
    let h = T::rat(1, 2);
    (m, (ep + em) * h, (ep - em) * h, num::Float::sin(cq[0]), num::Float::cos(cq[0]))
}
pub fn qsin<T: Sc>() {
    T::bound("components within [-4, 4], real part zero or above 1e-3, imaginary part of norm above 1e-3");
    let q = quat::<T>("q");
    let cq = qc(&q);
    boxq(&cq, 4);
    T::assume(T::ltx(T::rat(1, 1_000_000), v2of(&cq)));
    T::assume(any([T::eqx(cq[0], zero()), T::ltx(T::rat(1, 1_000_000), cq[0] * cq[0])]));
    // one sign of the real part at a time
    let _ = cq[0] < zero();
    let (m, ch, sh, s, k) = sincos_spec(&cq);
    let r = qc(&q.sin());
    T::claim("the real part of sin is sin a cosh|v|", T::ceq(r[0], s * ch));
    let f = k * sh;
    same("the imaginary part of sin is cos a sinh|v| v/|v|", &[r[1] * m, r[2] * m, r[3] * m], &[cq[1] * f, cq[2] * f, cq[3] * f]);
}
pub fn qcos<T: Sc>() {
    T::bound("components within [-4, 4], real part zero or above 1e-3, imaginary part of norm above 1e-3");
    let q = quat::<T>("q");
    let cq = qc(&q);
    boxq(&cq, 4);
    T::assume(T::ltx(T::rat(1, 1_000_000), v2of(&cq)));
    T::assume(any([T::eqx(cq[0], zero()), T::ltx(T::rat(1, 1_000_000), cq[0] * cq[0])]));
    // one sign of the real part at a time
    let _ = cq[0] < zero();
    let (m, ch, sh, s, k) = sincos_spec(&cq);
    let r = qc(&q.cos());
    T::claim("the real part of cos is cos a cosh|v|", T::ceq(r[0], k * ch));
    let f = -s * sh;
    same("the imaginary part of cos is -sin a sinh|v| v/|v|", &[r[1] * m, r[2] * m, r[3] * m], &[cq[1] * f, cq[2] * f, cq[3] * f]);
}

// ------------------------------------------------------------------ C15
/// the two ends of the interpolation; the cosine of the angle between them is
/// neither +-1 nor zero within 1e-9
fn ends<T: Sc>() -> ([T; 4], [T; 4], T, bool) {
    let (a, b) = (T::unit::<4>("a"), T::unit::<4>("b"));
    let d = dot4(&a, &b);
    T::assume(T::ltx(T::rat(10001, 10_000_000_000), one::<T>() - d * d));
    T::assume(T::ltx(T::rat(1, 1_000_000_000_000_000_000), d * d));
    let rev = d < zero();
    (a, b, d, rev)
}
fn tpar<T: Sc>() -> T {
    let t = T::var("t");
    T::assume(all([T::lex(zero(), t), T::lex(t, one())]));
    t
}
pub fn slerp_generic<T: Sc>() {
    T::bound("unit quaternions whose lines are more than 1e-3 rad apart and not orthogonal, every t in [0,1]");
    let (a, b, d, rev) = ends::<T>();
    let t = tpar::<T>();
    let r = qc(&Quaternion::slerp(mkq(a), mkq(b), t));
    let (e, w) = if rev { (-d, neg4(&b)) } else { (d, b) };
    let th = num::Float::acos(e);
    let s = num::Float::sqrt(one::<T>() - e * e);
    let (x, y) = (num::Float::sin((one::<T>() - t) * th), num::Float::sin(t * th));
    let p: [T; 4] = std::array::from_fn(|k| a[k] * x + w[k] * y);
    let rs: [T; 4] = std::array::from_fn(|k| r[k] * s);
    same("slerp follows the great circle to b, or to -b when that is shorter", &rs, &p);
}
pub fn slerp_unit<T: Sc>() {
    let (a, b, d, rev) = ends::<T>();
    let t = tpar::<T>();
    let r = qc(&Quaternion::slerp(mkq(a), mkq(b), t));
    let e = if rev { -d } else { d };
    let th = num::Float::acos(e);
    // multiplied by the sine of the angle between the ends, which is not zero
    let s = num::Float::sqrt(one::<T>() - e * e);
    let rs = r.map(|x| x * s);
    T::claim("slerp stays on the unit sphere", T::ceq(dot4(&rs, &rs), s * s));
    T::claim("slerp turns at constant speed", T::ceq(dot4(&a, &rs), s * num::Float::cos(t * th)));
}
pub fn slerp_orth<T: Sc>() {
    T::bound("orthogonal unit quaternions");
    let a = T::unit::<4>("a");
    // b orthogonal to a: a times an imaginary unit
    let u = T::unit::<3>("u");
    let b = ham(&a, &[zero(), u[0], u[1], u[2]]);
    let t = tpar::<T>();
    let r = qc(&Quaternion::slerp(mkq(a), mkq(b), t));
    let h = T::PI() / int(2);
    let (x, y) = (num::Float::cos(t * h), num::Float::sin(t * h));
    let p: [T; 4] = std::array::from_fn(|k| a[k] * x + b[k] * y);
    let n: [T; 4] = std::array::from_fn(|k| a[k] * x - b[k] * y);
    T::claim("slerp of orthogonal quaternions is a quarter turn", any([eqs(&r, &p), eqs(&r, &n)]));
}
pub fn slerp_ends<T: Sc>() {
    let (a, b) = (T::unit::<4>("a"), T::unit::<4>("b"));
    let d = dot4(&a, &b);
    let r0 = qc(&Quaternion::slerp(mkq(a), mkq(b), zero()));
    same("slerp starts at a", &r0, &a);
}
pub fn slerp_end1<T: Sc>() {
    let (a, b) = (T::unit::<4>("a"), T::unit::<4>("b"));
    let d = dot4(&a, &b);
    T::assume(T::ltx(d * d, one()));
    let rev = d < zero();
    let r1 = qc(&Quaternion::slerp(mkq(a), mkq(b), one()));
    same("slerp ends at b, or at -b when that is nearer", &r1, &if rev { neg4(&b) } else { b });
}
pub fn slerp_same<T: Sc>() {
    let a = T::unit::<4>("a");
    let t = tpar::<T>();
    let n = neg4(&a);
    same("slerp from a to a stays at a", &qc(&Quaternion::slerp(mkq(a), mkq(a), t)), &a);
    same("slerp from a to -a stays at a", &qc(&Quaternion::slerp(mkq(a), mkq(n), t)), &a);
}
fn near<T: Sc>(flip: bool) {
    T::bound("unit quaternions less than 1e-3 rad apart (up to sign), every t in [0,1]");
    let a = T::unit::<4>("a");
    let u = T::unit::<3>("u");
    // half the rotation between them, sine and cosine given rationally by its tangent
    let k = T::var("k");
    T::assume(all([T::ltx(zero(), k), T::lex(k, one())]));
    let x = k * T::rat(4, 10_000);
    let den = one::<T>() + x * x;
    let (cs, sn) = ((one::<T>() - x * x) / den, int::<T>(2) * x / den);
    let b0 = ham(&a, &[cs, u[0] * sn, u[1] * sn, u[2] * sn]);
    let b = if flip { neg4(&b0) } else { b0 };
    let t = tpar::<T>();
    let r = qc(&Quaternion::slerp(mkq(a), mkq(b), t));
    let tol = T::rat(1, 1_000_000);
    let y = one::<T>() - t;
    T::claim("nearly parallel quaternions are interpolated along the short arc", all((0..4).map(|k| abs_le(r[k] - (a[k] * y + b0[k] * t), tol))));
    T::claim("the result is a unit quaternion within 1e-6", abs_le(dot4(&r, &r) - one(), tol));
}
pub fn slerp_near<T: Sc>() {
    near::<T>(false)
}
pub fn slerp_near_flip<T: Sc>() {
    near::<T>(true)
}

pub fn reg(v: &mut Vec<Harness>) {
    reg!(v, "C10", "ring", ring, "Quaternion Mul, Quaternion Add, Quaternion Sub, Quaternion Neg, Quaternion Mul<T>, Quaternion::conj, Quaternion::dot, Quaternion::abs2, Quaternion::new, Quaternion::new_from, Quaternion::new_from_vec, Quaternion::new_real, Quaternion::new_imag, Quaternion From, Quaternion::one, Quaternion::zero");
    reg!(v, "C10", "scalar-div", qdiv_scalar, "Quaternion Div<T>");
    reg!(v, "C10", "norms", qnorms, "Quaternion::norm2, Quaternion::abs_imag");
    reg!(v, "C10", "is-zero", qis_zero, "Quaternion::is_zero");
    reg!(v, "C10", "inverse", qinverse, "Quaternion::inverse");
    reg!(v, "C10", "division", qdiv, "Quaternion Div");
    reg!(v, "C10", "normalize", qnormalize, "Quaternion::normalize");
    reg!(v, "C10", "normalize-q", qnormalize_q, "Quaternion::normalize_q, Quaternion::argq");
    reg!(v, "C10", "flag-add", fl_add, "Quaternion Add, normalize, inverse");
    reg!(v, "C10", "flag-sub", fl_sub, "Quaternion Sub, normalize, inverse");
    reg!(v, "C10", "flag-mul", fl_mul, "Quaternion Mul, normalize, inverse");
    reg!(v, "C10", "flag-neg", fl_neg, "Quaternion Neg, normalize, inverse");
    reg!(v, "C10", "flag-scale", fl_scale, "Quaternion Mul<T>, normalize, inverse");
    reg!(v, "C10", "flag-conj", fl_conj, "Quaternion::conj, normalize, inverse");
    reg!(v, "C10", "flag-inverse", fl_inv, "Quaternion::inverse, normalize");
    reg!(v, "C10", "flag-div", fl_div_s, "Quaternion Div<T>, normalize, inverse");
    reg!(v, "C10", "flag-one", fl_one, "Quaternion::one, Mul<T>, normalize, inverse");
    reg!(v, "C10", "flag-derivative", fl_deriv, "Quaternion::derivative, normalize, inverse");
    reg!(v, "C10", "mixed-add0", fm_add0, "Quaternion Add, normalize, inverse");
    reg!(v, "C10", "mixed-add1", fm_add1, "Quaternion Add, normalize, inverse");
    reg!(v, "C10", "mixed-sub0", fm_sub0, "Quaternion Sub, normalize, inverse");
    reg!(v, "C10", "mixed-sub1", fm_sub1, "Quaternion Sub, normalize, inverse");
    reg!(v, "C10", "mixed-mul0", fm_mul0, "Quaternion Mul, normalize, inverse");
    reg!(v, "C10", "mixed-mul1", fm_mul1, "Quaternion Mul, normalize, inverse");
    reg!(v, "C10", "mixed-div0", fm_div0, "Quaternion Div, normalize, inverse");
    reg!(v, "C10", "mixed-div1", fm_div1, "Quaternion Div, normalize, inverse");
    reg!(v, "C10", "mixed-zero", fm_zero0, "Quaternion zero, Add, normalize, inverse");
    reg!(v, "C10", "mixed-one0", fm_one0, "Quaternion one, Mul, normalize, inverse");
    reg!(v, "C10", "mixed-one1", fm_one1, "Quaternion one, Mul, normalize, inverse");
    reg!(v, "C10", "mixed-real", fm_real, "Quaternion new_real, normalize, inverse");
    reg!(v, "C10", "mixed-vec", fm_vec, "Quaternion new_from_vec, normalize, inverse");
    reg!(v, "C10", "mixed-imag", fm_imag, "Quaternion new_imag, normalize, inverse");
    reg!(v, "C10", "mixed-derivative", fm_deriv, "Quaternion derivative, normalize, inverse");
    reg!(v, "C10", "mixed-exp0", fm_exp0, "Quaternion exp, normalize, inverse");
    reg!(v, "C10", "mixed-exp1", fm_exp1, "Quaternion exp, normalize, inverse");
    reg!(v, "C10", "mixed-exp-ln", fm_expln, "Quaternion exp, ln, normalize, inverse");
    reg!(v, "C10", "mixed-ln0", fm_ln0, "Quaternion ln, normalize, inverse");
    reg!(v, "C10", "mixed-ln1", fm_ln1, "Quaternion ln, normalize, inverse");
    reg!(v, "C10", "derivative", qderiv, "Quaternion::derivative");
    reg!(v, "C11", "rotate", rotate, "Quaternion Mul<V3>, Quaternion::to_rotation");
    reg!(v, "C11", "rotation-matrix", rotmat, "Quaternion::to_rotation, Quaternion::conj, Quaternion Neg");
    reg!(v, "C11", "compose", compose, "Quaternion Mul, Quaternion Mul<V3>, Quaternion::to_rotation");
    reg!(v, "C12", "from-rotation", from_rot, "Quaternion::from_rotation");
    reg!(v, "C12", "round-trip", from_to, "Quaternion::from_rotation, Quaternion::to_rotation");
    reg!(v, "C13", "axis-components", axis_rot, "Quaternion::rotation");
    reg!(v, "C13", "axis-rodrigues", axis_rodrigues, "Quaternion::rotation, Quaternion Mul<V3>, Quaternion::to_rotation");
    reg!(v, "C13", "axis-zero", axis_zero, "Quaternion::rotation");
    reg!(v, "C13", "norm-encoded", norm_encoded, "Quaternion::rotation_norm_encoded");
    reg!(v, "C13", "get-angle", get_angle, "Quaternion::rotation, Quaternion::get_angle");
    reg!(v, "C13", "get-axis", get_axis, "Quaternion::get_axis, Quaternion::get_angle, Quaternion::axis_angle");
    reg!(v, "C14", "exp", qexp, "Quaternion::exp");
    reg!(v, "C14", "ln", qln, "Quaternion::ln");
    reg!(v, "C14", "ln-unit", ln_unit, "Quaternion::ln, Quaternion::normalize");
    reg!(v, "C14", "exp-ln", exp_ln, "Quaternion::exp, Quaternion::ln");
    reg!(v, "C14", "ln-exp", ln_exp, "Quaternion::exp, Quaternion::ln");
    reg!(v, "C14", "sqrt", qsqrt, "Quaternion::sqrt");
    reg!(v, "C14", "pow", qpow, "Quaternion::pow");
    reg!(v, "C14", "pow-3", qpow3, "Quaternion::pow");
    reg!(v, "C14", "sin", qsin, "Quaternion::sin");
    reg!(v, "C14", "cos", qcos, "Quaternion::cos");
    reg!(v, "C14", "sqrt-real", qsqrt_real, "Quaternion::sqrt");
    reg!(v, "C14", "pow-real", qpow_real, "Quaternion::pow");
    reg!(v, "C14", "sin-cos-real", qsincos_real, "Quaternion::sin, Quaternion::cos");
    reg!(v, "C15", "great-circle", slerp_generic, "Quaternion::slerp");
    reg!(v, "C15", "unit-speed", slerp_unit, "Quaternion::slerp");
    reg!(v, "C15", "end-points", slerp_ends, "Quaternion::slerp");
    reg!(v, "C15", "end-point-b", slerp_end1, "Quaternion::slerp");
    reg!(v, "C15", "same-rotation", slerp_same, "Quaternion::slerp");
    reg!(v, "C15", "orthogonal", slerp_orth, "Quaternion::slerp");
    reg!(v, "C15", "near-parallel", slerp_near, "Quaternion::slerp");
    reg!(v, "C15", "near-parallel-flipped", slerp_near_flip, "Quaternion::slerp");
}
