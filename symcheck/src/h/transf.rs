//! Rotations, poses, Lie algebra maps: C16-C21, C28.
use super::quat::*;
use super::util::*;
use super::*;
use static_math::traits::LinearAlgebra;
use static_math::transformations::*;
use static_math::*;

type V6a<T> = [T; 6];
pub fn m33a<T: Sc>(a: &[T; 9]) -> M33<T> {
    M33::new(std::array::from_fn(|i| std::array::from_fn(|j| a[i * 3 + j])))
}
pub fn m44a<T: Sc>(a: &[T; 16]) -> M44<T> {
    M44::new(std::array::from_fn(|i| std::array::from_fn(|j| a[i * 4 + j])))
}
pub fn mm4<T: Sc>(a: &[T; 16], b: &[T; 16]) -> [T; 16] {
    std::array::from_fn(|k| sum((0..4).map(|l| a[k / 4 * 4 + l] * b[l * 4 + k % 4])))
}
pub fn id16<T: Sc>() -> [T; 16] {
    std::array::from_fn(|k| if k % 5 == 0 { one() } else { zero() })
}
pub fn hom<T: Sc>(r: &[T; 9], p: &[T; 3]) -> [T; 16] {
    let (o, z) = (one::<T>(), zero::<T>());
    [r[0], r[1], r[2], p[0], r[3], r[4], r[5], p[1], r[6], r[7], r[8], p[2], z, z, z, o]
}
fn flat22<T: Sc>(m: &M22<T>) -> [T; 4] {
    std::array::from_fn(|k| m[(k / 2, k % 2)])
}
pub fn v3a<T: Sc>(a: &[T; 3]) -> V3<T> {
    V3::new(*a)
}
pub fn rx<T: Sc>(a: T) -> [T; 9] {
    let (s, k, o, z) = (a.sn(), a.cs(), one::<T>(), zero::<T>());
    [o, z, z, z, k, -s, z, s, k]
}
pub fn ry<T: Sc>(a: T) -> [T; 9] {
    let (s, k, o, z) = (a.sn(), a.cs(), one::<T>(), zero::<T>());
    [k, z, s, z, o, z, -s, z, k]
}
pub fn rz<T: Sc>(a: T) -> [T; 9] {
    let (s, k, o, z) = (a.sn(), a.cs(), one::<T>(), zero::<T>());
    [k, -s, z, s, k, z, z, z, o]
}

// ------------------------------------------------------------------ C16
pub fn elementary<T: Sc>() {
    T::bound("every angle, every translation");
    let a = T::angle("a", None);
    let (s, k) = (a.sn(), a.cs());
    let (x, y, z) = (T::var("x"), T::var("y"), T::var("z"));
    let (o, n) = (one::<T>(), zero::<T>());
    same("rot2 turns counterclockwise", &flat22(&rot2(a)), &[k, -s, s, k]);
    same("rotx is the right-handed rotation about x", &flat33(&rotx(a)), &rx(a));
    same("roty is the right-handed rotation about y", &flat33(&roty(a)), &ry(a));
    same("rotz is the right-handed rotation about z", &flat33(&rotz(a)), &rz(a));
    same("ksi is the planar pose", &flat33(&ksi(a, x, y)), &[k, -s, x, s, k, y, n, n, o]);
    same("translation_2d", &flat33(&translation_2d(x, y)), &[o, n, x, n, o, y, n, n, o]);
    same("translation_3d", &flat44(&translation_3d(x, y, z)), &hom(&id9(), &[x, y, z]));
}
pub fn elementary_group<T: Sc>() {
    T::bound("every pair of angles");
    let (a, b) = (T::angle("a", None), T::angle("b", None));
    same("rotx adds angles", &flat33(&(rotx(a) * rotx(b))), &flat33(&rotx(a + b)));
    same("roty adds angles", &flat33(&(roty(a) * roty(b))), &flat33(&roty(a + b)));
    same("rotz adds angles", &flat33(&(rotz(a) * rotz(b))), &flat33(&rotz(a + b)));
    same("rot2 adds angles", &flat22(&(rot2(a) * rot2(b))), &flat22(&rot2(a + b)));
    for (nm, r) in [("rotx", rotx(a)), ("roty", roty(a)), ("rotz", rotz(a))] {
        let f = flat33(&r);
        same(&format!("{} is orthogonal", nm), &mm(&f, &tr9(&f)), &id9());
        same(&format!("{} has determinant one", nm), &[r.det()], &[one()]);
        same(&format!("the inverse of {} is the rotation by the opposite angle", nm), &flat33(&rotation_inverse(&r)), &flat33(&match nm {
            "rotx" => rotx(-a),
            "roty" => roty(-a),
            _ => rotz(-a),
        }));
    }
    let g: [T; 9] = arr1("g");
    same("rotation_inverse is the transpose", &flat33(&rotation_inverse(&m33a(&g))), &tr9(&g));
}
pub fn euler<T: Sc>() {
    T::bound("every triple of angles, every sequence");
    let (a, b, d) = (T::angle("a", None), T::angle("b", None), T::angle("d", None));
    use EulerSeq::*;
    type F<T> = fn(T) -> [T; 9];
    let cases: Vec<(&str, Option<EulerSeq>, F<T>, F<T>, F<T>)> = vec![
        ("XYX", Some(XYX), rx, ry, rx),
        ("XYZ", Some(XYZ), rx, ry, rz),
        ("XZX", Some(XZX), rx, rz, rx),
        ("XZY", Some(XZY), rx, rz, ry),
        ("YXY", Some(YXY), ry, rx, ry),
        ("YXZ", Some(YXZ), ry, rx, rz),
        ("YZX", Some(YZX), ry, rz, rx),
        ("YZY", Some(YZY), ry, rz, ry),
        ("ZXY", Some(ZXY), rz, rx, ry),
        ("ZXZ", Some(ZXZ), rz, rx, rz),
        ("default ZYX", None, rz, ry, rx),
    ];
    for (n, s, f, g, h) in cases {
        let r = euler_to_rotation(a, b, d, s);
        same(&format!("sequence {} composes the named axes in order", n), &flat33(&r), &mm(&mm(&f(a), &g(b)), &h(d)));
    }
}

// ------------------------------------------------------------------ C17
fn ypr<T: Sc>(m: (i64, i64)) -> (T, T, T) {
    let (y, p, r) = (T::angle("y", Some(((-1, 1), (1, 1)))), T::angle("p", Some(((-1, 2), (1, 2)))), T::angle("r", Some(((-1, 1), (1, 1)))));
    T::assume(T::ltx(T::rat(1, 1000), p.cs()));
    let b = T::PI() - T::rat(m.0, m.1);
    for a in [y, r] {
        T::assume(all([T::ltx(-b, a), if m.0 == 0 { T::lex(a, b) } else { T::ltx(a, b) }]));
    }
    (y, p, r)
}
pub fn euler_recover<T: Sc>() {
    T::bound("yaw and roll within pi - 1e-6, pitch within [-pi/2, pi/2] with cos(pitch) above 1e-3");
    let (y, p, r) = ypr::<T>((1, 1_000_000));
    let (y2, p2, r2) = rotation_to_euler(&euler_to_rotation(y, p, r, None));
    T::angle_inj(y, y2);
    T::angle_inj(p, p2);
    T::angle_inj(r, r2);
    T::claim("yaw is recovered", T::ceq(y2, y));
    T::claim("pitch is recovered", T::ceq(p2, p));
    T::claim("roll is recovered", T::ceq(r2, r));
}
pub fn euler_rebuild<T: Sc>() {
    // any rotation: angles are free, the matrix decides
    T::bound("every rotation with cos(pitch) above 1e-3 (every such rotation is the product for angles in these ranges)");
    let (y, p, r) = ypr::<T>((0, 1));
    let m = mm(&mm(&rz(y), &ry(p)), &rx(r));
    let (y2, p2, r2) = rotation_to_euler(&m33a(&m));
    T::angle_inj(y, y2);
    T::angle_inj(p, p2);
    T::angle_inj(r, r2);
    same("the angles rebuild the rotation", &flat33(&euler_to_rotation(y2, p2, r2, None)), &m);
}
fn gimbal<T: Sc>(up: bool) {
    T::bound("pitch exactly +-pi/2, every yaw and roll");
    let (y, r) = (T::angle("y", None), T::angle("r", None));
    let z = zero::<T>();
    let o = one::<T>();
    let g: [T; 9] = if up { [z, z, o, z, o, z, -o, z, z] } else { [z, z, -o, z, o, z, o, z, z] };
    let m = mm(&mm(&rz(y), &g), &rx(r));
    let (y2, p2, r2) = rotation_to_euler(&m33a(&m));
    same("at gimbal lock the angles rebuild the rotation", &flat33(&euler_to_rotation(y2, p2, r2, None)), &m);
    same("at gimbal lock the roll is zero", &[r2], &[z]);
}
pub fn gimbal_up<T: Sc>() {
    gimbal::<T>(true)
}
pub fn gimbal_down<T: Sc>() {
    gimbal::<T>(false)
}
pub fn quat_euler<T: Sc>() {
    T::bound("every triple of angles");
    let (y, p, r) = (T::angle("y", None), T::angle("p", None), T::angle("r", None));
    let q = Quaternion::from_euler_angles(y, p, r);
    let m = mm(&mm(&rz(y), &ry(p)), &rx(r));
    let cq = qc(&q);
    same("the quaternion of the angles is a unit quaternion", &[dot4(&cq, &cq)], &[one()]);
    same("the quaternion of the angles is the rotation of the angles", &flat33(&q.to_rotation()), &m);
    same("its inverse is its conjugate", &ham(&cq, &qc(&q.inverse().unwrap())), &one4());
}
pub fn quat_euler_back<T: Sc>() {
    // with "recover" (angles of a matrix) and "quaternion" (matrix of a quaternion) this makes
    // to_euler_angles the inverse of from_euler_angles
    T::bound("every unit quaternion");
    let u = T::unit::<4>("q");
    let q = mkq(u);
    let (y, p, r) = q.to_euler_angles();
    let (y2, p2, r2) = rotation_to_euler(&q.to_rotation());
    same("the angles of a unit quaternion are those of its rotation", &[y, p, r], &[y2, p2, r2]);
}

// ------------------------------------------------------------------ C18
pub fn homog<T: Sc>() {
    T::bound("every rotation block and translation");
    let (r, p): ([T; 9], [T; 3]) = (arr1("r"), arr1("p"));
    let (m, v) = (m33a(&r), v3a(&p));
    let h = homogeneous_from_rotation(&m, &v);
    same("the blocks are in place", &flat44(&h), &hom(&r, &p));
    let any: [T; 16] = arr1("m");
    let (r2, p2) = get_parts_raw(&m44a(&any));
    same("get_parts_raw reads the rotation block", &flat33(&r2), &[any[0], any[1], any[2], any[4], any[5], any[6], any[8], any[9], any[10]]);
    same("get_parts_raw reads the translation", &a3(&p2), &[any[3], any[7], any[11]]);
    let q = quat::<T>("q");
    same("homogeneous_from_quaternion uses the rotation of the quaternion", &flat44(&homogeneous_from_quaternion(&q, &v)), &hom(&flat33(&q.to_rotation()), &p));
}
pub fn homog_inverse<T: Sc>() {
    T::bound("every rotation (unit quaternion) and translation");
    let u = T::unit::<4>("q");
    let p: [T; 3] = arr1("p");
    let m = rot9(&u);
    let h = m44a(&hom(&m, &p));
    let i = homogeneous_inverse(&h);
    same("inverse times transform is the identity", &flat44(&(i * h)), &id16());
    same("transform times inverse is the identity", &flat44(&(h * i)), &id16());
    let t = tr9(&m);
    let tp = mv(&t, &p);
    same("the inverse has the transposed rotation", &flat44(&i), &hom(&t, &[-tp[0], -tp[1], -tp[2]]));
}
pub fn homog_inverse_general<T: Sc>() {
    // the formula holds for any block, not only rotations
    let (r, p): ([T; 9], [T; 3]) = (arr1("r"), arr1("p"));
    let i = homogeneous_inverse(&m44a(&hom(&r, &p)));
    let t = tr9(&r);
    let tp = mv(&t, &p);
    same("inverse blocks", &flat44(&i), &hom(&t, &[-tp[0], -tp[1], -tp[2]]));
}
pub fn homog_inverse_transform<T: Sc>() {
    T::bound("every rotation block, translation and point");
    let (r, p, x): ([T; 9], [T; 3], [T; 3]) = (arr1("r"), arr1("p"), arr1("x"));
    let h = m44a(&hom(&r, &p));
    T::set_no_defs(true);
    let y = homogeneous_inverse_transform(&h, &v3a(&x));
    let d: [T; 3] = std::array::from_fn(|k| x[k] - p[k]);
    same("the inverse transform undoes translation and rotation", &a3(&y), &mv(&tr9(&r), &d));
}
pub fn parts_quat<T: Sc>() {
    T::bound("every rotation with cos(pitch) above 1e-3, every translation");
    let (y, pt, r) = ypr::<T>((0, 1));
    let t: [T; 3] = arr1("t");
    let m = mm(&mm(&rz(y), &ry(pt)), &rx(r));
    let (q, p) = get_parts(&m44a(&hom(&m, &t)));
    same("get_parts returns the translation", &a3(&p), &t);
    let cq = qc(&q);
    same("get_parts returns a unit quaternion", &[dot4(&cq, &cq)], &[one()]);
    same("get_parts returns the rotation", &flat33(&q.to_rotation()), &m);
}

// ------------------------------------------------------------------ C19
pub fn skews<T: Sc>() {
    T::bound("every component an arbitrary real");
    let (v, x): ([T; 3], [T; 3]) = (arr1("v"), arr1("x"));
    let k = skew_from_vec(&v3a(&v));
    let f = flat33(&k);
    same("skew times x is the cross product", &a3(&(k * v3a(&x))), &crs(&v, &x));
    same("the skew matrix is antisymmetric", &tr9(&f), &f.map(|e| -e));
    same("skew_to_vec inverts skew_from_vec", &a3(&skew_to_vec(&k)), &v);
    let s = T::var("s");
    let m2 = skew_scalar(s);
    same("skew_scalar", &flat22(&m2), &[zero(), -s, s, zero()]);
    same("vex_m22 inverts skew_scalar", &[vex_m22(&m2)], &[s]);
    same("augmented skew of a planar twist", &flat33(&skew_from_vec_aug(v3a(&v))), &[zero(), -v[2], v[0], v[2], zero(), v[1], zero(), zero(), zero()]);
}
pub fn twists<T: Sc>() {
    T::bound("every component an arbitrary real");
    let t: V6a<T> = arr1("t");
    let z = zero::<T>();
    let w = [t[0], t[1], t[2]];
    let k = sk9(&w);
    let se = twist_to_se3(&V6::new(t));
    let want = [k[0], k[1], k[2], t[3], k[3], k[4], k[5], t[4], k[6], k[7], k[8], t[5], z, z, z, z];
    same("twist_to_se3 puts the rotational part first", &flat44(&se), &want);
    let back = se3_to_twist(&se);
    same("se3_to_twist inverts twist_to_se3", &std::array::from_fn::<T, 6, _>(|i| back[i]), &t);
    let (o, l) = se3_get_parts(&se);
    same("se3_get_parts returns the rotational block", &flat33(&o), &k);
    same("se3_get_parts returns the linear part", &a3(&l), &[t[3], t[4], t[5]]);
    same("se3_from_parts puts them together", &flat44(&se3_from_parts(&o, &l)), &want);
    let g: [T; 9] = arr1("g");
    let p: [T; 3] = arr1("p");
    same("se3_from_parts keeps any block", &flat44(&se3_from_parts(&m33a(&g), &v3a(&p))), &[g[0], g[1], g[2], p[0], g[3], g[4], g[5], p[1], g[6], g[7], g[8], p[2], z, z, z, z]);
    // the other convention: linear part first
    let a = [t[3], t[4], t[5]];
    let ka = sk9(&a);
    same("skew_v6 puts the linear part first", &flat44(&skew_v6(V6::new(t))), &[ka[0], ka[1], ka[2], t[0], ka[3], ka[4], ka[5], t[1], ka[6], ka[7], ka[8], t[2], z, z, z, z]);
}
fn flat66<T: Sc>(m: &M66<T>) -> [T; 36] {
    std::array::from_fn(|k| m[(k / 6, k % 6)])
}
pub fn adjoints<T: Sc>() {
    T::bound("every rotation block and translation");
    let (r, p): ([T; 9], [T; 3]) = (arr1("r"), arr1("p"));
    let ad = adjoint(&m44a(&hom(&r, &p)));
    let pr = mm(&sk9(&p), &r);
    let want: [T; 36] = std::array::from_fn(|k| {
        let (i, j) = (k / 6, k % 6);
        match (i < 3, j < 3) {
            (true, true) => r[i * 3 + j],
            (true, false) => zero(),
            (false, true) => pr[(i - 3) * 3 + j],
            (false, false) => r[(i - 3) * 3 + j - 3],
        }
    });
    same("the adjoint has blocks R, 0, [p]R, R", &flat66(&ad), &want);
}
pub fn adjoint_conj<T: Sc>() {
    T::bound("every rotation (unit quaternion), translation and twist");
    let u = T::unit::<4>("q");
    let p: [T; 3] = arr1("p");
    let t: V6a<T> = arr1("t");
    let h = hom(&rot9(&u), &p);
    let at = adjoint(&m44a(&h)) * V6::new(t);
    let lhs = flat44(&twist_to_se3(&at));
    let rhs = mm4(&mm4(&h, &flat44(&twist_to_se3(&V6::new(t)))), &flat44(&homogeneous_inverse(&m44a(&h))));
    same("the adjoint changes the frame of a twist", &lhs, &rhs);
}
pub fn adjoint_hom<T: Sc>() {
    T::bound("every pair of rotations and translations");
    let (u, v) = (T::unit::<4>("q"), T::unit::<4>("s"));
    let (p, t): ([T; 3], [T; 3]) = (arr1("p"), arr1("t"));
    let (h, g) = (m44a(&hom(&rot9(&u), &p)), m44a(&hom(&rot9(&v), &t)));
    same("the adjoint of a product is the product of the adjoints", &flat66(&adjoint(&(h * g))), &flat66(&(adjoint(&h) * adjoint(&g))));
}
pub fn screw_axis<T: Sc>() {
    let (q, s): ([T; 3], [T; 3]) = (arr1("q"), arr1("s"));
    let h = T::var("h");
    let a = screw_to_axis(&v3a(&q), &v3a(&s), h);
    let k = crs(&s, &q);
    same("the screw axis is (s, -s x q + h s)", &std::array::from_fn::<T, 6, _>(|i| a[i]), &[s[0], s[1], s[2], h * s[0] - k[0], h * s[1] - k[1], h * s[2] - k[2]]);
}
pub fn axis_ang<T: Sc>() {
    T::bound("every vector of norm above 1e-6");
    let v: [T; 3] = arr1("v");
    let n2 = dt3(&v, &v);
    T::assume(T::ltx(T::rat(1, 1_000_000_000_000), n2));
    let (w, th) = axis_angle(&v3a(&v));
    let w = a3(&w);
    T::claim("theta is the norm", all([T::cle(zero(), th), T::ceq(th * th, n2)]));
    same("the axis is a unit vector", &[dt3(&w, &w)], &[one()]);
    same("axis times theta gives the vector back", &w.map(|e| e * th), &v);
}
pub fn axis_ang_zero<T: Sc>() {
    T::claim("the zero vector has no axis", c(panics(|| axis_angle(&V3::new([zero::<T>(); 3]))).is_err()));
}
pub fn axis_ang6<T: Sc>() {
    T::bound("every twist with a rotational or linear part of norm above 1e-6, the rotational part zero or above 1e-6");
    let t: V6a<T> = arr1("t");
    let w2 = t[0] * t[0] + t[1] * t[1] + t[2] * t[2];
    let v2 = t[3] * t[3] + t[4] * t[4] + t[5] * t[5];
    let e = T::rat(1, 1_000_000_000_000);
    let wz = T::eqx(w2, zero());
    T::assume(any([T::ltx(e, w2), all([wz.clone(), T::ltx(e, v2)])]));
    let (s, th) = axis_angle6(&V6::new(t));
    let s: V6a<T> = std::array::from_fn(|i| s[i]);
    same("S times theta gives the twist back", &s.map(|x| x * th), &t);
    T::claim("theta is not negative", T::cle(zero(), th));
    T::claim("theta is the norm of the rotational part, or of the linear part without rotation", any([all([wz.clone().not(), T::ceq(th * th, w2)]), all([wz, T::ceq(th * th, v2)])]));
}

// ------------------------------------------------------------------ C20
pub fn rodrigues_h<T: Sc>() {
    T::bound("every vector and angle");
    let w: [T; 3] = arr1("w");
    let th = T::angle("th", None);
    same("rotation_from_axis_angle is Rodrigues' formula", &flat33(&rotation_from_axis_angle(&v3a(&w), th)), &rodrigues(&w, th.sn(), th.cs()));
}
pub fn rodrigues_rot<T: Sc>() {
    T::bound("every unit axis and angle");
    let u = T::unit::<3>("u");
    let th = T::angle("th", None);
    let r = rotation_from_axis_angle(&v3a(&u), th);
    let f = flat33(&r);
    same("the result is orthogonal", &mm(&f, &tr9(&f)), &id9());
    same("the result has determinant one", &[r.det()], &[one()]);
    same("the axis is fixed", &mv(&f, &u), &u);
    same("the trace is 1 + 2 cos", &[f[0] + f[4] + f[8]], &[one::<T>() + int::<T>(2) * th.cs()]);
    let t2 = T::angle("t2", None);
    same("rotations about one axis add their angles", &flat33(&(r * rotation_from_axis_angle(&v3a(&u), t2))), &flat33(&rotation_from_axis_angle(&v3a(&u), th + t2)));
}
pub fn mexp<T: Sc>() {
    T::bound("every unit axis, every angle above 1e-6");
    let u = T::unit::<3>("u");
    let th = T::angle("th", None);
    T::assume(T::ltx(T::rat(1, 1_000_000), th));
    let w: [T; 3] = u.map(|e| e * th);
    let r = matrix_exponential(&m33a(&sk9(&w)));
    same("the exponential of theta [u] is the rotation by theta about u", &flat33(&r), &rodrigues(&u, th.sn(), th.cs()));
}
pub fn mexp_zero<T: Sc>() {
    same("the exponential of zero is the identity", &flat33(&matrix_exponential(&M33::<T>::zeros())), &id9());
    same("the logarithm of the identity is zero", &flat33(&matrix_log(&M33::<T>::identity())), &[zero(); 9]);
}
fn rot_u<T: Sc>() -> ([T; 3], T, [T; 9]) {
    T::bound("every rotation by an angle in [1e-3, pi - 1e-3]");
    let u = T::unit::<3>("u");
    let th = T::angle("th", Some(((0, 1), (1, 1))));
    T::assume(all([T::ltx(T::rat(1, 1000), th), T::ltx(th, T::PI() - T::rat(1, 1000))]));
    let m = rodrigues(&u, th.sn(), th.cs());
    (u, th, m)
}
pub fn mlog<T: Sc>() {
    let (u, th, m) = rot_u::<T>();
    let l = flat33(&matrix_log(&m33a(&m)));
    let tr = (m[0] + m[4] + m[8] - one()) / int(2);
    T::angle_inj(th, tr.acos());
    same("the logarithm of the rotation by theta about u is theta [u]", &l, &sk9(&u.map(|e| e * th)));
}
pub fn mlog_exp<T: Sc>() {
    let (_, _, m) = rot_u::<T>();
    let l = matrix_log(&m33a(&m));
    same("exp(log R) = R", &flat33(&matrix_exponential(&l)), &m);
}
pub fn mlog_half<T: Sc>() {
    T::bound("half turns about every axis whose largest component exceeds 1e-3 (always so)");
    let u = T::unit::<3>("u");
    // keep clear of the numerically ambiguous selection between the columns
    for k in 0..3 {
        T::assume(any([T::eqx(u[k], zero()), T::ltx(T::rat(1, 1_000_000), u[k] * u[k])]));
    }
    let m: [T; 9] = std::array::from_fn(|k| int::<T>(2) * u[k / 3] * u[k % 3] - if k % 4 == 0 { one() } else { zero() });
    let l = matrix_log(&m33a(&m));
    let w = a3(&skew_to_vec(&l));
    same("the logarithm of a half turn is antisymmetric", &flat33(&l), &sk9(&w));
    let p: [T; 3] = u.map(|e| e * T::PI());
    T::claim("the logarithm of a half turn about u is pi [u] or -pi [u]", any([eqs(&w, &p), eqs(&w, &p.map(|e| -e))]));
}

// ------------------------------------------------------------------ C21
pub fn exp6_rot<T: Sc>() {
    T::bound("every twist with unit axis and angle above 1e-3");
    let u = T::unit::<3>("u");
    let th = T::angle("th", None);
    T::assume(T::ltx(T::rat(1, 1000), th));
    let v: [T; 3] = arr1("v");
    // S = (u, v) with magnitude theta
    let tw = [u[0] * th, u[1] * th, u[2] * th, v[0] * th, v[1] * th, v[2] * th];
    let e = flat44(&matrix_exponential6(&twist_to_se3(&V6::new(tw))));
    let k = sk9(&u);
    let kk = mm(&k, &k);
    let i = id9::<T>();
    let g: [T; 9] = std::array::from_fn(|n| i[n] * th + k[n] * (one::<T>() - th.cs()) + kk[n] * (th - th.sn()));
    same("exp of a twist: rotation block, translation block and last row", &e, &hom(&rodrigues(&u, th.sn(), th.cs()), &mv(&g, &v)));
}
pub fn exp6_trans<T: Sc>() {
    T::bound("every pure translation");
    let v: [T; 3] = arr1("v");
    let z = zero::<T>();
    let se = twist_to_se3(&V6::new([z, z, z, v[0], v[1], v[2]]));
    same("exp of a pure translation is that translation", &flat44(&matrix_exponential6(&se)), &hom(&id9(), &v));
    same("log of a pure translation is that translation", &flat44(&matrix_log6(&m44a(&hom(&id9(), &v)))), &flat44(&se));
}
pub fn log6<T: Sc>() {
    let (u, th, m) = rot_u::<T>();
    let v: [T; 3] = arr1("v");
    // p = G(theta) v
    let k = sk9(&u);
    let kk = mm(&k, &k);
    let i = id9::<T>();
    let g: [T; 9] = std::array::from_fn(|n| i[n] * th + k[n] * (one::<T>() - th.cs()) + kk[n] * (th - th.sn()));
    let p = mv(&g, &v);
    let tr = (m[0] + m[4] + m[8] - one()) / int(2);
    T::angle_inj(th, tr.acos());
    let l = flat44(&matrix_log6(&m44a(&hom(&m, &p))));
    let z = zero::<T>();
    let w = sk9(&u.map(|e| e * th));
    same("log of exp of a twist: rotational block", &[l[0], l[1], l[2], l[4], l[5], l[6], l[8], l[9], l[10]], &w);
    same("log of exp of a twist: linear part", &[l[3], l[7], l[11]], &v.map(|e| e * th));
    same("log has a zero last row", &[l[12], l[13], l[14], l[15]], &[z; 4]);
}

// ------------------------------------------------------------------ C28
pub fn accepts<T: Sc>() {
    T::bound("every rotation and translation");
    let u = T::unit::<4>("q");
    let m = rot9(&u);
    T::claim("every rotation is accepted as a rotation", c(utils::is_rotation(m33a(&m))));
}
pub fn accepts_h<T: Sc>() {
    T::bound("every rotation and translation");
    let u = T::unit::<4>("q");
    let p: [T; 3] = arr1("p");
    let m = rot9(&u);
    T::claim("every rigid motion is accepted as a rigid motion", c(utils::is_rotation_h(m44a(&hom(&m, &p)))));
}

pub fn reg(v: &mut Vec<Harness>) {
    reg!(v, "C16", "elementary", elementary, "rot2, rotx, roty, rotz, ksi, translation_2d, translation_3d");
    reg!(v, "C16", "elementary-group", elementary_group, "rot2, rotx, roty, rotz, rotation_inverse, M33 Mul, M22 Mul, M33::det");
    reg!(v, "C16", "euler", euler, "euler_to_rotation, rotx, roty, rotz, M33 Mul");
    reg!(v, "C17", "recover", euler_recover, "rotation_to_euler, euler_to_rotation");
    reg!(v, "C17", "rebuild", euler_rebuild, "rotation_to_euler, euler_to_rotation");
    reg!(v, "C17", "gimbal-up", gimbal_up, "rotation_to_euler, euler_to_rotation");
    reg!(v, "C17", "gimbal-down", gimbal_down, "rotation_to_euler, euler_to_rotation");
    reg!(v, "C17", "quaternion", quat_euler, "Quaternion::from_euler_angles, Quaternion::to_rotation, Quaternion::inverse");
    reg!(v, "C17", "quaternion-back", quat_euler_back, "Quaternion::from_euler_angles, Quaternion::to_euler_angles, rotation_to_euler");
    reg!(v, "C18", "blocks", homog, "homogeneous_from_rotation, homogeneous_from_quaternion, get_parts_raw");
    reg!(v, "C18", "inverse", homog_inverse, "homogeneous_inverse, M44 Mul");
    reg!(v, "C18", "inverse-blocks", homog_inverse_general, "homogeneous_inverse");
    reg!(v, "C18", "inverse-transform", homog_inverse_transform, "homogeneous_inverse_transform, homogeneous_inverse, get_parts");
    reg!(v, "C18", "parts", parts_quat, "get_parts, rotation_to_euler, Quaternion::from_euler_angles");
    reg!(v, "C19", "skew", skews, "skew_from_vec, skew_to_vec, skew_scalar, vex_m22, skew_from_vec_aug, M33 Mul<V3>");
    reg!(v, "C19", "twist", twists, "twist_to_se3, se3_to_twist, se3_from_parts, se3_get_parts, skew_v6");
    reg!(v, "C19", "adjoint", adjoints, "adjoint, M66::copy_elements_from");
    reg!(v, "C19", "adjoint-frame", adjoint_conj, "adjoint, twist_to_se3, homogeneous_inverse, M66 Mul<V6>");
    reg!(v, "C19", "adjoint-product", adjoint_hom, "adjoint, M66 Mul, M44 Mul");
    reg!(v, "C19", "screw-axis", screw_axis, "screw_to_axis, V3::cross");
    reg!(v, "C19", "axis-angle", axis_ang, "axis_angle");
    reg!(v, "C19", "axis-angle-zero", axis_ang_zero, "axis_angle");
    reg!(v, "C19", "axis-angle-6", axis_ang6, "axis_angle6");
    reg!(v, "C20", "rodrigues", rodrigues_h, "rotation_from_axis_angle");
    reg!(v, "C20", "rotation", rodrigues_rot, "rotation_from_axis_angle, M33::det, M33 Mul");
    reg!(v, "C20", "exp", mexp, "matrix_exponential");
    reg!(v, "C20", "zero", mexp_zero, "matrix_exponential, matrix_log");
    reg!(v, "C20", "log", mlog, "matrix_log");
    reg!(v, "C20", "exp-log", mlog_exp, "matrix_exponential, matrix_log");
    reg!(v, "C20", "log-half-turn", mlog_half, "matrix_log, skew_to_vec");
    reg!(v, "C21", "exp", exp6_rot, "matrix_exponential6, twist_to_se3, matrix_exponential");
    reg!(v, "C21", "translation", exp6_trans, "matrix_exponential6, matrix_log6");
    reg!(v, "C21", "log-exp", log6, "matrix_log6, matrix_log");
    reg!(v, "C28", "accepts-3", accepts, "is_rotation, M33::det, compare_vecs, nearly_equal");
    reg!(v, "C28", "accepts-4", accepts_h, "is_rotation_h, get_parts_raw, compare_vecs, nearly_equal");
}
