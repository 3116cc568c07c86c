//! Bit-precise claims on the concrete f32/f64/bool code.  Each harness is
//! generic over where its inputs come from: `kani::any` under Kani, the bytes
//! of a counterexample on replay.
use static_math::quaternion::Quaternion;
use static_math::slices_methods::find_max_min;
use static_math::traits::LinearAlgebra;
use num::Zero;
use static_math::dual_quaternion::DualQuaternion;
use static_math::utils::{compare_dual_quaternions, compare_floats, compare_vecs, nearly_equal, nearly_zero};
use static_math::*;

pub trait Src {
    fn b(&mut self) -> bool;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn assume(&mut self, c: bool);
    fn claim(&mut self, c: bool, what: &'static str);
    /// every f32
    fn f(&mut self) -> f32 {
        f32::from_bits(self.u32())
    }
    /// a whole number in [-16, 15], and its float
    fn small(&mut self) -> i32 {
        (self.u32() & 31) as i32 - 16
    }
    /// f32 with at most eight significant bits (every sign, exponent, infinity, and NaNs)
    fn f8(&mut self) -> f32 {
        f32::from_bits(self.u32() & 0xffff_0000)
    }
    /// f64 with at most eight significant bits
    fn d8(&mut self) -> f64 {
        f64::from_bits(self.u64() & 0xffff_e000_0000_0000)
    }
}
fn same32(a: f32, b: f32) -> bool {
    a == b || (a != a && b != b)
}
fn arr<const N: usize, T: Copy>(mut f: impl FnMut() -> T) -> [T; N] {
    let first = f();
    let mut r = [first; N];
    let mut i = 1;
    while i < N {
        r[i] = f();
        i += 1;
    }
    r
}

macro_rules! left {
    ($name:ident, $v:ident, $n:expr, $t:ty) => {
        pub fn $name<S: Src>(s: &mut S) {
            let k = s.small();
            let x: [i32; $n] = arr(|| s.small());
            let mut f = [0.0 as $t; $n];
            for i in 0..$n {
                f[i] = x[i] as $t;
            }
            let r = (k as $t) * $v::new(f);
            for i in 0..$n {
                s.claim(r[i] == (k * x[i]) as $t, "constant * vector multiplies every component");
            }
        }
    };
}
left!(left_v2, V2, 2, f32);
left!(left_v3, V3, 3, f32);
left!(left_v4, V4, 4, f32);
left!(left_v5, V5, 5, f32);
left!(left_v6, V6, 6, f32);
left!(left_v3_64, V3, 3, f64);

macro_rules! leftm {
    ($name:ident, $m:ident, $n:expr, $t:ty) => {
        pub fn $name<S: Src>(s: &mut S) {
            let k = s.small();
            let x: [[i32; $n]; $n] = arr(|| arr(|| s.small()));
            let mut f = [[0.0 as $t; $n]; $n];
            for i in 0..$n {
                for j in 0..$n {
                    f[i][j] = x[i][j] as $t;
                }
            }
            let r = (k as $t) * $m::new(f);
            for i in 0..$n {
                for j in 0..$n {
                    s.claim(r[(i, j)] == (k * x[i][j]) as $t, "constant * matrix multiplies every entry");
                }
            }
        }
    };
}
leftm!(left_m22, M22, 2, f32);
leftm!(left_m33, M33, 3, f32);
leftm!(left_m33_64, M33, 3, f64);

pub fn bool_and<S: Src>(s: &mut S) {
    let (a, b): ([bool; 4], [bool; 4]) = (arr(|| s.b()), arr(|| s.b()));
    let r = V4::new(a) & V4::new(b);
    for i in 0..4 {
        s.claim(r[i] == (a[i] && b[i]), "& of boolean vectors is elementwise and");
    }
}

// ---------------------------------------------------------------- total functions
pub fn nearly_equal_total<S: Src>(s: &mut S) {
    let (a, b, e) = (s.f8(), s.f8(), s.f8());
    let r = nearly_equal(a, b, e);
    if a.is_nan() || b.is_nan() {
        s.claim(!r, "NaN is nearly equal to nothing");
    } else if a == b {
        s.claim(r || !(e > 0.0), "equal numbers, infinities included, are nearly equal");
    } else if a.is_infinite() || b.is_infinite() {
        s.claim(!r || e > 1.0, "an infinity is not within a tolerance below one of another number");
    }
    if e.is_nan() && a != b {
        s.claim(!r, "nothing is within a NaN tolerance");
    }
}
pub fn nearly_zero_total<S: Src>(s: &mut S) {
    let a = s.f();
    let r = nearly_zero(a);
    if a == 0.0 {
        s.claim(r, "zero of either sign is nearly zero");
    }
    if !(a.abs() <= f32::EPSILON) {
        s.claim(!r, "numbers above the machine epsilon, infinities and NaN are not nearly zero");
    }
    if a.abs() < f32::EPSILON / 2.0 {
        s.claim(r, "numbers below half the machine epsilon are nearly zero");
    }
}
pub fn nearly_equal_max<S: Src>(s: &mut S) {
    // the sum of the magnitudes overflows
    let (a, b, e) = (s.f8(), s.f8(), s.f8());
    s.assume(a.is_finite() && b.is_finite() && a != b && a.abs() > 1.8e38 && b.abs() > 1.8e38 && e > 0.0 && e < 0.25);
    let opposite = (a > 0.0) != (b > 0.0);
    let r = nearly_equal(a, b, e);
    if opposite {
        s.claim(!r, "huge numbers of opposite sign are not nearly equal");
    } else {
        // the sum of the magnitudes counts as the largest finite number
        let d = (a - b).abs();
        if d < e * 3.3e38 {
            s.claim(r, "huge numbers close to each other are nearly equal");
        }
        if d * 0.9 > e * 3.4e38 {
            s.claim(!r, "huge numbers apart are not nearly equal");
        }
    }
}
pub fn compare_floats_total<S: Src>(s: &mut S) {
    let (a, b, e) = (s.f8(), s.f8(), s.f8());
    let r = compare_floats(a, b, e);
    s.claim(r == compare_floats(b, a, e), "compare_floats is symmetric");
    if a.is_nan() || b.is_nan() || e.is_nan() {
        s.claim(!r, "compare_floats is false on NaN");
    }
    if e <= 0.0 {
        s.claim(!r, "nothing is within a tolerance of zero or less");
    }
}
pub fn compare_vecs_total<S: Src>(s: &mut S) {
    let (a, b): ([f32; 3], [f32; 3]) = (arr(|| s.f8()), arr(|| s.f8()));
    let r = compare_vecs(&a, &b, 0.5);
    for i in 0..3 {
        if a[i].is_nan() || b[i].is_nan() {
            s.claim(!r, "a NaN component makes vectors differ");
        }
    }
}
pub fn max_min_total<S: Src>(s: &mut S) {
    let a: [f32; 4] = arr(|| s.f());
    let r = find_max_min(&a);
    s.claim(r.max.1 < 4 && r.min.1 < 4, "positions are inside the slice");
    s.claim(same32(a[r.max.1 & 3], r.max.0) && same32(a[r.min.1 & 3], r.min.0), "values are those at the positions");
    if !a[0].is_nan() && !a[1].is_nan() && !a[2].is_nan() && !a[3].is_nan() {
        for i in 0..4 {
            s.claim(a[i] <= r.max.0 && a[i] >= r.min.0, "nothing lies outside");
        }
    }
}
pub fn bool_index<S: Src>(s: &mut S) {
    let m: [[u32; 3]; 3] = arr(|| arr(|| s.u32()));
    let mut x = M33::new(m);
    let (i, j) = (s.u32() as usize, s.u32() as usize);
    s.assume(i < 3 && j < 3);
    let v = s.u32();
    x[(i, j)] = v;
    for p in 0..3 {
        for q in 0..3 {
            let e = if p == i && q == j { v } else { m[p][q] };
            s.claim(x[(p, q)] == e && x[p][q] == e, "writing one entry changes that entry only");
        }
    }
}

// ---------------------------------------------------------------- IEEE special values
pub fn quat_normalize<S: Src>(s: &mut S) {
    let a: [f32; 4] = arr(|| s.f8());
    let q = Quaternion::new_from(a[0], a[1], a[2], a[3]);
    let zero = a[0] == 0.0 && a[1] == 0.0 && a[2] == 0.0 && a[3] == 0.0;
    let r = q.normalize();
    if zero {
        s.claim(r.is_none(), "the zero quaternion has no direction");
    }
}
pub fn inverse_total<S: Src>(s: &mut S) {
    let x: [[f32; 2]; 2] = arr(|| arr(|| s.f8()));
    let m = M22::new(x);
    let d = m.det();
    let r = m.inverse();
    if d == 0.0 {
        s.claim(r.is_none(), "a zero determinant gives no inverse");
    }
    if d.abs() >= 1.0 && d.abs() <= f32::MAX {
        s.claim(r.is_some(), "a determinant away from zero gives an inverse");
    }
}

// ---------------------------------------------------------------- equality
macro_rules! eqv {
    ($name:ident, $v:ident, $n:expr) => {
        pub fn $name<S: Src>(s: &mut S) {
            let a: [f32; $n] = arr(|| s.f());
            let b: [f32; $n] = arr(|| s.f());
            let (mut e, mut z) = (true, true);
            for i in 0..$n {
                e &= a[i] == b[i];
                z &= a[i] == 0.0;
            }
            s.claim(($v::new(a) == $v::new(b)) == e, "vectors are equal exactly when every component is");
            s.claim($v::new(a).is_zero() == z, "is_zero exactly when every component is zero");
        }
    };
}
eqv!(eq_v2, V2, 2);
eqv!(eq_v3, V3, 3);
eqv!(eq_v4, V4, 4);
eqv!(eq_v5, V5, 5);
eqv!(eq_v6, V6, 6);
macro_rules! eqm {
    ($name:ident, $m:ident, $n:expr) => {
        pub fn $name<S: Src>(s: &mut S) {
            let a: [[f32; $n]; $n] = arr(|| arr(|| s.f()));
            let b: [[f32; $n]; $n] = arr(|| arr(|| s.f()));
            let (mut e, mut z) = (true, true);
            for i in 0..$n {
                for j in 0..$n {
                    e &= a[i][j] == b[i][j];
                    z &= a[i][j] == 0.0;
                }
            }
            s.claim(($m::new(a) == $m::new(b)) == e, "matrices are equal exactly when every entry is");
            s.claim($m::new(a).is_zero() == z, "is_zero exactly when every entry is zero");
        }
    };
}
eqm!(eq_m22, M22, 2);
eqm!(eq_m33, M33, 3);
eqm!(eq_m44, M44, 4);
eqm!(eq_m55, M55, 5);
eqm!(eq_m66, M66, 6);

fn quat<S: Src>(s: &mut S) -> (Quaternion<f32>, [f32; 4]) {
    let a: [f32; 4] = arr(|| s.f());
    (Quaternion::new_from(a[0], a[1], a[2], a[3]), a)
}
pub fn eq_quaternion<S: Src>(s: &mut S) {
    let (p, a) = quat(s);
    let (q, b) = quat(s);
    let e = a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3];
    s.claim((p == q) == e, "quaternions are equal exactly when every component is");
    let z = a[0] == 0.0 && a[1] == 0.0 && a[2] == 0.0 && a[3] == 0.0;
    s.claim(p.is_zero() == z, "is_zero exactly when every component is zero");
}
pub fn eq_dual_quaternion<S: Src>(s: &mut S) {
    let ((p, a), (q, b), (u, c), (v, d)) = (quat(s), quat(s), quat(s), quat(s));
    let (mut e, mut z) = (true, true);
    for i in 0..4 {
        e &= a[i] == c[i] && b[i] == d[i];
        z &= a[i] == 0.0 && b[i] == 0.0;
    }
    let x = DualQuaternion::new(p, q);
    s.claim((x == DualQuaternion::new(u, v)) == e, "dual quaternions are equal exactly when every component is");
    s.claim(x.is_zero() == z, "is_zero exactly when every component is zero");
}

// ---------------------------------------------------------------- no inverse
pub fn zero_row_m22<S: Src>(s: &mut S) {
    let mut x: [[f32; 2]; 2] = arr(|| arr(|| s.f()));
    let i = s.u32() as usize;
    let col = s.b();
    s.assume(i < 2);
    for k in 0..2 {
        if col {
            x[k][i] = 0.0;
        } else {
            x[i][k] = 0.0;
        }
    }
    for r in 0..2 {
        for c in 0..2 {
            s.assume(x[r][c].abs() <= 1.0e9);
        }
    }
    s.claim(M22::new(x).inverse().is_none(), "a matrix with a row or column of zeros has no inverse");
}
pub fn zero_row_m33<S: Src>(s: &mut S) {
    let mut x: [[f32; 3]; 3] = arr(|| arr(|| s.f8()));
    let i = s.u32() as usize;
    let col = s.b();
    s.assume(i < 3);
    for k in 0..3 {
        if col {
            x[k][i] = 0.0;
        } else {
            x[i][k] = 0.0;
        }
    }
    for r in 0..3 {
        for c in 0..3 {
            s.assume(x[r][c].abs() <= 1.0e9);
        }
    }
    s.claim(M33::new(x).inverse().is_none(), "a matrix with a row or column of zeros has no inverse");
}
pub fn compare_dq_nan<S: Src>(s: &mut S) {
    let ((p, a), (q, b)) = (quat(s), quat(s));
    let mut nan = false;
    for i in 0..4 {
        nan |= a[i].is_nan() || b[i].is_nan();
    }
    s.assume(nan);
    let x = DualQuaternion::new(p, q);
    s.claim(!compare_dual_quaternions(x, x, 0.5), "a NaN component makes dual quaternions differ");
}

macro_rules! table {
    ($($prop:literal $name:ident $unwind:literal;)*) => {
        pub fn table<S: Src>() -> Vec<(&'static str, &'static str, fn(&mut S))> {
            vec![$(($prop, stringify!($name), $name::<S> as fn(&mut S))),*]
        }
        #[cfg(kani)]
        mod proofs {
            struct K;
            impl super::Src for K {
                fn b(&mut self) -> bool { kani::any() }
                fn u32(&mut self) -> u32 { kani::any() }
                fn u64(&mut self) -> u64 { kani::any() }
                fn assume(&mut self, c: bool) { kani::assume(c) }
                fn claim(&mut self, c: bool, what: &'static str) { assert!(c, "{}", what) }
            }
            $(
                #[kani::proof]
                #[kani::unwind($unwind)]
                fn $name() { super::$name(&mut K) }
            )*
        }
    };
}
table! {
    "C26" left_v2 8;
    "C26" left_v3 8;
    "C26" left_v4 8;
    "C26" left_v5 8;
    "C26" left_v6 8;
    "C26" left_v3_64 8;
    "C26" left_m22 8;
    "C26" left_m33 8;
    "C26" left_m33_64 8;
    "C26" bool_and 8;
    "C27" nearly_equal_total 8;
    "C27" nearly_equal_max 8;
    "C27" nearly_zero_total 8;
    "C27" compare_floats_total 8;
    "C27" compare_vecs_total 8;
    "C27" max_min_total 8;
    "C27" bool_index 8;
    "C27" quat_normalize 8;
    "C27" inverse_total 8;
    "C27" zero_row_m22 8;
    "C27" zero_row_m33 8;
    "C27" compare_dq_nan 8;
    "C27" eq_v2 8;
    "C27" eq_v3 8;
    "C27" eq_v4 8;
    "C27" eq_v5 8;
    "C27" eq_v6 8;
    "C27" eq_m22 8;
    "C27" eq_m33 8;
    "C27" eq_m44 18;
    "C27" eq_m55 27;
    "C27" eq_m66 38;
    "C27" eq_quaternion 8;
    "C27" eq_dual_quaternion 8;
}
