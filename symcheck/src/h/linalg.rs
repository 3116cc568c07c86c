//! Vectors and matrices: C01-C05, C08, C09.
use super::util::*;
use super::*;
use num::{One, Zero};
use static_math::traits::LinearAlgebra;
use static_math::*;

macro_rules! mats {
    ($md:ident, $M:ident, $V:ident, $N:literal, $NN:literal) => {
        pub mod $md {
            use super::*;
            pub const N: usize = $N;
            pub fn mat<T: Sc>(s: &str) -> $M<T> {
                $M::new(arr2(s))
            }
            pub fn vec<T: Sc>(s: &str) -> $V<T> {
                $V::new(arr1(s))
            }
            pub fn fl<T: Sc>(m: &$M<T>) -> [T; $NN] {
                std::array::from_fn(|k| m[(k / N, k % N)])
            }
            pub fn mk<T: Sc>(f: impl Fn(usize, usize) -> T) -> [T; $NN] {
                std::array::from_fn(|k| f(k / N, k % N))
            }
            fn id<T: Sc>() -> [T; $NN] {
                mk(|i, j| if i == j { one() } else { zero() })
            }

            // ---------------------------------------------------- C01
            pub fn ring<T: Sc>() {
                T::ring_guard(true);
                T::bound(concat!($N, "x", $N, " matrices, every entry an arbitrary real"));
                let (a, b, s) = (mat::<T>("a"), mat::<T>("b"), T::var("s"));
                same("A + B is the entrywise sum", &fl(&(a + b)), &mk(|i, j| a[(i, j)] + b[(i, j)]));
                same("A - B is the entrywise difference", &fl(&(a - b)), &mk(|i, j| a[(i, j)] - b[(i, j)]));
                same("-A negates every entry", &fl(&(-a)), &mk(|i, j| -a[(i, j)]));
                same("A * s scales every entry", &fl(&(a * s)), &mk(|i, j| a[(i, j)] * s));
                let mut x = a;
                x += b;
                same("A += B is the entrywise sum", &fl(&x), &mk(|i, j| a[(i, j)] + b[(i, j)]));
                let mut x = a;
                x -= b;
                same("A -= B is the entrywise difference", &fl(&x), &mk(|i, j| a[(i, j)] - b[(i, j)]));
                same("A * B is the row-by-column product", &fl(&(a * b)), &mk(|i, j| sum((0..N).map(|k| a[(i, k)] * b[(k, j)]))));
                same("the zero matrix has zero entries", &fl(&$M::<T>::zero()), &mk(|_, _| zero()));
                same("zeros() has zero entries", &fl(&$M::<T>::zeros()), &mk(|_, _| zero()));
                same("the one matrix is the identity", &fl(&<$M<T> as One>::one()), &id());
                same("identity() is the identity", &fl(&$M::<T>::identity()), &id());
                T::ring_guard(false);
            }
            pub fn scalar_div<T: Sc>() {
                let (a, s) = (mat::<T>("a"), T::var("s"));
                T::assume(ne(s, zero()));
                same("A / s divides every entry", &fl(&(a / s)), &mk(|i, j| a[(i, j)] / s));
            }
            pub fn is_zero<T: Sc>() {
                let a = mat::<T>("a");
                let z = a.is_zero();
                T::claim("is_zero exactly when every entry is zero", c(z).iff(all(fl(&a).iter().map(|x| T::eqx(*x, zero())))));
            }
            pub fn equality<T: Sc>() {
                let (a, b) = (mat::<T>("a"), mat::<T>("b"));
                let z = a == b;
                T::claim("== exactly when all entries are equal", c(z).iff(all(fl(&a).iter().zip(fl(&b).iter()).map(|(x, y)| T::eqx(*x, *y)))));
            }
            // ---------------------------------------------------- C02
            pub fn mul_vec<T: Sc>() {
                T::ring_guard(true);
                let (a, v) = (mat::<T>("a"), vec::<T>("v"));
                let r = a * v;
                same("M * v is the matrix-vector product", &r[..], &std::array::from_fn::<T, N, _>(|i| sum((0..N).map(|k| a[(i, k)] * v[k]))));
                let r = v * a;
                same("v * M is the row-vector product", &r[..], &std::array::from_fn::<T, N, _>(|j| sum((0..N).map(|k| v[k] * a[(k, j)]))));
                T::ring_guard(false);
            }
            // ---------------------------------------------------- C04
            pub fn det<T: Sc>() {
                let a = mat::<T>("a");
                T::ring_guard(true);
                let d = a.det();
                T::ring_guard(false);
                let r = leibniz(N, |i, j| a[(i, j)]);
                T::claim("det equals the sum over all permutations", T::ceq(d, r));
            }
            // ---------------------------------------------------- C05
            pub fn inverse<T: Sc>() {
                let a = mat::<T>("a");
                let d = laplace(N, &|i, j| a[(i, j)]);
                let tol = T::rat(1, 1000000000);
                match a.inverse() {
                    None => T::claim("no inverse only for a determinant within rounding of zero", abs_le(d, tol)),
                    Some(x) => {
                        T::claim("an inverse is returned only for a non-zero determinant", ne(d, zero()));
                        // away from the singularity, where rounding is harmless
                        T::assume(any([T::ltx(T::rat(1, 1000), d), T::ltx(d, T::rat(-1, 1000))]));
                        same("A * inverse(A) = I", &mk(|i, j| sum((0..N).map(|k| a[(i, k)] * x[(k, j)]))), &id());
                        same("inverse(A) * A = I", &mk(|i, j| sum((0..N).map(|k| x[(i, k)] * a[(k, j)]))), &id());
                    }
                }
            }
            // ---------------------------------------------------- C08
            pub fn structure<T: Sc>() {
                T::ring_guard(true);
                let raw: [[T; N]; N] = arr2("a");
                let a = $M::new(raw);
                T::claim("entry (i,j) is the j-th element of the i-th given row", all((0..$NN).map(|k| T::ceq(a[(k / N, k % N)], raw[k / N][k % N]))));
                T::claim("row indexing gives the i-th row", all((0..$NN).map(|k| T::ceq(a[k / N][k % N], raw[k / N][k % N]))));
                let f = $M::from(raw);
                T::claim("conversion from arrays keeps every entry", all((0..$NN).map(|k| T::ceq(f[(k / N, k % N)], raw[k / N][k % N]))));
                T::claim("rows, cols and shape are the dimension", c(LinearAlgebra::rows(&a) == N && LinearAlgebra::cols(&a) == N && a.shape() == (N, N) && a.rows() == N && a.cols() == N));
                same("transpose swaps rows and columns", &fl(&a.transpose()), &mk(|i, j| raw[j][i]));
                same("as_vec lists the entries row by row", &a.as_vec()[..], &mk(|i, j| raw[i][j]));
                let d = a.get_diagonal();
                same("the diagonal holds the entries (i,i)", &d[..], &std::array::from_fn::<T, N, _>(|i| raw[i][i]));
                let r = a.get_rows();
                T::claim("get_rows gives the rows", all((0..$NN).map(|k| T::ceq(r[k / N][k % N], raw[k / N][k % N]))));
                let cl = a.get_cols();
                T::claim("get_cols gives the columns", all((0..$NN).map(|k| T::ceq(cl[k / N][k % N], raw[k % N][k / N]))));
                same("a matrix built from its columns is the matrix", &fl(&$M::new_from_vecs(cl)), &mk(|i, j| raw[i][j]));
                let k = T::var("k");
                same("for_each applies the function to every entry in place", &fl(&a.for_each(|x| x * x + k)), &mk(|i, j| raw[i][j] * raw[i][j] + k));
                let x = T::var("x");
                for p in 0..N {
                    for q in 0..N {
                        let mut b = a;
                        b[(p, q)] = x;
                        T::claim("writing one entry changes that entry only", eqs(&fl(&b), &mk(|i, j| if (i, j) == (p, q) { x } else { raw[i][j] })));
                        let mut b = a;
                        b[p][q] = x;
                        T::claim("writing through a row changes that entry only", eqs(&fl(&b), &mk(|i, j| if (i, j) == (p, q) { x } else { raw[i][j] })));
                    }
                }
                T::ring_guard(false);
            }
            // ---------------------------------------------------- C09
            pub fn norms<T: Sc>() {
                let a = mat::<T>("a");
                same("trace is the sum of the diagonal", &[a.trace()], &[sum((0..N).map(|i| a[(i, i)]))]);
                let n = a.norm2();
                T::claim("norm2 is the square root of the sum of squares", all([T::cle(zero(), n), T::ceq(n * n, sum((0..$NN).map(|k| a[(k / N, k % N)] * a[(k / N, k % N)])))]));
            }
        }
    };
}
mats!(m2, M22, V2, 2, 4);
mats!(m3, M33, V3, 3, 9);
mats!(m4, M44, V4, 4, 16);
mats!(m5, M55, V5, 5, 25);
mats!(m6, M66, V6, 6, 36);

macro_rules! triangles {
    ($f:ident, $md:ident, $up:ident, $lo:ident) => {
        pub fn $f<T: Sc>() {
            T::ring_guard(true);
            let a = $md::mat::<T>("a");
            let n = $md::N;
            let mut u = vec![];
            let mut l = vec![];
            for i in 0..n {
                for j in 0..n {
                    if i < j {
                        u.push(a[(i, j)])
                    }
                    if i > j {
                        l.push(a[(i, j)])
                    }
                }
            }
            same("the upper triangle lists the entries above the diagonal row by row", &a.$up()[..], &u);
            same("the lower triangle lists the entries below the diagonal row by row", &a.$lo()[..], &l);
            T::ring_guard(false);
        }
    };
}
triangles!(tri3, m3, get_upper_triagular, get_lower_triangular);
triangles!(tri4, m4, get_upper_triagular, get_lower_triangular);
triangles!(tri5, m5, get_upper_triagular, get_lower_triangular);
triangles!(tri6, m6, get_upper_triangular, get_lower_triangular);

pub fn sub4<T: Sc>() {
    T::ring_guard(true);
    let a = m4::mat::<T>("a");
    for p in 0..4 {
        for q in 0..4 {
            let s = a.get_submatrix((p, q));
            let r = |k: usize, d: usize| if k < d { k } else { k + 1 };
            T::claim("the submatrix drops the selected row and column", eqs(&flat33(&s), &std::array::from_fn::<T, 9, _>(|k| a[(r(k / 3, p), r(k % 3, q))])));
        }
    }
    T::ring_guard(false);
}
pub fn quadrants<T: Sc>() {
    T::ring_guard(true);
    let a = m6::mat::<T>("a");
    let b = m3::mat::<T>("b");
    for q in 1..=4usize {
        let mut x = a;
        x.copy_elements_from(&b, q);
        let (r0, c0) = (3 * ((q - 1) / 2), 3 * ((q - 1) % 2));
        let want = m6::mk(|i, j| {
            if i >= r0 && i < r0 + 3 && j >= c0 && j < c0 + 3 {
                b[(i - r0, j - c0)]
            } else {
                a[(i, j)]
            }
        });
        T::claim("copying into a quadrant overwrites exactly that quadrant", eqs(&m6::fl(&x), &want));
    }
    T::ring_guard(false);
}
pub fn macros<T: Sc>() {
    let r: [[T; 6]; 6] = arr2("a");
    let a = m22_new!(r[0][0], r[0][1]; r[1][0], r[1][1]);
    same("m22_new lists rows", &m2::fl(&a), &m2::mk(|i, j| r[i][j]));
    let a = m33_new!(r[0][0], r[0][1], r[0][2]; r[1][0], r[1][1], r[1][2]; r[2][0], r[2][1], r[2][2]);
    same("m33_new lists rows", &m3::fl(&a), &m3::mk(|i, j| r[i][j]));
    let a = m44_new!(r[0][0], r[0][1], r[0][2], r[0][3];
                     r[1][0], r[1][1], r[1][2], r[1][3];
                     r[2][0], r[2][1], r[2][2], r[2][3];
                     r[3][0], r[3][1], r[3][2], r[3][3]);
    same("m44_new lists rows", &m4::fl(&a), &m4::mk(|i, j| r[i][j]));
    let a = m55_new!(r[0][0], r[0][1], r[0][2], r[0][3], r[0][4];
                     r[1][0], r[1][1], r[1][2], r[1][3], r[1][4];
                     r[2][0], r[2][1], r[2][2], r[2][3], r[2][4];
                     r[3][0], r[3][1], r[3][2], r[3][3], r[3][4];
                     r[4][0], r[4][1], r[4][2], r[4][3], r[4][4]);
    same("m55_new lists rows", &m5::fl(&a), &m5::mk(|i, j| r[i][j]));
    let a = m66_new!(r[0][0], r[0][1], r[0][2], r[0][3], r[0][4], r[0][5];
                     r[1][0], r[1][1], r[1][2], r[1][3], r[1][4], r[1][5];
                     r[2][0], r[2][1], r[2][2], r[2][3], r[2][4], r[2][5];
                     r[3][0], r[3][1], r[3][2], r[3][3], r[3][4], r[3][5];
                     r[4][0], r[4][1], r[4][2], r[4][3], r[4][4], r[4][5];
                     r[5][0], r[5][1], r[5][2], r[5][3], r[5][4], r[5][5]);
    same("m66_new lists rows", &m6::fl(&a), &m6::mk(|i, j| r[i][j]));
}

macro_rules! vecs {
    ($md:ident, $V:ident, $N:literal, ($($x:ident $i:tt),*)) => {
        pub mod $md {
            use super::*;
            pub const N: usize = $N;
            pub fn vec<T: Sc>(s: &str) -> $V<T> {
                $V::new(arr1(s))
            }
            fn mk<T: Sc>(f: impl Fn(usize) -> T) -> [T; N] {
                std::array::from_fn(f)
            }
            pub fn ring<T: Sc>() {
                T::ring_guard(true);
                T::bound(concat!("vectors of length ", $N, ", every component an arbitrary real"));
                let (a, b, s) = (vec::<T>("a"), vec::<T>("b"), T::var("s"));
                same("a + b is componentwise", &(a + b)[..], &mk(|i| a[i] + b[i]));
                same("a - b is componentwise", &(a - b)[..], &mk(|i| a[i] - b[i]));
                same("-a is componentwise", &(-a)[..], &mk(|i| -a[i]));
                same("a * s scales every component", &(a * s)[..], &mk(|i| a[i] * s));
                let mut x = a;
                x += b;
                same("a += b is componentwise", &x[..], &mk(|i| a[i] + b[i]));
                let mut x = a;
                x -= b;
                same("a -= b is componentwise", &x[..], &mk(|i| a[i] - b[i]));
                same("a * b is the dot product", &[a * b], &[sum((0..N).map(|k| a[k] * b[k]))]);
                same("zero() is the zero vector", &$V::<T>::zero()[..], &mk(|_| zero()));
                same("zeros() is the zero vector", &$V::<T>::zeros()[..], &mk(|_| zero()));
                same("ones() has all components one", &$V::<T>::ones()[..], &mk(|_| one()));
                let raw: [T; N] = arr1("a");
                same("construction from an array keeps the components", &$V::new(raw)[..], &raw);
                same("conversion from an array keeps the components", &$V::from(raw)[..], &raw);
                same("construction from numbers keeps the components", &$V::new_from($(raw[$i]),*)[..], &raw);
                T::ring_guard(false);
            }
            pub fn scalar_div<T: Sc>() {
                let (a, s) = (vec::<T>("a"), T::var("s"));
                T::assume(ne(s, zero()));
                same("a / s divides every component", &(a / s)[..], &mk(|i| a[i] / s));
            }
            pub fn is_zero<T: Sc>() {
                let a = vec::<T>("a");
                let z = a.is_zero();
                T::claim("is_zero exactly when every component is zero", c(z).iff(all(a.iter().map(|x| T::eqx(*x, zero())))));
            }
            pub fn equality<T: Sc>() {
                let (a, b) = (vec::<T>("a"), vec::<T>("b"));
                let z = a == b;
                T::claim("== exactly when all components are equal", c(z).iff(all(a.iter().zip(b.iter()).map(|(x, y)| T::eqx(*x, *y)))));
            }
            pub fn norms<T: Sc>() {
                let a = vec::<T>("a");
                let n = a.norm2();
                T::claim("norm2 is the euclidean norm", all([T::cle(zero(), n), T::ceq(n * n, sum((0..N).map(|k| a[k] * a[k])))]));
                let m = a.norm_l();
                same("norm_l is the sum of absolute values", &[m], &[sum((0..N).map(|k| num::Float::abs(a[k])))]);
            }
            pub fn norm_inf<T: Sc>() {
                let a = vec::<T>("a");
                let m = a.norm_inf();
                T::claim("norm_inf bounds every absolute value", all((0..N).map(|k| all([T::lex(a[k], m), T::lex(-a[k], m)]))));
                T::claim("norm_inf is attained", any((0..N).map(|k| any([T::eqx(a[k], m), T::eqx(-a[k], m)]))));
            }
            pub fn normalize<T: Sc>() {
                #[allow(unused_mut)]
                let mut a = vec::<T>("a");
                let s2 = sum((0..N).map(|k| a[k] * a[k]));
                let r = a.normalize();
                match r {
                    Ok(u) => {
                        T::claim("normalising succeeds only for a non-zero vector", ne(s2, zero()));
                        T::claim("a normalised vector has unit length", T::ceq(sum((0..N).map(|k| u[k] * u[k])), one()));
                        let n = a.norm2();
                        T::claim("a normalised vector times the norm is the vector", all((0..N).map(|k| T::ceq(u[k] * n, a[k]))));
                    }
                    Err(_) => T::claim("normalising fails only for the zero vector", T::eqx(s2, zero())),
                }
            }
        }
    };
}
vecs!(v2, V2, 2, (a 0, b 1));
vecs!(v3, V3, 3, (a 0, b 1, c 2));
vecs!(v4, V4, 4, (a 0, b 1, c 2, d 3));
vecs!(v5, V5, 5, (a 0, b 1, c 2, d 3, e 4));
vecs!(v6, V6, 6, (a 0, b 1, c 2, d 3, e 4, f 5));

pub fn cross<T: Sc>() {
    T::ring_guard(true);
    let (a, b) = (v3::vec::<T>("a"), v3::vec::<T>("b"));
    let x = a.cross(b);
    same(
        "the cross product has the right-handed components",
        &x[..],
        &[a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]],
    );
    let (o, z) = (one::<T>(), zero::<T>());
    same("x_axis is (1,0,0)", &V3::<T>::x_axis()[..], &[o, z, z]);
    same("y_axis is (0,1,0)", &V3::<T>::y_axis()[..], &[z, o, z]);
    same("z_axis is (0,0,1)", &V3::<T>::z_axis()[..], &[z, z, o]);
    T::ring_guard(false);
}
pub fn consts<T: Sc>() {
    let f = |x: &[f32], y: &[f32]| c(x == y);
    T::claim(
        "the published constants have their values",
        all([
            f(&V2_ZEROS[..], &[0.0; 2]),
            f(&V3_ZEROS[..], &[0.0; 3]),
            f(&V4_ZEROS[..], &[0.0; 4]),
            f(&V5_ZEROS[..], &[0.0; 5]),
            f(&V6_ZEROS[..], &[0.0; 6]),
            f(&X_AXIS[..], &[1.0, 0.0, 0.0]),
            f(&Y_AXIS[..], &[0.0, 1.0, 0.0]),
            f(&Z_AXIS[..], &[0.0, 0.0, 1.0]),
            f(&static_math::vector2::X_AXIS[..], &[1.0, 0.0]),
            f(&static_math::vector2::Y_AXIS[..], &[0.0, 1.0]),
        ]),
    );
}

fn maxmin_n<T: Sc>(n: usize) {
    let a: Vec<T> = (0..n).map(|i| T::var(&format!("a{}", i))).collect();
    let r = static_math::slices_methods::find_max_min(&a);
    let (mx, mp) = r.max;
    let (mn, np) = r.min;
    T::claim("the maximum bounds every element", all(a.iter().map(|x| T::lex(*x, mx))));
    T::claim("the minimum bounds every element", all(a.iter().map(|x| T::lex(mn, *x))));
    T::claim("the positions point at the extreme values", if mp < n && np < n { all([T::eqx(a[mp], mx), T::eqx(a[np], mn)]) } else { Cond::F });
}
pub fn maxmin<T: Sc>() {
    T::bound("slices of 1 to 4 elements, every element an arbitrary real");
    for n in 1..=4 {
        maxmin_n::<T>(n);
    }
}
pub fn slices<T: Sc>() {
    use static_math::slices_methods as sm;
    T::bound("slices of 1 to 6 elements");
    for n in 1..=6usize {
        let a: Vec<T> = (0..n).map(|i| T::var(&format!("a{}", i))).collect();
        let b: Vec<T> = (0..n).map(|i| T::var(&format!("b{}", i))).collect();
        let dot = sum((0..n).map(|k| a[k] * b[k]));
        same("slice dot product", &[sm::dot(&a, &b)], &[dot]);
        let m = sm::norm2(&a);
        let aa = sum((0..n).map(|k| a[k] * a[k]));
        T::claim("slice norm2", all([T::cle(zero(), m), T::ceq(m * m, aa)]));
        same("slice norm_l", &[sm::norm_l(&a)], &[sum((0..n).map(|k| num::Float::abs(a[k])))]);
    }
}
pub fn slices2<T: Sc>() {
    use static_math::slices_methods as sm;
    for n in 1..=6usize {
        let a: Vec<T> = (0..n).map(|i| T::var(&format!("a{}", i))).collect();
        let b: Vec<T> = (0..n).map(|i| T::var(&format!("b{}", i))).collect();
        let aa = sum((0..n).map(|k| a[k] * a[k]));
        let bb = sum((0..n).map(|k| b[k] * b[k]));
        T::assume(ne(aa, zero()));
        T::assume(ne(bb, zero()));
        let p = sm::project_x_over_y(&a, &b);
        T::claim("projection coefficient", T::ceq(p * bb, sum((0..n).map(|k| a[k] * b[k]))));
        let mut u = a.clone();
        sm::normalize(&mut u);
        let m = sm::norm2(&a);
        T::claim("slice normalize gives the unit vector", all((0..n).map(|k| T::ceq(u[k] * m, a[k]))));
    }
}
pub fn eigen<T: Sc>() {
    let a = m2::mat::<T>("a");
    let tr = a[(0, 0)] + a[(1, 1)];
    let d = a[(0, 0)] * a[(1, 1)] - a[(0, 1)] * a[(1, 0)];
    let disc = tr * tr - int::<T>(4) * d;
    match a.real_eigenvals() {
        Some(v) => {
            T::claim("eigenvalues are reported only when real", T::cle(zero(), disc));
            T::claim("each eigenvalue is a root of the characteristic polynomial", all((0..2).map(|k| T::ceq(v[k] * v[k] + d, tr * v[k]))));
            T::claim("the eigenvalues sum to the trace", T::ceq(v[0] + v[1], tr));
            T::claim("the eigenvalues multiply to the determinant", T::ceq(v[0] * v[1], d));
        }
        None => T::claim("no eigenvalues only when they are complex", T::clt(disc, zero())),
    }
}

macro_rules! regm {
    ($v:ident, $n:literal, $md:ident, $M:literal, $V:literal) => {
        reg!($v, "C01", concat!("ring-", $n), $md::ring, concat!($M, " Add, ", $M, " Sub, ", $M, " Neg, ", $M, " Mul, ", $M, " AddAssign, ", $M, " SubAssign, ", $M, " Zero, ", $M, " One, ", $M, "::identity, ", $M, "::zeros"));
        reg!($v, "C01", concat!("scalar-div-", $n), $md::scalar_div, concat!($M, " Div"));
        reg!($v, "C01", concat!("is-zero-", $n), $md::is_zero, concat!($M, "::is_zero"));
        reg!($v, "C01", concat!("equality-", $n), $md::equality, concat!($M, " PartialEq"));
        reg!($v, "C02", concat!("mul-vec-", $n), $md::mul_vec, concat!($M, " Mul<", $V, ">, ", $V, " Mul<", $M, ">"));
        reg!($v, "C04", concat!("det-", $n), $md::det, concat!($M, "::det"));
        reg!($v, "C05", concat!("inverse-", $n), $md::inverse, concat!($M, "::inverse"));
        reg!($v, "C08", concat!("structure-", $n), $md::structure, concat!($M, "::new, ", $M, "::transpose, ", $M, "::as_vec, ", $M, "::get_diagonal, ", $M, "::get_rows, ", $M, "::get_cols, ", $M, "::new_from_vecs, ", $M, "::for_each, ", $M, " Index, ", $M, " IndexMut, ", $M, "::rows, ", $M, "::cols, ", $M, "::shape"));
        reg!($v, "C09", concat!("matrix-norms-", $n), $md::norms, concat!($M, "::trace, ", $M, "::norm2"));
    };
}
macro_rules! regv {
    ($v:ident, $n:literal, $md:ident, $V:literal) => {
        reg!($v, "C03", concat!("vector-ring-", $n), $md::ring, concat!($V, " Add, ", $V, " Sub, ", $V, " Neg, ", $V, " Mul, ", $V, " AddAssign, ", $V, " SubAssign, ", $V, " Zero, ", $V, "::ones, ", $V, "::new, ", $V, "::new_from, ", $V, " From"));
        reg!($v, "C03", concat!("vector-div-", $n), $md::scalar_div, concat!($V, " Div"));
        reg!($v, "C03", concat!("vector-is-zero-", $n), $md::is_zero, concat!($V, "::is_zero"));
        reg!($v, "C03", concat!("vector-equality-", $n), $md::equality, concat!($V, " PartialEq"));
        reg!($v, "C09", concat!("vector-norms-", $n), $md::norms, concat!($V, "::norm2, ", $V, "::norm_l"));
        reg!($v, "C09", concat!("vector-norm-inf-", $n), $md::norm_inf, concat!($V, "::norm_inf"));
        reg!($v, "C03", concat!("vector-normalize-", $n), $md::normalize, concat!($V, "::normalize"));
    };
}
pub fn reg(v: &mut Vec<Harness>) {
    regm!(v, "6", m6, "M66", "V6");
    regm!(v, "5", m5, "M55", "V5");
    regm!(v, "4", m4, "M44", "V4");
    regm!(v, "3", m3, "M33", "V3");
    regm!(v, "2", m2, "M22", "V2");
    regv!(v, "6", v6, "V6");
    regv!(v, "5", v5, "V5");
    regv!(v, "4", v4, "V4");
    regv!(v, "3", v3, "V3");
    regv!(v, "2", v2, "V2");
    reg!(v, "C03", "cross", cross, "V3::cross, V3::x_axis, V3::y_axis, V3::z_axis");
    reg!(v, "C03", "constants", consts, "V2_ZEROS, V3_ZEROS, V4_ZEROS, V5_ZEROS, V6_ZEROS, X_AXIS, Y_AXIS, Z_AXIS");
    reg!(v, "C08", "triangles-3", tri3, "M33::get_upper_triagular, M33::get_lower_triangular");
    reg!(v, "C08", "triangles-4", tri4, "M44::get_upper_triagular, M44::get_lower_triangular");
    reg!(v, "C08", "triangles-5", tri5, "M55::get_upper_triagular, M55::get_lower_triangular");
    reg!(v, "C08", "triangles-6", tri6, "M66::get_upper_triangular, M66::get_lower_triangular");
    reg!(v, "C08", "submatrix-4", sub4, "M44::get_submatrix");
    reg!(v, "C08", "quadrants", quadrants, "M66::copy_elements_from");
    reg!(v, "C08", "macros", macros, "m22_new, m33_new, m44_new, m55_new, m66_new");
    reg!(v, "C09", "max-min", maxmin, "find_max_min");
    reg!(v, "C09", "slices", slices, "slices_methods::dot, slices_methods::norm2, slices_methods::norm_l");
    reg!(v, "C09", "slices-normalize", slices2, "slices_methods::normalize, slices_methods::project_x_over_y");
    reg!(v, "C09", "eigenvalues", eigen, "M22::real_eigenvals");
}
