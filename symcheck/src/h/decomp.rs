//! C06, C07: QR and LU factorisations.
use super::util::*;
use super::*;
use static_math::traits::LinearAlgebra;
use static_math::*;

macro_rules! lus {
    ($md:ident, $M:ident, $V:ident, $N:literal) => {
        #[allow(dead_code)]
        pub mod $md {
            use super::*;
            pub const N: usize = $N;
            pub fn run<T: Sc>(seed: u64, dev: u32) {
                T::bound(concat!($N, "x", $N, " matrices, every entry an arbitrary real"));
                T::bound(&format!("{}x{}: the pivoting decisions of one generic matrix (seed {}) and all that differ from them at most {} times along the run; claims proved for every matrix under the zero tests alone", N, N, seed, dev));
                T::set_explore_around(seed, dev);
                T::set_weak_pc();
                let a: [[T; N]; N] = arr2("a");
                for i in 0..N {
                    T::assume(ne(a[0][i], zero()));
                }
                let m = $M::new(a);
                let (lu, det, ix): ($M<T>, T, $V<usize>) = m.lu();
                // rows in the order of the recorded exchanges
                let mut p: Vec<usize> = (0..N).collect();
                let mut sign = 1;
                let mut ok = true;
                for k in 0..N {
                    if ix[k] < k || ix[k] >= N {
                        ok = false;
                    } else if ix[k] != k {
                        p.swap(k, ix[k]);
                        sign = -sign;
                    }
                }
                T::claim("row k is exchanged with a row from k on", c(ok));
                let e = T::rat(1, 1_000_000_000) * T::rat(1, 1_000_000_000) * T::rat(1, 1_000_000_000);
                for i in 0..N {
                    for j in 0..N {
                        let s = sum((0..=i.min(j)).map(|k| if k == i { lu[(k, j)] } else { lu[(i, k)] * lu[(k, j)] }));
                        let l = format!("L U has the exchanged rows of A (entry {} {})", i, j);
                        // an exactly zero pivot is replaced by a tiny number
                        let tiny = i == j && T::SYM && abs_le(lu[(i, i)], e) == Cond::T;
                        T::claim(&l, T::ceq(if tiny { s - lu[(i, i)] } else { s }, a[p[i]][j]));
                    }
                }
                let d = (0..N).fold(int::<T>(sign), |x, k| x * lu[(k, k)]);
                T::claim("the determinant is the signed product of the pivots", T::ceq(det, d));
            }
            pub fn pivot<T: Sc>(seed: u64, dev: u32, free: usize) {
                T::bound(&format!("{}x{}: block diagonal, an identity and an arbitrary last block of size {} without zeros in its first row; the pivoting decisions of one generic matrix (seed {}) and all that differ from them at most {} times along the run", N, N, free, seed, dev));
                T::set_explore_around(seed, dev);
                T::set_no_defs(true);
                let mut a = [[zero::<T>(); N]; N];
                let o = N - free.min(N);
                for i in 0..N {
                    for j in 0..N {
                        if i < o || j < o {
                            a[i][j] = if i == j { one() } else { zero() };
                        } else {
                            a[i][j] = T::var(&format!("a{}{}", i, j));
                            if i == o {
                                T::assume(ne(a[i][j], zero()));
                            }
                        }
                    }
                }
                let m = $M::new(a);
                let (lu, _, _): ($M<T>, T, $V<usize>) = m.lu();
                let e = T::rat(1, 1_000_000_000) * T::rat(1, 1_000_000_000) * T::rat(1, 1_000_000_000);
                for k in 0..N {
                    let repl = abs_le(lu[(k, k)], e);
                    if T::SYM && repl == Cond::T || !T::SYM && lu[(k, k)].num().map_or(false, |x| x.abs() <= 1e-27) {
                        for i in k + 1..N {
                            T::claim(&format!("pivot {} is replaced only when nothing is left below it (row {})", k, i), T::ceq(lu[(i, k)], zero()));
                        }
                    }
                }
            }
            pub fn pivot_2<T: Sc>() {
                pivot::<T>(4, 99, 2)
            }
            pub fn pivot_3<T: Sc>() {
                pivot::<T>(8, 3, 3)
            }
            pub fn pivot_4<T: Sc>() {
                pivot::<T>(7, 3, 4)
            }
            pub fn d1<T: Sc>() {
                run::<T>(5, 1)
            }
            pub fn d2<T: Sc>() {
                run::<T>(1, 2)
            }
            pub fn d3<T: Sc>() {
                run::<T>(2, 3)
            }
            pub fn d4<T: Sc>() {
                run::<T>(3, 4)
            }
            pub fn d5<T: Sc>() {
                run::<T>(6, 5)
            }
            pub fn all<T: Sc>() {
                run::<T>(4, 99)
            }
        }
    };
}
lus!(l2, M22, V2, 2);
lus!(l3, M33, V3, 3);
lus!(l4, M44, V4, 4);
lus!(l5, M55, V5, 5);
lus!(l6, M66, V6, 6);

macro_rules! qrs {
    ($md:ident, $M:ident, $N:literal) => {
        pub mod $md {
            use super::*;
            pub const N: usize = $N;
            pub fn singular<T: Sc>() {
                T::bound(concat!($N, "x", $N, " matrices, every entry an arbitrary real"));
                T::set_explore_nofeas();
                T::set_no_defs(true);
                let a: [[T; N]; N] = arr2("a");
                let m = $M::new(a);
                let det = m.det();
                let e = T::rat(1, 1_000_000_000);
                match m.qr() {
                    None => T::claim("there is no factorisation only for a singular matrix", abs_le(det, e)),
                    Some(_) => T::claim("a singular matrix has no factorisation", ne(det, T::zero())),
                }
            }
            pub fn qr<T: Sc>() {
                T::bound(concat!($N, "x", $N, " matrices, every entry an arbitrary real, orthogonalised columns not zero"));
                T::set_explore_nofeas();
                T::set_weak_pc();
                let a: [[T; N]; N] = arr2("a");
                let m = $M::new(a);
                let Some((q, r)) = m.qr() else {
                    return;
                };
                T::set_no_defs(N > 2);
                let qd = |i: usize, j: usize| sum((0..N).map(|k| q[(k, i)] * q[(k, j)]));
                let qa = |i: usize, j: usize| sum((0..N).map(|k| q[(k, i)] * a[k][j]));
                for j in 0..N {
                    for k in 0..j {
                        T::claim(&format!("R is the transpose of Q times A (entry {} {})", k, j), T::ceq(r[(k, j)], qa(k, j)));
                    }
                    T::cut_def(&(0..j).map(|k| r[(k, j)]).collect::<Vec<T>>());
                    for k in 0..j {
                        T::claim(&format!("columns {} and {} of Q are orthogonal", k, j), T::ceq(qd(k, j), T::zero()));
                    }
                    T::claim(&format!("column {} of Q is a unit vector", j), T::ceq(qd(j, j), T::one()));
                    // what is left of column j of A is along column j of Q
                    let qt: Vec<T> = (0..N).map(|i| (0..j).fold(a[i][j], |x, k| x - r[(k, j)] * q[(i, k)])).collect();
                    let l = sum((0..N).map(|i| q[(i, j)] * qt[i]));
                    let along: Vec<Cond> = (0..N).map(|i| T::ceq(q[(i, j)] * l, qt[i])).collect();
                    for i in 0..N {
                        T::claim(&format!("column {} of A less its projections is along column {} of Q (row {})", j, j, i), along[i].clone());
                    }
                    for k in 0..j {
                        T::assume(T::ceq(qd(k, j), T::zero()));
                    }
                    for i in 0..N {
                        T::assume(along[i].clone());
                    }
                    T::assume(T::ceq(qd(j, j), T::one()));
                    T::cut(&(0..N).map(|i| q[(i, j)]).collect::<Vec<T>>());
                    T::known(qd(j, j), 1);
                    T::claim(&format!("R is the transpose of Q times A (entry {} {})", j, j), T::ceq(r[(j, j)], qa(j, j)));
                    T::cut_def(&[r[(j, j)]]);
                    let d = T::ceq(r[(j, j)], l);
                    T::claim(&format!("diagonal entry {} of R is the length left", j), d.clone());
                    T::cut_def(&[l]);
                    T::assume(d);
                    for i in 0..N {
                        let s = T::ceq(sum((0..=j).map(|k| r[(k, j)] * q[(i, k)])), a[i][j]);
                        T::claim(&format!("column {} of A is spanned by the first columns of Q (row {})", j, i), s.clone());
                        T::assume(s);
                    }
                }
                for j in 0..N {
                    for i in j + 1..N {
                        T::claim(&format!("R is the transpose of Q times A (entry {} {})", i, j), T::ceq(r[(i, j)], qa(i, j)));
                        let z = T::ceq(r[(i, j)], T::zero());
                        T::claim(&format!("R is upper triangular (entry {} {})", i, j), z.clone());
                        T::assume(z);
                        T::cut(&[r[(i, j)]]);
                        T::known(r[(i, j)], 0);
                    }
                }
                let qr = q * r;
                for i in 0..N {
                    for j in 0..N {
                        T::claim(&format!("Q R = A (entry {} {})", i, j), T::ceq(qr[(i, j)], a[i][j]));
                    }
                }
            }
        }
    };
}
qrs!(q2, M22, 2);
qrs!(q3, M33, 3);
qrs!(q4, M44, 4);
qrs!(q5, M55, 5);
qrs!(q6, M66, 6);

pub fn reg(v: &mut Vec<Harness>) {
    reg!(v, "C06", "qr-singular-2", q2::singular, "M22::qr, det");
    reg!(v, "C06", "qr-2", q2::qr, "M22::qr");
    reg!(v, "C06", "qr-singular-3", q3::singular, "M33::qr, det");
    reg!(v, "C06", "qr-3", q3::qr, "M33::qr");
    reg!(v, "C06", "qr-singular-4", q4::singular, "M44::qr, det");
    reg!(v, "C06", "qr-4", q4::qr, "M44::qr");
    reg!(v, "C06", "qr-singular-5", q5::singular, "M55::qr, det");
    reg!(v, "C06", "qr-5", q5::qr, "M55::qr");
    reg!(v, "C06", "qr-singular-6", q6::singular, "M66::qr, det");
    reg!(v, "C06", "qr-6", q6::qr, "M66::qr");
    reg!(v, "C07", "lu-2", l2::all, "M22::lu");
    reg!(v, "C07", "lu-3", l3::d4, "M33::lu");
    reg!(v, "C07", "lu-4", l4::d3, "M44::lu");
    reg!(v, "C07", "lu-5", l5::d2, "M55::lu");
    reg!(v, "C07", "lu-6", l6::d2, "M66::lu");
    reg!(v, "C07", "lu-pivot-2", l2::pivot_2, "M22::lu");
    reg!(v, "C07", "lu-pivot-3", l3::pivot_3, "M33::lu");
    reg!(v, "C07", "lu-pivot-4", l4::pivot_3, "M44::lu");
    reg!(v, "C07", "lu-pivot-5", l5::pivot_3, "M55::lu");
    reg!(v, "C07", "lu-pivot-6", l6::pivot_3, "M66::lu");
    reg!(v, thorough "C07", "lu-pivot-deep-4", l4::pivot_4, "M44::lu");
    reg!(v, thorough "C07", "lu-pivot-deep-5", l5::pivot_4, "M55::lu");
    reg!(v, thorough "C07", "lu-pivot-deep-6", l6::pivot_4, "M66::lu");
    reg!(v, thorough "C07", "lu-deep-3", l3::d5, "M33::lu");
    reg!(v, thorough "C07", "lu-deep-4", l4::d4, "M44::lu");
    reg!(v, thorough "C07", "lu-deep-5", l5::d3, "M55::lu");
    reg!(v, thorough "C07", "lu-deep-6", l6::d3, "M66::lu");
}
