use super::*;
use static_math::*;

pub fn all(v: impl IntoIterator<Item = Cond>) -> Cond {
    Cond::and(v.into_iter().collect())
}
pub fn any(v: impl IntoIterator<Item = Cond>) -> Cond {
    Cond::or(v.into_iter().collect())
}
/// n x n array of fresh variables
pub fn arr2<T: Sc, const N: usize>(s: &str) -> [[T; N]; N] {
    std::array::from_fn(|i| std::array::from_fn(|j| T::var(&format!("{}{}{}", s, i, j))))
}
pub fn arr1<T: Sc, const N: usize>(s: &str) -> [T; N] {
    std::array::from_fn(|i| T::var(&format!("{}{}", s, i)))
}
pub fn sum<T: Sc>(v: impl IntoIterator<Item = T>) -> T {
    let mut it = v.into_iter();
    let mut r = it.next().unwrap();
    for x in it {
        r = r + x;
    }
    r
}
pub fn int<T: Sc>(n: i64) -> T {
    T::rat(n, 1)
}
pub fn zero<T: Sc>() -> T {
    T::rat(0, 1)
}
pub fn one<T: Sc>() -> T {
    T::rat(1, 1)
}
pub fn eqs<T: Sc>(a: &[T], b: &[T]) -> Cond {
    if a.len() != b.len() {
        return Cond::F;
    }
    all(a.iter().zip(b).map(|(x, y)| T::ceq(*x, *y)))
}
pub fn same<T: Sc>(label: &str, a: &[T], b: &[T]) {
    T::claim(label, eqs(a, b));
}
/// |x| as a specification value: (x, sign known by case)
pub fn abs_le<T: Sc>(x: T, b: T) -> Cond {
    all([T::cle(x, b), T::cle(-x, b)])
}
pub fn permutations(n: usize) -> Vec<(Vec<usize>, i64)> {
    fn rec(p: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, out: &mut Vec<(Vec<usize>, i64)>) {
        if p.len() == n {
            let mut inv = 0;
            for i in 0..n {
                for j in i + 1..n {
                    if p[i] > p[j] {
                        inv += 1
                    }
                }
            }
            out.push((p.clone(), if inv % 2 == 0 { 1 } else { -1 }));
            return;
        }
        for k in 0..n {
            if !used[k] {
                used[k] = true;
                p.push(k);
                rec(p, used, n, out);
                p.pop();
                used[k] = false;
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], &mut vec![false; n], n, &mut out);
    out
}
/// determinant by Leibniz' formula
pub fn leibniz<T: Sc>(n: usize, a: impl Fn(usize, usize) -> T) -> T {
    let mut r = zero::<T>();
    for (p, s) in permutations(n) {
        let mut t = one::<T>();
        for i in 0..n {
            t = t * a(i, p[i]);
        }
        r = if s > 0 { r + t } else { r - t };
    }
    r
}
/// determinant by expansion along the first row, memoised on column sets
pub fn laplace<T: Sc>(n: usize, a: &dyn Fn(usize, usize) -> T) -> T {
    fn rec<T: Sc>(n: usize, row: usize, cols: u32, a: &dyn Fn(usize, usize) -> T, memo: &mut std::collections::HashMap<u32, T>) -> T {
        if row == n {
            return one();
        }
        if let Some(v) = memo.get(&cols) {
            return *v;
        }
        let mut r = zero::<T>();
        let mut k = 0;
        for j in 0..n {
            if cols & (1 << j) != 0 {
                let t = a(row, j) * rec(n, row + 1, cols & !(1 << j), a, memo);
                r = if k % 2 == 0 { r + t } else { r - t };
                k += 1;
            }
        }
        memo.insert(cols, r);
        r
    }
    rec(n, 0, (1 << n) - 1, a, &mut Default::default())
}

pub fn v3<T: Sc>(s: &str) -> V3<T> {
    V3::new(arr1(s))
}
pub fn m33<T: Sc>(s: &str) -> M33<T> {
    M33::new(arr2(s))
}
pub fn flat33<T: Sc>(m: &M33<T>) -> [T; 9] {
    std::array::from_fn(|k| m[(k / 3, k % 3)])
}
pub fn flat44<T: Sc>(m: &M44<T>) -> [T; 16] {
    std::array::from_fn(|k| m[(k / 4, k % 4)])
}
