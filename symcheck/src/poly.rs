//! Sparse multivariate polynomials over the rationals.  Used for canonical
//! forms (sharing of transcendental arguments, syntactic branch decisions)
//! and for *searching* certificates; verdicts come from the SMT solver.
use num::{BigRational, One, Zero};
use std::collections::BTreeMap;

/// monomial: (atom, exponent), sorted by descending atom id, exponents > 0
pub type Mono = Vec<(u32, u32)>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Poly(pub BTreeMap<Mono, BigRational>);

pub const CAP: usize = 6000;

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 > b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

impl Poly {
    pub fn zero() -> Self {
        Poly(BTreeMap::new())
    }
    pub fn con(c: BigRational) -> Self {
        let mut m = BTreeMap::new();
        if !c.is_zero() {
            m.insert(vec![], c);
        }
        Poly(m)
    }
    pub fn one() -> Self {
        Self::con(BigRational::one())
    }
    pub fn atom(a: u32) -> Self {
        let mut m = BTreeMap::new();
        m.insert(vec![(a, 1)], BigRational::one());
        Poly(m)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<BigRational> {
        if self.0.is_empty() {
            return Some(BigRational::zero());
        }
        if self.0.len() == 1 {
            let (m, c) = self.0.iter().next().unwrap();
            if m.is_empty() {
                return Some(c.clone());
            }
        }
        None
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn neg(&self) -> Self {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), -c.clone())).collect())
    }
    pub fn scale(&self, k: &BigRational) -> Self {
        if k.is_zero() {
            return Self::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn add_assign(&mut self, o: &Poly) {
        for (m, c) in &o.0 {
            self.add_term(m, c.clone());
        }
    }
    pub fn add_term(&mut self, m: &Mono, c: BigRational) {
        if c.is_zero() {
            return;
        }
        match self.0.get_mut(m) {
            Some(x) => {
                *x += c;
                if x.is_zero() {
                    self.0.remove(m);
                }
            }
            None => {
                self.0.insert(m.clone(), c);
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Self {
        let mut r = self.clone();
        r.add_assign(o);
        r
    }
    pub fn sub(&self, o: &Poly) -> Self {
        self.add(&o.neg())
    }
    /// product, None when the term cap is exceeded
    pub fn mul(&self, o: &Poly) -> Option<Self> {
        self.mul_cap(o, CAP)
    }
    pub fn mul_cap(&self, o: &Poly, cap: usize) -> Option<Self> {
        if self.len() * o.len() > cap * 40 {
            return None;
        }
        let mut r = Poly::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                r.add_term(&mono_mul(m, n), c * d);
            }
            if r.len() > cap {
                return None;
            }
        }
        Some(r)
    }
    pub fn pow(&self, n: u32, cap: usize) -> Option<Self> {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul_cap(self, cap)?;
        }
        Some(r)
    }
    pub fn degree_in(&self, v: u32) -> u32 {
        self.0
            .keys()
            .filter_map(|m| m.iter().find(|x| x.0 == v).map(|x| x.1))
            .max()
            .unwrap_or(0)
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.keys().flat_map(|m| m.iter().map(|x| x.0)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    /// coefficients as a polynomial in v: result[k] = coeff of v^k
    pub fn coeffs_in(&self, v: u32) -> Vec<Poly> {
        let d = self.degree_in(v) as usize;
        let mut r = vec![Poly::zero(); d + 1];
        for (m, c) in &self.0 {
            let mut e = 0;
            let mm: Mono = m
                .iter()
                .filter(|x| {
                    if x.0 == v {
                        e = x.1;
                        false
                    } else {
                        true
                    }
                })
                .cloned()
                .collect();
            r[e as usize].add_term(&mm, c.clone());
        }
        r
    }
    /// multiply by v^k
    pub fn shift(&self, v: u32, k: u32) -> Poly {
        if k == 0 {
            return self.clone();
        }
        let f: Mono = vec![(v, k)];
        Poly(self.0.iter().map(|(m, c)| (mono_mul(m, &f), c.clone())).collect())
    }
}
