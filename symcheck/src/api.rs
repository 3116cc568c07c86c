//! What harnesses are written against.  One generic harness is executed
//! symbolically (T = Sym) and, to replay a model or validate the encoder,
//! natively (T = f64 or f32).
use crate::sym::{self, Claim, Cond, Discard, Lemma, Rel, Sym};
use num::traits::FloatConst;
use num::{BigRational, Float, Signed};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::{Debug, Display};

pub trait Sc: Float + FloatConst + Signed + std::iter::Sum + Debug + Display + 'static {
    fn var(name: &str) -> Self;
    /// an angle; lo/hi optional closed range in multiples of pi
    fn angle(name: &str, range: Option<((i64, i64), (i64, i64))>) -> Self;
    fn unit<const N: usize>(name: &str) -> [Self; N];
    fn rat(n: i64, d: i64) -> Self;
    fn ceq(a: Self, b: Self) -> Cond;
    fn clt(a: Self, b: Self) -> Cond;
    fn cle(a: Self, b: Self) -> Cond;
    /// comparisons evaluated without rounding tolerance on replay
    fn eqx(a: Self, b: Self) -> Cond;
    fn ltx(a: Self, b: Self) -> Cond;
    fn lex(a: Self, b: Self) -> Cond;
    fn assume(c: Cond);
    fn claim(label: &str, c: Cond);
    fn angle_inj(a: Self, b: Self);
    const SYM: bool;
    fn set_explore_nofeas();
    fn set_explore_around(seed: u64, dev: u32);
    fn set_weak_pc();
    /// nothing but what is assumed from here on is used about these values
    fn cut(x: &[Self]);
    /// as cut, but their polynomials in the values cut before are kept
    fn cut_def(x: &[Self]);
    /// claimed (or assumed) equal to a constant: use it everywhere
    fn known(x: Self, v: i64);
    fn set_no_defs(b: bool);
    fn ring_guard(b: bool);
    fn bound(s: &str);
    /// the scalars in a line of text, in order
    fn parse_shown(line: &str) -> Vec<Self>;
    /// numeric value natively (None symbolically)
    fn num(self) -> Option<f64>;
    /// sine and cosine for building inputs and expected values; natively the
    /// values at multiples of a quarter turn are exact
    fn sn(self) -> Self;
    fn cs(self) -> Self;
}

pub fn ne<T: Sc>(a: T, b: T) -> Cond {
    T::eqx(a, b).not()
}
pub fn c(b: bool) -> Cond {
    Cond::from(b)
}

// ---------------------------------------------------------------- native
pub struct Native {
    pub model: HashMap<String, f64>,
    pub used: Vec<(String, f64)>,
    pub claims: Vec<(String, Cond)>,
    pub rng: u64,
    pub style: u32,
    pub tol: f64,
    pub f32m: bool,
    pub discarded: bool,
}
thread_local! {
    pub static NAT: RefCell<Native> = RefCell::new(Native{model:HashMap::new(),used:vec![],claims:vec![],rng:1,style:0,tol:1e-6,f32m:false,discarded:false});
}
fn nat<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    NAT.with(|n| f(&mut n.borrow_mut()))
}
impl Native {
    pub fn next(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn unif(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    fn sample(&mut self) -> f64 {
        let k = self.next() % 16;
        match self.style % 4 {
            // generic reals
            0 => self.unif() * 4.0 - 2.0,
            // small integers, many coincidences
            1 => (self.next() % 7) as f64 - 3.0,
            // mixture
            2 => match k {
                0..=2 => 0.0,
                3 => 1.0,
                4 => -1.0,
                5 => 0.5,
                6 => (self.unif() - 0.5) * 2e-9,
                7 => (self.unif() - 0.5) * 2e3,
                8 => (self.unif() - 0.5) * 2e-4,
                _ => self.unif() * 4.0 - 2.0,
            },
            _ => (self.next() % 33) as f64 / 8.0 - 2.0,
        }
    }
    fn sample_angle(&mut self) -> f64 {
        let k = self.next() % 16;
        let pi = std::f64::consts::PI;
        match self.style % 4 {
            0 | 3 => (self.unif() * 2.0 - 1.0) * pi,
            1 => ((self.next() % 9) as f64 - 4.0) * pi / 4.0,
            _ => match k {
                0 | 1 => 0.0,
                2 => pi,
                3 => -pi,
                4 => pi / 2.0,
                5 => -pi / 2.0,
                6 => (self.unif() - 0.5) * 1e-4,
                7 => (self.unif() - 0.5) * 20.0,
                _ => (self.unif() * 2.0 - 1.0) * pi,
            },
        }
    }
    fn get(&mut self, name: &str, angle: bool) -> f64 {
        if let Some((_, v)) = self.used.iter().find(|(n, _)| n == name) {
            return *v;
        }
        let v = match self.model.get(name) {
            Some(v) => *v,
            None => {
                if angle {
                    self.sample_angle()
                } else {
                    self.sample()
                }
            }
        };
        let v = if self.f32m { v as f32 as f64 } else { v };
        self.used.push((name.to_string(), v));
        v
    }
}
fn tol_cmp(a: f64, b: f64) -> Option<i32> {
    // Some(sign of a-b) when clear, Some(0) when equal within tolerance, None unclear
    let tol = nat(|n| n.tol);
    if a.is_nan() || b.is_nan() {
        return None;
    }
    if a == b {
        return Some(0);
    }
    if a.is_infinite() || b.is_infinite() {
        return Some(if a > b { 1 } else { -1 });
    }
    let s = a.abs() + b.abs();
    let d = a - b;
    if d.abs() <= tol * 1e-3 * (s + 1e-3) {
        Some(0)
    } else if d.abs() <= tol * (s + 1.0) {
        None
    } else {
        Some(if d > 0.0 { 1 } else { -1 })
    }
}
fn clean(v: f64, eps: f64) -> f64 {
    let n = v.round();
    if (v - n).abs() <= 4.0 * eps {
        n
    } else {
        v
    }
}
macro_rules! native {
    ($t:ty) => {
        impl Sc for $t {
            const SYM: bool = false;
            fn var(name: &str) -> Self {
                nat(|n| n.get(name, false)) as $t
            }
            fn angle(name: &str, range: Option<((i64, i64), (i64, i64))>) -> Self {
                let pi = std::f64::consts::PI;
                let mut v = nat(|n| n.get(name, true));
                if let Some(((a, b), (c, d))) = range {
                    let lo = a as f64 / b as f64 * pi;
                    let hi = c as f64 / d as f64 * pi;
                    if !(v >= lo && v <= hi) {
                        if nat(|n| n.model.contains_key(name)) {
                            // bring into range modulo 2 pi when possible
                            let w = v - ((v - lo) / (2.0 * pi)).floor() * 2.0 * pi;
                            if w <= hi {
                                v = w
                            } else {
                                std::panic::panic_any(Discard)
                            }
                        } else {
                            let u = nat(|n| n.unif());
                            v = lo + u * (hi - lo);
                        }
                    }
                    nat(|n| {
                        for e in n.used.iter_mut() {
                            if e.0 == name {
                                e.1 = v
                            }
                        }
                    });
                }
                v as $t
            }
            fn unit<const N: usize>(name: &str) -> [Self; N] {
                let mut r = [0.0f64; N];
                for i in 0..N {
                    r[i] = nat(|n| n.get(&format!("{}{}", name, i), false));
                }
                let s: f64 = r.iter().map(|x| x * x).sum::<f64>().sqrt();
                if !(s > 1e-6) {
                    std::panic::panic_any(Discard);
                }
                let mut o = [0.0 as $t; N];
                for i in 0..N {
                    let v = r[i] / s;
                    o[i] = v as $t;
                    let nm = format!("{}{}", name, i);
                    nat(|n| {
                        for e in n.used.iter_mut() {
                            if e.0 == nm {
                                e.1 = v
                            }
                        }
                    });
                }
                o
            }
            fn rat(n: i64, d: i64) -> Self {
                (n as f64 / d as f64) as $t
            }
            fn ceq(a: Self, b: Self) -> Cond {
                match tol_cmp(a as f64, b as f64) {
                    Some(0) => Cond::T,
                    Some(_) => Cond::F,
                    None => {
                        if a.is_nan() || b.is_nan() {
                            Cond::F
                        } else {
                            Cond::Unsure
                        }
                    }
                }
            }
            fn clt(a: Self, b: Self) -> Cond {
                if a.is_nan() || b.is_nan() {
                    return Cond::F;
                }
                match tol_cmp(a as f64, b as f64) {
                    Some(-1) => Cond::T,
                    Some(1) => Cond::F,
                    Some(0) if a == b => Cond::F,
                    _ => Cond::Unsure,
                }
            }
            fn cle(a: Self, b: Self) -> Cond {
                if a.is_nan() || b.is_nan() {
                    return Cond::F;
                }
                match tol_cmp(a as f64, b as f64) {
                    Some(-1) => Cond::T,
                    Some(1) => Cond::F,
                    Some(0) if a == b => Cond::T,
                    _ => Cond::Unsure,
                }
            }
            fn eqx(a: Self, b: Self) -> Cond {
                Cond::from(a == b)
            }
            fn ltx(a: Self, b: Self) -> Cond {
                Cond::from(a < b)
            }
            fn lex(a: Self, b: Self) -> Cond {
                Cond::from(a <= b)
            }
            fn assume(c: Cond) {
                if c == Cond::F {
                    std::panic::panic_any(Discard)
                }
            }
            fn claim(label: &str, c: Cond) {
                nat(|n| n.claims.push((label.to_string(), c)))
            }
            fn angle_inj(_: Self, _: Self) {}
            fn set_explore_nofeas() {}
            fn set_explore_around(_: u64, _: u32) {}
            fn set_weak_pc() {}
            fn cut(_: &[Self]) {}
            fn cut_def(_: &[Self]) {}
            fn known(_: Self, _: i64) {}
            fn set_no_defs(_: bool) {}
            fn ring_guard(_: bool) {}
            fn parse_shown(line: &str) -> Vec<$t> {
                // numbers with a decimal point
                line.split(|ch: char| !(ch.is_ascii_digit() || ch == '.' || ch == '-'))
                    .filter(|w| w.contains('.'))
                    .filter_map(|w| w.parse().ok())
                    .collect()
            }
            fn bound(_: &str) {}
            fn num(self) -> Option<f64> {
                Some(self as f64)
            }
            fn sn(self) -> Self {
                clean(self.sin() as f64, <$t>::EPSILON as f64) as $t
            }
            fn cs(self) -> Self {
                clean(self.cos() as f64, <$t>::EPSILON as f64) as $t
            }
        }
    };
}
native!(f64);
native!(f32);

// ---------------------------------------------------------------- symbolic
impl Sc for Sym {
    const SYM: bool = true;
    fn var(name: &str) -> Sym {
        Sym(sym::with(|c| c.var(name)))
    }
    fn angle(name: &str, range: Option<((i64, i64), (i64, i64))>) -> Sym {
        let s = Sym(sym::with(|c| c.var(name)));
        if let Some(((a, b), (c2, d))) = range {
            sym::with(|c| {
                c.ranges.insert(
                    s.0,
                    (
                        BigRational::new(a.into(), b.into()),
                        BigRational::new(c2.into(), d.into()),
                    ),
                );
            });
        }
        s
    }
    fn unit<const N: usize>(name: &str) -> [Sym; N] {
        let mut r = [Sym(0); N];
        for i in 0..N {
            r[i] = Sym::var(&format!("{}{}", name, i));
        }
        sym::with(|c| {
            let g: Vec<u32> = r.iter().map(|s| s.0).collect();
            c.unit_groups.push(g);
        });
        // also as an ordinary assumption
        let mut s = Sym::rat(0, 1);
        for x in r.iter() {
            s = s + *x * *x;
        }
        Sym::assume(Sym::ceq(s, Sym::rat(1, 1)));
        r
    }
    fn rat(n: i64, d: i64) -> Sym {
        sym::rc(n, d)
    }
    fn ceq(a: Sym, b: Sym) -> Cond {
        if a.is_nan() || b.is_nan() {
            return Cond::F;
        }
        Cond::Rel(Rel::Eq, a.0, b.0)
    }
    fn clt(a: Sym, b: Sym) -> Cond {
        Cond::Rel(Rel::Lt, a.0, b.0)
    }
    fn cle(a: Sym, b: Sym) -> Cond {
        let k = sym::with(|c| match (c.as_const(a.0), c.as_const(b.0)) {
            (Some(x), Some(y)) => Some(x <= y),
            _ => None,
        });
        if let Some(k) = k {
            return Cond::from(k);
        }
        Cond::Rel(Rel::Le, a.0, b.0)
    }
    fn eqx(a: Sym, b: Sym) -> Cond {
        Self::ceq(a, b)
    }
    fn ltx(a: Sym, b: Sym) -> Cond {
        Self::clt(a, b)
    }
    fn lex(a: Sym, b: Sym) -> Cond {
        Self::cle(a, b)
    }
    fn assume(c: Cond) {
        sym::with(|x| x.assume(c))
    }
    fn claim(label: &str, cond: Cond) {
        sym::with(|x| {
            let pc_len = x.pc.len();
            let no_defs = x.no_defs;
            let cut_len = x.cuts.len();
            x.claims.push(Claim { label: label.to_string(), cond, pc_len, no_defs, cut_len });
        })
    }
    fn angle_inj(a: Sym, b: Sym) {
        sym::with(|c| {
            let l = Lemma::AngleInj(a.0, b.0);
            if !c.lemmas.contains(&l) {
                c.lemmas.push(l)
            }
        })
    }
    fn set_explore_nofeas() {
        sym::with(|c| c.explore = sym::Explore::NoFeas)
    }
    fn set_explore_around(seed: u64, dev: u32) {
        sym::with(|c| c.explore = sym::Explore::Around { seed, dev })
    }
    fn parse_shown(line: &str) -> Vec<Sym> {
        line.split("Sym#")
            .skip(1)
            .filter_map(|w| w.chars().take_while(|x| x.is_ascii_digit()).collect::<String>().parse().ok().map(Sym))
            .collect()
    }
    fn cut(x: &[Sym]) {
        sym::with(|c| {
            for s in x {
                if !matches!(c.nodes[s.0 as usize], sym::Node::Const(_)) {
                    c.cuts.push(sym::Cut::Opaque(s.0));
                }
            }
        })
    }
    fn cut_def(x: &[Sym]) {
        sym::with(|c| {
            for s in x {
                if !matches!(c.nodes[s.0 as usize], sym::Node::Const(_)) {
                    c.cuts.push(sym::Cut::Defined(s.0));
                }
            }
        })
    }
    fn known(x: Sym, v: i64) {
        sym::with(|c| {
            if !matches!(c.nodes[x.0 as usize], sym::Node::Const(_)) {
                c.cuts.push(sym::Cut::Known(x.0, v))
            }
        })
    }
    fn set_weak_pc() {
        sym::with(|c| c.weak_pc = true)
    }
    fn set_no_defs(b: bool) {
        sym::with(|c| c.no_defs = b)
    }
    fn ring_guard(b: bool) {
        sym::with(|c| c.ring_guard = b)
    }
    fn bound(s: &str) {
        sym::with(|c| {
            if !c.bounds.iter().any(|x| x == s) {
                c.bounds.push(s.to_string())
            }
        })
    }
    fn sn(self) -> Sym {
        self.sin()
    }
    fn cs(self) -> Sym {
        self.cos()
    }
    fn num(self) -> Option<f64> {
        None
    }
}

/// run f; true when it panicked (library panics are observable behaviour)
pub fn panics<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<Discard>() || p.is::<sym::Unsupported>() || p.is::<sym::Incomplete>() {
                std::panic::resume_unwind(p)
            }
            Err(panic_msg(&p))
        }
    }
}
pub fn panic_msg(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}
