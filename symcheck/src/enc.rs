//! Encoding of DAG values and path conditions into nonlinear real arithmetic.
//! A value becomes a fraction of polynomial terms; transcendental and
//! algebraic functions become fresh constants with (guarded) defining axioms.
use crate::poly::{Mono, Poly};
use crate::solver::{self, Res, Stats, Which};
use crate::sym::*;
use num::{BigInt, BigRational, Integer, One, Signed, ToPrimitive, Zero};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write;

pub type T = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Con(BigRational),
    Atom(u32),
    Add(T, T),
    Sub(T, T),
    Mul(T, T),
    Neg(T),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum F {
    True,
    False,
    Lt0(T),
    Le0(T),
    Eq0(T),
    And(Vec<F>),
    Or(Vec<F>),
    Not(Box<F>),
}
impl F {
    pub fn not(self) -> F {
        match self {
            F::True => F::False,
            F::False => F::True,
            F::Not(x) => *x,
            x => F::Not(Box::new(x)),
        }
    }
    pub fn and(v: Vec<F>) -> F {
        let v: Vec<F> = v.into_iter().filter(|f| *f != F::True).collect();
        if v.iter().any(|f| *f == F::False) {
            return F::False;
        }
        match v.len() {
            0 => F::True,
            1 => v.into_iter().next().unwrap(),
            _ => F::And(v),
        }
    }
    pub fn or(v: Vec<F>) -> F {
        let v: Vec<F> = v.into_iter().filter(|f| *f != F::False).collect();
        if v.iter().any(|f| *f == F::True) {
            return F::True;
        }
        match v.len() {
            0 => F::False,
            1 => v.into_iter().next().unwrap(),
            _ => F::Or(v),
        }
    }
    pub fn imp(a: F, b: F) -> F {
        F::or(vec![a.not(), b])
    }
}

#[derive(Clone, Debug)]
pub struct Frac {
    pub num: T,
    pub den: BTreeMap<T, u32>,
}

#[derive(Clone, Debug)]
pub struct AtomInfo {
    pub name: String,
    pub positive: bool, // known > 0 or >= 0 and nonzero by obligation
    pub var: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Gen {
    pub lead: u32,
    pub eq: T,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub f: F,
    pub desc: String,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Key {
    Mono(Mono),
    Opaque(u32),
}

pub struct Enc<'a> {
    pub c: &'a mut Ctx,
    pub terms: Vec<Term>,
    tmap: HashMap<Term, T>,
    frac: HashMap<u32, Frac>,
    pub atoms: Vec<AtomInfo>,
    pub gens: Vec<Gen>,
    pub axioms: Vec<(F, F)>,
    pub defs: Vec<Def>,
    defset: HashSet<F>,
    trig_d: BTreeMap<Key, BigInt>,
    exp_d: BTreeMap<Key, BigInt>,
    trig_base: BTreeMap<Key, (Frac, Frac)>,
    exp_base: BTreeMap<Key, Frac>,
    trig_multi: HashMap<(Key, i64), (Frac, Frac)>,
    sqrt_alias: HashMap<std::rc::Rc<Poly>, Frac>,
    num_atom: HashMap<u32, T>, // node -> numeric atom term
    polys: HashMap<T, Option<std::rc::Rc<Poly>>>,
    /// operands of non-polynomial functions: candidates for abstraction
    cuts: HashSet<T>,
    /// terms that are polynomially equal to a cut
    cut_rep: HashMap<T, T>,
    var_atoms: HashMap<String, u32>,
    pub angle_vars: Vec<(String, String, String, i64)>, // var, S atom, C atom, D
    pub pc_forms: Vec<F>,
}

impl<'a> Enc<'a> {
    /// roots: every condition that will be encoded
    pub fn new(c: &'a mut Ctx, conds: &[&Cond]) -> Enc<'a> {
        let mut e = Enc {
            c,
            terms: vec![],
            tmap: HashMap::new(),
            frac: HashMap::new(),
            atoms: vec![],
            gens: vec![],
            axioms: vec![],
            defs: vec![],
            defset: HashSet::new(),
            trig_d: BTreeMap::new(),
            exp_d: BTreeMap::new(),
            trig_base: BTreeMap::new(),
            exp_base: BTreeMap::new(),
            trig_multi: HashMap::new(),
            sqrt_alias: HashMap::new(),
            num_atom: HashMap::new(),
            polys: HashMap::new(),
            cuts: HashSet::new(),
            cut_rep: HashMap::new(),
            var_atoms: HashMap::new(),
            angle_vars: vec![],
            pc_forms: vec![],
        };
        e.prepare(conds);
        e
    }

    // ---- terms
    pub fn t(&mut self, t: Term) -> T {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let i = self.terms.len() as u32;
        self.terms.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn con(&mut self, r: BigRational) -> T {
        self.t(Term::Con(r))
    }
    pub fn int(&mut self, i: i64) -> T {
        self.con(BigRational::from_integer(i.into()))
    }
    fn cval(&self, t: T) -> Option<&BigRational> {
        match &self.terms[t as usize] {
            Term::Con(r) => Some(r),
            _ => None,
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = x + y;
            return self.con(r);
        }
        if self.cval(a).map_or(false, |x| x.is_zero()) {
            return b;
        }
        if self.cval(b).map_or(false, |x| x.is_zero()) {
            return a;
        }
        self.t(Term::Add(a, b))
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = x - y;
            return self.con(r);
        }
        if self.cval(b).map_or(false, |x| x.is_zero()) {
            return a;
        }
        if self.cval(a).map_or(false, |x| x.is_zero()) {
            return self.neg(b);
        }
        self.t(Term::Sub(a, b))
    }
    pub fn neg(&mut self, a: T) -> T {
        if let Some(x) = self.cval(a) {
            let r = -x.clone();
            return self.con(r);
        }
        self.t(Term::Neg(a))
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let r = x * y;
            return self.con(r);
        }
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.cval(x) {
                if c.is_zero() {
                    return x;
                }
                if c.is_one() {
                    return y;
                }
            }
        }
        self.t(Term::Mul(a, b))
    }
    fn pow(&mut self, a: T, n: u32) -> T {
        let mut r = self.int(1);
        for _ in 0..n {
            r = self.mul(r, a);
        }
        r
    }
    fn new_atom(&mut self, name: String, positive: bool) -> (u32, T) {
        let id = self.atoms.len() as u32;
        self.atoms.push(AtomInfo { name, positive, var: None });
        let t = self.t(Term::Atom(id));
        (id, t)
    }
    pub fn den_term(&mut self, d: &BTreeMap<T, u32>) -> T {
        let mut r = self.int(1);
        for (f, e) in d {
            let p = self.pow(*f, *e);
            r = self.mul(r, p);
        }
        r
    }
    // ---- fractions
    fn fr(&self, t: T) -> Frac {
        Frac { num: t, den: BTreeMap::new() }
    }
    fn lift(&mut self, f: &Frac, den: &BTreeMap<T, u32>) -> T {
        let mut miss = BTreeMap::new();
        for (k, e) in den {
            let h = f.den.get(k).copied().unwrap_or(0);
            if *e > h {
                miss.insert(*k, e - h);
            }
        }
        let m = self.den_term(&miss);
        self.mul(f.num, m)
    }
    fn lcm(a: &Frac, b: &Frac) -> BTreeMap<T, u32> {
        let mut d = a.den.clone();
        for (k, e) in &b.den {
            let x = d.entry(*k).or_insert(0);
            if *e > *x {
                *x = *e;
            }
        }
        d
    }
    fn fadd(&mut self, a: &Frac, b: &Frac, minus: bool) -> Frac {
        let den = Self::lcm(a, b);
        let x = self.lift(a, &den);
        let y = self.lift(b, &den);
        let num = if minus { self.sub(x, y) } else { self.add(x, y) };
        Frac { num, den }
    }
    fn fmul(&mut self, a: &Frac, b: &Frac) -> Frac {
        let num = self.mul(a.num, b.num);
        let mut den = a.den.clone();
        for (k, e) in &b.den {
            *den.entry(*k).or_insert(0) += e;
        }
        // cancel a numerator that is itself a denominator factor
        if let Some(e) = den.get(&num).copied() {
            if e == 1 {
                den.remove(&num);
            } else {
                den.insert(num, e - 1);
            }
            let one = self.int(1);
            return Frac { num: one, den };
        }
        Frac { num, den }
    }
    fn fneg(&mut self, a: &Frac) -> Frac {
        let num = self.neg(a.num);
        Frac { num, den: a.den.clone() }
    }
    fn fdiv(&mut self, a: &Frac, b: &Frac, desc: &str) -> Frac {
        // a.num/a.den * b.den/b.num
        let bd = b.den.clone();
        let bn = b.num;
        if let Some(c) = self.cval(bn).cloned() {
            if !c.is_zero() {
                let k = self.con(c.recip());
                let dt = self.den_term(&bd);
                let m = self.mul(k, dt);
                let num = self.mul(a.num, m);
                return Frac { num, den: a.den.clone() };
            }
        }
        self.add_def(F::Eq0(bn).not(), format!("divisor is nonzero ({})", desc));
        let mut den = a.den.clone();
        *den.entry(bn).or_insert(0) += 1;
        // multiply by b.den, cancelling
        let mut rest = BTreeMap::new();
        for (k, e) in &bd {
            let h = den.get(k).copied().unwrap_or(0);
            if h > *e {
                den.insert(*k, h - e);
            } else {
                den.remove(k);
                if *e > h {
                    rest.insert(*k, e - h);
                }
            }
        }
        let m = self.den_term(&rest);
        let mut num = self.mul(a.num, m);
        if let Some(e) = den.get(&num).copied() {
            if e == 1 {
                den.remove(&num);
            } else {
                den.insert(num, e - 1);
            }
            num = self.int(1);
        }
        Frac { num, den }
    }
    fn add_def(&mut self, f: F, desc: String) {
        if f == F::True {
            return;
        }
        if self.defset.insert(f.clone()) {
            self.defs.push(Def { f, desc });
        }
    }
    fn is_pos_atom(&self, t: T) -> bool {
        match &self.terms[t as usize] {
            Term::Atom(a) => self.atoms[*a as usize].positive,
            Term::Con(c) => c.is_positive(),
            Term::Mul(x, y) => x == y || (self.is_pos_atom(*x) && self.is_pos_atom(*y)),
            _ => false,
        }
    }
    /// sign-carrying term of a fraction (same sign as its value)
    fn signed_num(&mut self, f: &Frac) -> T {
        let mut r = f.num;
        for (k, e) in f.den.clone() {
            if e % 2 == 1 && !self.is_pos_atom(k) {
                r = self.mul(r, k);
            }
        }
        r
    }
    fn nonzero_guard(&self, f: &Frac) -> Vec<F> {
        f.den.keys().map(|k| F::Eq0(*k).not()).collect()
    }

    // ---- preparation: angle and exponent bases
    pub fn reach(&self, roots: &[u32]) -> Vec<u32> {
        self.reach2(roots, true)
    }
    fn reach2(&self, roots: &[u32], through_trig: bool) -> Vec<u32> {
        let mut seen: HashSet<u32> = HashSet::new();
        let mut st: Vec<u32> = roots.to_vec();
        while let Some(n) = st.pop() {
            if !seen.insert(n) || self.c.cut.contains(&n) {
                continue;
            }
            match &self.c.nodes[n as usize] {
                Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Atan2(a, b) => {
                    st.push(*a);
                    st.push(*b);
                }
                Node::Sin(a) | Node::Cos(a) => {
                    if through_trig {
                        st.push(*a)
                    }
                }
                Node::Neg(a)
                | Node::Abs(a)
                | Node::Sqrt(a)
                | Node::Acos(a)
                | Node::Asin(a)
                | Node::Exp(a)
                | Node::Ln(a) => st.push(*a),
                _ => {}
            }
        }
        let mut v: Vec<u32> = seen.into_iter().collect();
        v.sort_unstable();
        v
    }
    fn arg_parts(&mut self, n: u32) -> Vec<(Key, BigRational)> {
        if let Some((th, f)) = self.c.merge.get(&n).cloned() {
            let a = self.c.nf_atom_node(th);
            return vec![(Key::Mono(vec![(a, 1)]), f)];
        }
        let v: Vec<(Key, BigRational)> = match self.c.nf(n) {
            Some(p) if p.len() <= 5 => p.0.iter().map(|(m, c)| (Key::Mono(m.clone()), c.clone())).collect(),
            _ => vec![(Key::Opaque(n), BigRational::one())],
        };
        if self.c.merge.is_empty() {
            return v;
        }
        let mut out: BTreeMap<Key, BigRational> = BTreeMap::new();
        for (k, q) in v {
            let hit = match &k {
                Key::Mono(m) if m.len() > 1 || m.iter().any(|x| x.1 > 1) => {
                    // a product with merged factors
                    let mut f = q.clone();
                    let mut pr: BTreeMap<u32, u32> = BTreeMap::new();
                    for (a, p) in m.iter() {
                        let t = self.c.atom_node(*a).and_then(|x| self.c.merge.get(&x).cloned());
                        match t {
                            Some((th, g)) => {
                                for _ in 0..*p {
                                    f *= g.clone();
                                }
                                if !self.c.as_const(th).map_or(false, |x| x.is_one()) {
                                    *pr.entry(self.c.nf_atom_node(th)).or_insert(0) += *p;
                                }
                            }
                            None => *pr.entry(*a).or_insert(0) += *p,
                        }
                    }
                    *out.entry(Key::Mono(pr.into_iter().collect())).or_insert_with(BigRational::zero) += f;
                    continue;
                }
                Key::Mono(m) => self.c.mono_is_single_atom(m).and_then(|x| self.c.merge.get(&x).cloned()),
                Key::Opaque(x) => self.c.merge.get(x).cloned(),
            };
            let (k, q) = match hit {
                Some((th, f)) => {
                    let a = self.c.nf_atom_node(th);
                    (Key::Mono(vec![(a, 1)]), q * f)
                }
                None => (k, q),
            };
            *out.entry(k).or_insert_with(BigRational::zero) += q;
        }
        out.into_iter().filter(|x| !x.1.is_zero()).collect()
    }
    fn prepare(&mut self, conds: &[&Cond]) {
        let mut roots = vec![];
        for c in conds {
            c.nodes(&mut roots);
        }
        // variables first (lowest in the elimination order), in creation order
        let mut all = self.reach(&roots);
        let lem = self.c.lemmas.clone();
        for l in &lem {
            let Lemma::AngleInj(a, b) = l;
            if all.binary_search(a).is_ok() || all.binary_search(b).is_ok() {
                for x in [*a, *b] {
                    let s = self.c.sin(x);
                    let k = self.c.cos(x);
                    roots.push(s);
                    roots.push(k);
                    roots.push(x);
                }
            }
        }
        all = self.reach(&roots);
        let numeric = self.reach2(&roots, false);
        for n in &numeric {
            if let Node::Var(_) = &self.c.nodes[*n as usize] {
                self.frac_of(*n);
            }
        }
        for n in &all {
            match self.c.nodes[*n as usize].clone() {
                Node::Sin(a) | Node::Cos(a) => {
                    for (k, q) in self.arg_parts(a) {
                        let d = q.denom().clone();
                        let e = self.trig_d.entry(k).or_insert_with(BigInt::one);
                        *e = e.lcm(&d);
                    }
                }
                Node::Exp(a) => {
                    for (k, q) in self.arg_parts(a) {
                        let d = q.denom().clone();
                        let e = self.exp_d.entry(k).or_insert_with(BigInt::one);
                        *e = e.lcm(&d);
                    }
                }
                _ => {}
            }
        }
        // unit-sphere constraints as generators
        for g in self.c.unit_groups.clone() {
            let mut any = false;
            for n in &g {
                if all.binary_search(n).is_ok() {
                    any = true;
                }
            }
            if !any {
                continue;
            }
            let mut s = self.int(-1);
            let mut lead = 0;
            for n in &g {
                let f = self.frac_of(*n);
                let q = self.mul(f.num, f.num);
                s = self.add(s, q);
                if let Term::Atom(a) = self.terms[f.num as usize] {
                    lead = lead.max(a);
                }
            }
            self.gens.push(Gen { lead, eq: s });
            self.axioms.push((F::True, F::Eq0(s)));
        }
        for l in &lem {
            let Lemma::AngleInj(a, b) = l;
            if all.binary_search(a).is_err() && all.binary_search(b).is_err() {
                continue;
            }
            let pi = self.c.mk(Node::Pi);
            let npi = self.c.neg(pi);
            let (sa, sb) = (self.c.sin(*a), self.c.sin(*b));
            let (ca, cb) = (self.c.cos(*a), self.c.cos(*b));
            let c = Cond::and(vec![
                Cond::Rel(Rel::Lt, npi, *a),
                Cond::Rel(Rel::Le, *a, pi),
                Cond::Rel(Rel::Lt, npi, *b),
                Cond::Rel(Rel::Le, *b, pi),
                Cond::Rel(Rel::Eq, sa, sb),
                Cond::Rel(Rel::Eq, ca, cb),
            ]);
            let f = self.cond(&c);
            let g = self.cond(&Cond::Rel(Rel::Eq, *a, *b));
            self.axioms.push((F::True, F::imp(f, g)));
        }
    }

    fn key_node(&self, k: &Key) -> Option<u32> {
        match k {
            Key::Mono(m) => self.c.mono_is_single_atom(m),
            Key::Opaque(n) => Some(*n),
        }
    }

    /// sine and cosine of (key / D)
    fn base(&mut self, k: &Key) -> (Frac, Frac) {
        if let Some(x) = self.trig_base.get(k) {
            return x.clone();
        }
        let d = self.trig_d.get(k).cloned().unwrap_or_else(BigInt::one).to_i64().unwrap_or(1);
        let node = self.key_node(k);
        let kind = node.map(|n| self.c.nodes[n as usize].clone());
        let r = match kind {
            Some(Node::Acos(x)) if d <= 2 => {
                let one = self.c.int(1);
                let (cn, sn);
                if d == 1 {
                    cn = x;
                    let xx = self.c.mul(x, x);
                    let y = self.c.sub(one, xx);
                    sn = self.c.sqrt(y);
                } else {
                    let h = self.c.con(BigRational::new(1.into(), 2.into()));
                    let p = self.c.add(one, x);
                    let p = self.c.mul(p, h);
                    cn = self.c.sqrt(p);
                    let q = self.c.sub(one, x);
                    let q = self.c.mul(q, h);
                    sn = self.c.sqrt(q);
                }
                self.acos_dom(x);
                let s = self.frac_of(sn);
                let c = self.frac_of(cn);
                if d == 2 {
                    // sqrt(1 - x^2) = 2 s c  (both sides nonnegative)
                    let xx = self.c.mul(x, x);
                    let y = self.c.sub(one, xx);
                    if let Some(p) = self.c.nf(y) {
                        let two = self.int(2);
                        let f2 = self.fr(two);
                        let sc = self.fmul(&s, &c);
                        let v = self.fmul(&f2, &sc);
                        self.sqrt_alias.entry(p).or_insert(v);
                    }
                }
                (s, c)
            }
            Some(Node::Asin(x)) if d == 1 => {
                let one = self.c.int(1);
                let xx = self.c.mul(x, x);
                let y = self.c.sub(one, xx);
                let cn = self.c.sqrt(y);
                self.acos_dom(x);
                (self.frac_of(x), self.frac_of(cn))
            }
            Some(Node::Atan2(y, x)) if d == 1 => {
                let yy = self.c.mul(y, y);
                let xx = self.c.mul(x, x);
                let ss = self.c.add(xx, yy);
                let r = self.c.sqrt(ss);
                let fr = self.frac_of(r);
                let fx = self.frac_of(x);
                let fy = self.frac_of(y);
                (self.fdiv(&fy, &fr, "atan2 radius"), self.fdiv(&fx, &fr, "atan2 radius"))
            }
            _ => {
                let id = self.atoms.len();
                let (ca, ct) = self.new_atom(format!("cos{}", id), false);
                let (sa, st) = self.new_atom(format!("sin{}", id), false);
                let _ = ca;
                let one = self.int(1);
                let cc = self.mul(ct, ct);
                let ss = self.mul(st, st);
                let sum = self.add(cc, ss);
                let eq = self.sub(sum, one);
                // |s|,|c| <= 1 and the circle
                self.axioms.push((F::True, F::Eq0(eq)));
                let (fs, fc) = (self.fr(st), self.fr(ct));
                self.trig_base.insert(k.clone(), (fs.clone(), fc.clone()));
                // link half (third, ...) angles of inverse functions
                match kind {
                    Some(Node::Acos(x)) => {
                        self.acos_dom(x);
                        let (s_d, c_d) = self.multi(k, d);
                        let fx = self.frac_of(x);
                        let g = self.nonzero_guard(&fx);
                        let diff = self.fadd(&c_d, &fx, true);
                        self.gens.push(Gen { lead: ca, eq: diff.num });
                        self.axioms.push((F::and(g), F::Eq0(diff.num)));
                        let ns = self.neg(s_d.num);
                        self.axioms.push((F::True, F::Le0(ns)));
                    }
                    Some(Node::Asin(x)) => {
                        self.acos_dom(x);
                        let (s_d, c_d) = self.multi(k, d);
                        let fx = self.frac_of(x);
                        let g = self.nonzero_guard(&fx);
                        let diff = self.fadd(&s_d, &fx, true);
                        self.axioms.push((F::and(g), F::Eq0(diff.num)));
                        let nc = self.neg(c_d.num);
                        self.axioms.push((F::True, F::Le0(nc)));
                    }
                    Some(Node::Atan2(y, x)) => {
                        let yy = self.c.mul(y, y);
                        let xx = self.c.mul(x, x);
                        let rs = self.c.add(xx, yy);
                        let r = self.c.sqrt(rs);
                        let frad = self.frac_of(r);
                        let fx = self.frac_of(x);
                        let fy = self.frac_of(y);
                        let (s_d, c_d) = self.multi(k, d);
                        let rc = self.fmul(&frad, &c_d);
                        let dx = self.fadd(&rc, &fx, true);
                        let rs = self.fmul(&frad, &s_d);
                        let dy = self.fadd(&rs, &fy, true);
                        let mut g = self.nonzero_guard(&dx);
                        g.extend(self.nonzero_guard(&dy));
                        self.gens.push(Gen { lead: ca, eq: dx.num });
                        self.axioms.push((F::and(g.clone()), F::Eq0(dx.num)));
                        self.axioms.push((F::and(g.clone()), F::Eq0(dy.num)));
                        if d == 2 {
                            // s = y / (2 rho c) when c != 0
                            let nc = self.neg(ct);
                            self.axioms.push((F::True, F::Le0(nc)));
                            let sy = self.signed_num(&fy);
                            let nst = self.neg(st);
                            let nsy = self.neg(sy);
                            self.axioms.push((F::and(g.clone()), F::imp(F::Lt0(sy), F::Lt0(st))));
                            self.axioms.push((F::and(g), F::imp(F::Le0(nsy), F::Le0(nst))));
                        }
                    }
                    _ => {}
                }
                self.gens.push(Gen { lead: sa, eq });
                // declared ranges of angle variables (multiples of pi)
                if let Some(n) = node {
                    let rng = match &self.c.nodes[n as usize] {
                        Node::Acos(_) => Some((BigRational::zero(), BigRational::one())),
                        Node::Asin(_) => Some((BigRational::new((-1).into(), 2.into()), BigRational::new(1.into(), 2.into()))),
                        _ => self.c.ranges.get(&n).cloned(),
                    };
                    if let Some((lo, hi)) = rng {
                        let dd = BigRational::from_integer(d.into());
                        let (lo, hi) = (lo / &dd, hi / &dd);
                        let z = BigRational::zero();
                        let one = BigRational::one();
                        let half = BigRational::new(1.into(), 2.into());
                        let nst = self.neg(st);
                        let nct = self.neg(ct);
                        if lo > z && hi < one {
                            self.axioms.push((F::True, F::Lt0(nst)));
                        } else if lo >= z && hi <= one {
                            self.axioms.push((F::True, F::Le0(nst)));
                        } else if lo >= -one.clone() && hi <= z {
                            self.axioms.push((F::True, F::Le0(st)));
                        }
                        if lo > -half.clone() && hi < half {
                            self.axioms.push((F::True, F::Lt0(nct)));
                        } else if lo >= -half.clone() && hi <= half {
                            self.axioms.push((F::True, F::Le0(nct)));
                        } else if lo >= half && hi <= one {
                            self.axioms.push((F::True, F::Le0(ct)));
                        }
                    }
                    if let Node::Var(v) = &self.c.nodes[n as usize] {
                        let (a, b) = (self.atoms[sa as usize].name.clone(), self.atoms[ca as usize].name.clone());
                        self.angle_vars.push((v.clone(), a, b, d));
                    }
                }
                (fs, fc)
            }
        };
        self.trig_base.insert(k.clone(), r.clone());
        r
    }
    fn acos_dom(&mut self, x: u32) {
        let f = self.frac_of(x);
        let one = self.int(1);
        let o = self.fr(one);
        let a = self.fadd(&f, &o, true); // x - 1 <= 0
        let b = self.fadd(&f, &o, false); // x + 1 >= 0
        let sa = self.signed_num(&a);
        let sb = self.signed_num(&b);
        let nb = self.neg(sb);
        self.add_def(F::and(vec![F::Le0(sa), F::Le0(nb)]), "arccos/arcsin argument in [-1,1]".into());
    }
    fn multi(&mut self, k: &Key, n: i64) -> (Frac, Frac) {
        if let Some(x) = self.trig_multi.get(&(k.clone(), n)) {
            return x.clone();
        }
        let r = if n == 0 {
            let z = self.int(0);
            let o = self.int(1);
            (self.fr(z), self.fr(o))
        } else if n < 0 {
            let (s, c) = self.multi(k, -n);
            (self.fneg(&s), c)
        } else if n == 1 {
            self.base(k)
        } else {
            let (s1, c1) = self.base(k);
            let (s, c) = self.multi(k, n - 1);
            self.addition(&s, &c, &s1, &c1)
        };
        self.trig_multi.insert((k.clone(), n), r.clone());
        r
    }
    fn addition(&mut self, s: &Frac, c: &Frac, s1: &Frac, c1: &Frac) -> (Frac, Frac) {
        let a = self.fmul(s, c1);
        let b = self.fmul(c, s1);
        let ss = self.fadd(&a, &b, false);
        let a = self.fmul(c, c1);
        let b = self.fmul(s, s1);
        let cc = self.fadd(&a, &b, true);
        (ss, cc)
    }
    fn sincos(&mut self, arg: u32) -> (Frac, Frac) {
        let _ = self.frac_of_defs_only(arg);
        let z = self.int(0);
        let o = self.int(1);
        let mut s = self.fr(z);
        let mut c = self.fr(o);
        let pi = self.c.mk(Node::Pi);
        let pa = self.c.nf_atom_node(pi);
        for (k, q) in self.arg_parts(arg) {
            let (ks, kc);
            if k == Key::Mono(vec![(pa, 1)]) && (q.clone() * BigRational::from_integer(2.into())).is_integer() {
                let m = (q * BigRational::from_integer(2.into())).to_integer().mod_floor(&4.into()).to_i64().unwrap();
                let (a, b) = [(0, 1), (1, 0), (0, -1), (-1, 0)][m as usize];
                let a = self.int(a);
                let b = self.int(b);
                ks = self.fr(a);
                kc = self.fr(b);
            } else {
                let d = self.trig_d.get(&k).cloned().unwrap_or_else(BigInt::one);
                let n = (q * BigRational::from_integer(d)).to_integer().to_i64().unwrap_or(99);
                if n.abs() > 24 {
                    std::panic::panic_any(Unsupported("large multiple of an angle".into()));
                }
                let r = self.multi(&k, n);
                ks = r.0;
                kc = r.1;
            }
            let r = self.addition(&s, &c, &ks, &kc);
            s = r.0;
            c = r.1;
        }
        (s, c)
    }
    fn frac_of_defs_only(&mut self, n: u32) {
        // divisions inside the argument must be defined
        let has_div = self.reach(&[n]).iter().any(|x| {
            matches!(
                self.c.nodes[*x as usize],
                Node::Div(..) | Node::Sqrt(_) | Node::Acos(_) | Node::Asin(_) | Node::Ln(_) | Node::Atan2(..)
            )
        });
        if has_div {
            self.frac_of(n);
        }
    }
    fn expbase(&mut self, k: &Key) -> Frac {
        if let Some(x) = self.exp_base.get(k) {
            return x.clone();
        }
        let d = self.exp_d.get(k).cloned().unwrap_or_else(BigInt::one).to_u32().unwrap_or(1);
        let id = self.atoms.len();
        let node = self.key_node(k);
        let mut pre = None;
        if let Some(n) = node {
            if let Node::Ln(x) = self.c.nodes[n as usize] {
                pre = Some(self.frac_of(x));
                self.frac_of(n);
                if d == 1 {
                    // e^{ln x} = x (x > 0 is an obligation of ln)
                    let f = pre.unwrap();
                    self.exp_base.insert(k.clone(), f.clone());
                    return f;
                }
            }
        }
        let (a, t) = self.new_atom(format!("exp{}", id), true);
        let nt = self.neg(t);
        self.axioms.push((F::True, F::Lt0(nt)));
        if let Some(f) = pre {
            let p = self.pow(t, d);
            let fp = self.fr(p);
            let diff = self.fadd(&fp, &f, true);
            let s = self.signed_num(&f);
            let ns = self.neg(s);
            let mut g = self.nonzero_guard(&f);
            g.push(F::Lt0(ns));
            self.gens.push(Gen { lead: a, eq: diff.num });
            self.axioms.push((F::and(g), F::Eq0(diff.num)));
        }
        let f = self.fr(t);
        self.exp_base.insert(k.clone(), f.clone());
        f
    }

    /// the equations behind the known values (which themselves are replaced)
    pub fn known_forms(&mut self, len: usize) -> Vec<F> {
        let mut r = vec![];
        let cuts = self.c.cuts[..len].to_vec();
        let mut memo = HashMap::new();
        for (i, x) in cuts.iter().enumerate() {
            let (n, v) = match *x {
                crate::sym::Cut::Known(n, v) => (n, v),
                crate::sym::Cut::Defined(n) => {
                    let all = std::mem::take(&mut self.c.cut);
                    for y in &cuts[..i] {
                        if let crate::sym::Cut::Opaque(m) | crate::sym::Cut::Defined(m) = y {
                            self.c.cut.insert(*m);
                        }
                    }
                    let p = crate::sym::cut_nf(self.c, n, &mut HashMap::new());
                    self.c.cut = all;
                    if let Some(p) = p {
                        let a = self.frac_of(n);
                        let mut s = self.neg(a.num);
                        let mut good = true;
                        for (m, k) in &p.0 {
                            let mut t = self.con(k.clone());
                            for (b, d) in m {
                                let f = self.frac_of(*b);
                                good &= f.den.is_empty();
                                for _ in 0..*d {
                                    t = self.mul(t, f.num);
                                }
                            }
                            s = self.add(s, t);
                        }
                        if good {
                            r.push(F::Eq0(s));
                        }
                    }
                    continue;
                }
                _ => continue,
            };
            let Some(p) = crate::sym::cut_nf(self.c, n, &mut memo) else { continue };
            if p.atoms().iter().any(|a| !self.c.cut.contains(a)) {
                continue;
            }
            let mut s = self.int(-v);
            for (m, k) in &p.0 {
                let mut t = self.con(k.clone());
                for (a, d) in m {
                    let f = self.frac_of(*a);
                    for _ in 0..*d {
                        t = self.mul(t, f.num);
                    }
                }
                s = self.add(s, t);
            }
            r.push(F::Eq0(s));
        }
        r
    }
    pub fn frac_of(&mut self, n: u32) -> Frac {
        if let Some(f) = self.frac.get(&n) {
            return f.clone();
        }
        if self.c.cut.contains(&n) {
            let (_, t) = self.new_atom(format!("cut{}", n), false);
            let r = self.fr(t);
            self.frac.insert(n, r.clone());
            return r;
        }
        let node = self.c.nodes[n as usize].clone();
        if let Some((th, f)) = self.c.merge.get(&n).cloned() {
            // the operands still have to be well defined
            match node {
                Node::Sqrt(a) => {
                    self.frac_of(a);
                }
                Node::Acos(a) | Node::Asin(a) => {
                    self.frac_of(a);
                    self.acos_dom(a);
                }
                Node::Atan2(a, b)
                | Node::Div(a, b)
                | Node::Add(a, b)
                | Node::Sub(a, b)
                | Node::Mul(a, b) => {
                    let x = self.frac_of(a);
                    let y = self.frac_of(b);
                    if let Node::Div(..) = node {
                        self.fdiv(&x, &y, "quotient");
                    }
                }
                Node::Neg(a) | Node::Abs(a) => {
                    self.frac_of(a);
                }
                _ => {}
            }
            let t = self.frac_of(th);
            let k = self.con(f);
            let k = self.fr(k);
            let r = self.fmul(&k, &t);
            self.frac.insert(n, r.clone());
            return r;
        }
        let r = match node {
            Node::Const(c) => {
                let t = self.con(c);
                self.fr(t)
            }
            Node::Inf(_) | Node::NaN => {
                // an unconstrained value; using one is an obligation failure
                let id = self.atoms.len();
                let (_, t) = self.new_atom(format!("nonfinite{}", id), false);
                self.add_def(F::False, "value is finite".into());
                self.fr(t)
            }
            Node::Pi => {
                let (_, t) = self.new_atom("pi".into(), true);
                let lo = self.con(BigRational::new(314159265358979i64.into(), 100000000000000i64.into()));
                let hi = self.con(BigRational::new(314159265358980i64.into(), 100000000000000i64.into()));
                let a = self.sub(lo, t);
                let b = self.sub(t, hi);
                self.axioms.push((F::True, F::Lt0(a)));
                self.axioms.push((F::True, F::Lt0(b)));
                self.num_atom.insert(n, t);
                self.fr(t)
            }
            Node::Var(name) => {
                let (a, t) = self.new_atom(format!("v_{}", name), false);
                self.atoms[a as usize].var = Some(name.clone());
                self.var_atoms.insert(name, a);
                self.num_atom.insert(n, t);
                self.fr(t)
            }
            Node::Add(a, b) => {
                let (x, y) = (self.frac_of(a), self.frac_of(b));
                self.fadd(&x, &y, false)
            }
            Node::Sub(a, b) => {
                let (x, y) = (self.frac_of(a), self.frac_of(b));
                self.fadd(&x, &y, true)
            }
            Node::Mul(a, b) => {
                let (x, y) = (self.frac_of(a), self.frac_of(b));
                self.fmul(&x, &y)
            }
            Node::Div(a, b) => {
                let (x, y) = (self.frac_of(a), self.frac_of(b));
                self.fdiv(&x, &y, "quotient")
            }
            Node::Neg(a) => {
                let x = self.frac_of(a);
                self.fneg(&x)
            }
            Node::Abs(a) => {
                let x = self.frac_of(a);
                self.note_cut(x.num);
                let id = self.atoms.len();
                let (at, t) = self.new_atom(format!("abs{}", id), false);
                self.num_atom.insert(n, t);
                let ft = self.fr(t);
                let d1 = self.fadd(&ft, &x, true);
                let d2 = self.fadd(&ft, &x, false);
                let g = F::and(self.nonzero_guard(&x));
                let sq = self.mul(d1.num, d2.num);
                self.gens.push(Gen { lead: at, eq: sq });
                self.axioms.push((g, F::or(vec![F::Eq0(d1.num), F::Eq0(d2.num)])));
                let nt = self.neg(t);
                self.axioms.push((F::True, F::Le0(nt)));
                ft
            }
            Node::Sqrt(a) => {
                let x = self.frac_of(a);
                self.note_cut(x.num);
                if let Some(p) = self.c.nf(a) {
                    if let Some(f) = self.sqrt_alias.get(&p) {
                        let f = f.clone();
                        self.frac.insert(n, f.clone());
                        return f;
                    }
                }
                let id = self.atoms.len();
                let (at, t) = self.new_atom(format!("sqrt{}", id), true);
                self.num_atom.insert(n, t);
                let s = self.signed_num(&x);
                let ns = self.neg(s);
                let dom = F::Le0(ns);
                if !self.nonneg_term(x.num) || !x.den.iter().all(|(k, e)| e % 2 == 0 || self.is_pos_atom(*k)) {
                    self.add_def(dom.clone(), "square root argument is nonnegative".into());
                }
                let tt = self.mul(t, t);
                let ft = self.fr(tt);
                let diff = self.fadd(&ft, &x, true);
                let mut g = self.nonzero_guard(&x);
                g.push(dom);
                self.gens.push(Gen { lead: at, eq: diff.num });
                self.axioms.push((F::and(g), F::Eq0(diff.num)));
                let nt = self.neg(t);
                self.axioms.push((F::True, F::Le0(nt)));
                self.fr(t)
            }
            Node::Sin(a) => self.sincos(a).0,
            Node::Cos(a) => self.sincos(a).1,
            Node::Acos(a) => {
                let x = self.frac_of(a);
                self.note_cut(x.num);
                self.acos_dom(a);
                let id = self.atoms.len();
                let (_, t) = self.new_atom(format!("acos{}", id), false);
                self.num_atom.insert(n, t);
                let pi = self.pi();
                let nt = self.neg(t);
                let over = self.sub(t, pi);
                self.axioms.push((F::True, F::Le0(nt)));
                self.axioms.push((F::True, F::Le0(over)));
                let one = self.int(1);
                let o = self.fr(one);
                let g = F::and(self.nonzero_guard(&x));
                let m1 = self.fadd(&x, &o, true);
                let p1 = self.fadd(&x, &o, false);
                self.axioms.push((g.clone(), iff(F::Eq0(t), F::Eq0(m1.num))));
                self.axioms.push((g.clone(), iff(F::Eq0(over), F::Eq0(p1.num))));
                let sx = self.signed_num(&x);
                let nsx = self.neg(sx);
                let two = self.int(2);
                let t2 = self.mul(two, t);
                let dh = self.sub(t2, pi);
                self.axioms.push((g, iff(F::Le0(dh), F::Le0(nsx))));
                self.fr(t)
            }
            Node::Asin(a) => {
                self.frac_of(a);
                self.acos_dom(a);
                let id = self.atoms.len();
                let (_, t) = self.new_atom(format!("asin{}", id), false);
                self.num_atom.insert(n, t);
                let pi = self.pi();
                let two = self.int(2);
                let t2 = self.mul(two, t);
                let a1 = self.sub(t2, pi);
                let a2 = self.add(t2, pi);
                let na2 = self.neg(a2);
                self.axioms.push((F::True, F::Le0(a1)));
                self.axioms.push((F::True, F::Le0(na2)));
                self.fr(t)
            }
            Node::Atan2(y, x) => {
                let fy = self.frac_of(y);
                let fx = self.frac_of(x);
                self.note_cut(fy.num);
                self.note_cut(fx.num);
                let id = self.atoms.len();
                let (_, t) = self.new_atom(format!("atan{}", id), false);
                self.num_atom.insert(n, t);
                let pi = self.pi();
                let a1 = self.sub(t, pi);
                let a2 = self.add(t, pi);
                let na2 = self.neg(a2);
                self.axioms.push((F::True, F::Le0(a1)));
                self.axioms.push((F::True, F::Lt0(na2)));
                let mut gg = self.nonzero_guard(&fx);
                gg.extend(self.nonzero_guard(&fy));
                let g = F::and(gg);
                let sy = self.signed_num(&fy);
                let nsy = self.neg(sy);
                let sx = self.signed_num(&fx);
                let nsx = self.neg(sx);
                let nt = self.neg(t);
                let two = self.int(2);
                let t2 = self.mul(two, t);
                let hi = self.sub(t2, pi); // 2t - pi
                let lo0 = self.add(t2, pi);
                let lo = self.neg(lo0); // -2t - pi
                let ax = vec![
                    F::imp(F::Lt0(nsy), F::and(vec![F::Lt0(nt), F::Lt0(a1)])),
                    F::imp(F::Lt0(sy), F::Lt0(t)),
                    F::imp(F::and(vec![F::Eq0(fy.num), F::Le0(nsx)]), F::Eq0(t)),
                    F::imp(F::and(vec![F::Eq0(fy.num), F::Lt0(sx)]), F::Eq0(a1)),
                    F::imp(F::Lt0(nsx), F::and(vec![F::Lt0(hi), F::Lt0(lo)])),
                    F::imp(F::and(vec![F::Eq0(fx.num), F::Lt0(nsy)]), F::Eq0(hi)),
                    F::imp(F::and(vec![F::Eq0(fx.num), F::Lt0(sy)]), F::Eq0(lo)),
                    F::imp(F::Lt0(sx), F::or(vec![F::Lt0(self_neg(self, hi)), F::Lt0(self_neg(self, lo))])),
                ];
                for f in ax {
                    self.axioms.push((g.clone(), f));
                }
                self.fr(t)
            }
            Node::Exp(a) => {
                let _ = self.frac_of_defs_only(a);
                let one = self.int(1);
                let mut r = self.fr(one);
                for (k, q) in self.arg_parts(a) {
                    let b = self.expbase(&k);
                    let d = self.exp_d.get(&k).cloned().unwrap_or_else(BigInt::one);
                    let nn = (q * BigRational::from_integer(d)).to_integer().to_i64().unwrap_or(99);
                    if nn.abs() > 24 {
                        std::panic::panic_any(Unsupported("large multiple in an exponent".into()));
                    }
                    for _ in 0..nn.abs() {
                        r = if nn > 0 { self.fmul(&r, &b) } else { self.fdiv(&r, &b, "exponential") };
                    }
                }
                r
            }
            Node::Ln(a) => {
                let x = self.frac_of(a);
                let id = self.atoms.len();
                let (_, t) = self.new_atom(format!("ln{}", id), false);
                self.num_atom.insert(n, t);
                let s = self.signed_num(&x);
                let ns = self.neg(s);
                self.add_def(F::Lt0(ns), "logarithm argument is positive".into());
                let one = self.int(1);
                let o = self.fr(one);
                let m1 = self.fadd(&x, &o, true);
                let sm = self.signed_num(&m1);
                let mut gg = self.nonzero_guard(&x);
                gg.push(F::Lt0(ns));
                let g = F::and(gg);
                self.axioms.push((g.clone(), iff(F::Lt0(t), F::Lt0(sm))));
                self.axioms.push((g, iff(F::Eq0(t), F::Eq0(m1.num))));
                self.fr(t)
            }
        };
        self.frac.insert(n, r.clone());
        r
    }
    /// as signed_num, with denominators that cannot be negative kept apart
    fn signed_parts(&mut self, f: &Frac) -> (T, Vec<T>) {
        let mut r = f.num;
        let mut z = vec![];
        for (k, e) in f.den.clone() {
            if e % 2 == 1 && !self.is_pos_atom(k) {
                if self.cval(k).is_none() && self.cval(f.num).is_none() && self.nonneg_term(k) {
                    z.push(k);
                } else {
                    r = self.mul(r, k);
                }
            }
        }
        (r, z)
    }
    fn nonneg_term(&self, t: T) -> bool {
        match &self.terms[t as usize] {
            Term::Con(c) => !c.is_negative(),
            Term::Atom(a) => self.atoms[*a as usize].positive || self.atoms[*a as usize].name.starts_with("abs"),
            Term::Add(a, b) => self.nonneg_term(*a) && self.nonneg_term(*b),
            Term::Mul(a, b) => a == b || (self.nonneg_term(*a) && self.nonneg_term(*b)),
            _ => false,
        }
    }
    fn pi(&mut self) -> T {
        let p = self.c.mk(Node::Pi);
        self.frac_of(p).num
    }
    pub fn cond(&mut self, c: &Cond) -> F {
        match c {
            Cond::T => F::True,
            Cond::F | Cond::Unsure => F::False,
            Cond::Rel(rel, a, b) => {
                // comparisons against non-finite constants
                if self.c.is_special(*a) || self.c.is_special(*b) {
                    return match self.c.syntactic(*rel, *a, *b) {
                        Ok(true) => F::True,
                        _ => F::False,
                    };
                }
                let (x, y) = (self.frac_of(*a), self.frac_of(*b));
                let d = self.fadd(&x, &y, true);
                match rel {
                    Rel::Eq => {
                        if let Some(k) = self.cval(d.num) {
                            return if k.is_zero() { F::True } else { F::False };
                        }
                        F::Eq0(d.num)
                    }
                    Rel::Lt => {
                        let (s, z) = self.signed_parts(&d);
                        if !z.is_empty() {
                            let mut v: Vec<F> = z.into_iter().map(|k| F::Eq0(k).not()).collect();
                            v.push(F::Lt0(s));
                            return F::and(v);
                        }
                        if let Some(k) = self.cval(s) {
                            return if k.is_negative() { F::True } else { F::False };
                        }
                        F::Lt0(s)
                    }
                    Rel::Le => {
                        let (s, z) = self.signed_parts(&d);
                        if !z.is_empty() {
                            let mut v: Vec<F> = z.into_iter().map(F::Eq0).collect();
                            v.push(F::Le0(s));
                            return F::or(v);
                        }
                        if let Some(k) = self.cval(s) {
                            return if !k.is_positive() { F::True } else { F::False };
                        }
                        F::Le0(s)
                    }
                }
            }
            Cond::And(v) => F::and(v.iter().map(|x| self.cond(x)).collect()),
            Cond::Or(v) => F::or(v.iter().map(|x| self.cond(x)).collect()),
            Cond::Not(x) => self.cond(x).not(),
        }
    }
    /// axioms relating numeric values of angles/exponents to their functions
    pub fn finalize(&mut self) {
        let bases: Vec<(Key, (Frac, Frac))> = self.trig_base.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let has_pi = {
            let p = self.c.mk(Node::Pi);
            self.num_atom.contains_key(&p)
        };
        for (k, (s, c)) in bases {
            let d = self.trig_d.get(&k).cloned().unwrap_or_else(BigInt::one);
            let mut b = self.con(BigRational::new(1.into(), d));
            let mut ok = true;
            match &k {
                Key::Mono(m) => {
                    if m.is_empty() {
                        ok = false;
                    }
                    for (a, e) in m {
                        match self.c.nf_atoms[*a as usize] {
                            NfAtom::Node(n) => match self.num_atom.get(&n).copied() {
                                Some(t) => {
                                    for _ in 0..*e {
                                        b = self.mul(b, t);
                                    }
                                }
                                None => ok = false,
                            },
                            _ => ok = false,
                        }
                    }
                }
                _ => ok = false,
            }
            if !ok {
                continue;
            }
            if let Some(Node::Var(_)) = self.key_node(&k).map(|n| self.c.nodes[n as usize].clone()) {
                // plain variables: only linked when compared with something
                // (they are, if they occur outside trigonometric functions)
            }
            // the whole angle, when its parts are the base
            if has_pi {
                if let (Key::Mono(m), Some(n)) = (&k, self.trig_d.get(&k).and_then(|d| d.to_i64())) {
                    if n > 1 && m.len() == 1 && m[0].1 == 1 {
                        if let Some((_, cn)) = self.trig_multi.get(&(k.clone(), n)).cloned() {
                            let g = F::and(self.nonzero_guard(&cn));
                            let pi = self.pi();
                            let nn = self.int(2 * n);
                            let b2 = self.mul(nn, b);
                            let four = self.int(4);
                            let ff = self.fr(four);
                            let cc = self.fmul(&cn, &cn);
                            let c4 = self.fmul(&ff, &cc);
                            for q in [self.sub(pi, b2), self.add(pi, b2)] {
                                let qq = self.mul(q, q);
                                let fq = self.fr(qq);
                                let df = self.fadd(&c4, &fq, true);
                                let sd = self.signed_num(&df);
                                self.axioms.push((g.clone(), F::Le0(sd)));
                            }
                        }
                    }
                }
            }
            let one = self.int(1);
            let o = self.fr(one);
            let cm1 = self.fadd(&c, &o, true);
            let mut g = self.nonzero_guard(&s);
            g.extend(self.nonzero_guard(&c));
            let g = F::and(g);
            self.axioms.push((
                g.clone(),
                F::imp(F::Eq0(b), F::and(vec![F::Eq0(s.num), F::Eq0(cm1.num)])),
            ));
            if let Key::Mono(m) = &k {
                if m.len() == 1 && m[0].1 == 1 {
                    // |sin b| <= |b|
                    let fb = self.fr(b);
                    let ss = self.fmul(&s, &s);
                    let bb = self.fmul(&fb, &fb);
                    let df = self.fadd(&ss, &bb, true);
                    let sd = self.signed_num(&df);
                    self.axioms.push((g.clone(), F::Le0(sd)));
                    // Jordan: 0 <= 2b <= 3.1415 gives 3.1416 sin b >= 2b; mirrored for b < 0
                    // and (with pi) around the half turn
                    let jp = self.con(BigRational::new(31416.into(), 10000.into()));
                    let jm = self.con(BigRational::new(31415.into(), 10000.into()));
                    let twoj = self.int(2);
                    let b2j = self.mul(twoj, b);
                    let mut arms = vec![(b2j, false)];
                    let nb2 = self.neg(b2j);
                    arms.push((nb2, true));
                    if has_pi {
                        let pi = self.pi();
                        let p2 = self.mul(twoj, pi);
                        arms.push((self.sub(p2, b2j), false));
                        arms.push((self.add(p2, b2j), true));
                    }
                    for (x, flip) in arms {
                        let fx = self.fr(x);
                        let fj = self.fr(jp);
                        let js = self.fmul(&fj, &s);
                        let df = self.fadd(&fx, &js, !flip); // x - 3.1416 s  or  x + 3.1416 s
                        let sd = self.signed_num(&df);
                        let nx = self.neg(x);
                        let ux = self.sub(x, jm);
                        self.axioms.push((g.clone(), F::imp(F::and(vec![F::Le0(nx), F::Le0(ux)]), F::Le0(sd))));
                    }
                    // 2 (1 - cos b) <= b^2
                    let two0 = self.int(2);
                    let ftwo = self.fr(two0);
                    let vc = self.fmul(&ftwo, &cm1);
                    let df = self.fadd(&vc, &bb, false);
                    let sd = self.signed_num(&df);
                    let nsd = self.neg(sd);
                    self.axioms.push((g.clone(), F::Le0(nsd)));
                    if has_pi {
                        // |cos b| <= |pi/2 - b|, |cos b| <= |pi/2 + b|
                        let pi = self.pi();
                        let four = self.int(4);
                        let _ = four;
                        let b2 = self.mul(two0, b);
                        let c2 = self.fmul(&ftwo, &c);
                        for q in [self.sub(pi, b2), self.add(pi, b2)] {
                            let nq = self.neg(q);
                            for (w, guard) in [(q, nq), (nq, q)] {
                                // w >= 0 gives 2|cos b| <= w
                                let fw = self.fr(w);
                                let up = self.fadd(&c2, &fw, true);
                                let su = self.signed_num(&up);
                                let dn = self.fadd(&c2, &fw, false);
                                let sd0 = self.signed_num(&dn);
                                let sd = self.neg(sd0);
                                self.axioms.push((g.clone(), F::imp(F::Le0(guard), F::and(vec![F::Le0(su), F::Le0(sd)]))));
                            }
                        }
                        let pi = self.pi();
                        let nb = self.neg(b);
                        let over = self.sub(b, pi);
                        let under0 = self.add(b, pi);
                        let under = self.neg(under0);
                        let sn = self.signed_num(&s);
                        let nsn = self.neg(sn);
                        let cn = self.signed_num(&c);
                        let ncn = self.neg(cn);
                        let two = self.int(2);
                        let b2 = self.mul(two, b);
                        let hi = self.sub(b2, pi);
                        let lo0 = self.add(b2, pi);
                        let lo = self.neg(lo0);
                        self.axioms.push((
                            g.clone(),
                            F::imp(F::and(vec![F::Lt0(nb), F::Lt0(over)]), F::Lt0(nsn)),
                        ));
                        self.axioms.push((
                            g.clone(),
                            F::imp(F::and(vec![F::Lt0(b), F::Lt0(under)]), F::Lt0(sn)),
                        ));
                        self.axioms.push((
                            g.clone(),
                            F::imp(F::and(vec![F::Lt0(hi), F::Lt0(lo)]), F::Lt0(ncn)),
                        ));
                        self.axioms.push((g.clone(), F::imp(F::Eq0(hi), F::Eq0(cn))));
                        self.axioms.push((g.clone(), F::imp(F::Eq0(lo), F::Eq0(cn))));
                        self.axioms.push((g.clone(), F::imp(F::Eq0(over), F::Eq0(sn))));
                    }
                }
            }
        }
        // declared ranges of angle variables, numerically
        let rs: Vec<(u32, (BigRational, BigRational))> = self.c.ranges.iter().map(|(a, b)| (*a, b.clone())).collect();
        for (n, (lo, hi)) in rs {
            if let Some(t) = self.num_atom.get(&n).copied() {
                if has_pi {
                    let pi = self.pi();
                    let l = self.con(lo);
                    let l = self.mul(l, pi);
                    let h = self.con(hi);
                    let h = self.mul(h, pi);
                    let a = self.sub(l, t);
                    let b = self.sub(t, h);
                    self.axioms.push((F::True, F::Le0(a)));
                    self.axioms.push((F::True, F::Le0(b)));
                }
            }
        }
        // inverse functions are functions, and injective
        let mut inv: Vec<u32> = self.frac.keys().copied().filter(|n| !self.c.merge.contains_key(n) && matches!(self.c.nodes[*n as usize], Node::Acos(_) | Node::Atan2(..))).collect();
        inv.sort_unstable();
        if inv.len() <= 6 {
            for i in 0..inv.len() {
                for j in 0..i {
                    let (a, b) = (inv[i], inv[j]);
                    let (ta, tb) = (self.num_atom[&a], self.num_atom[&b]);
                    let dt = self.sub(ta, tb);
                    match (self.c.nodes[a as usize].clone(), self.c.nodes[b as usize].clone()) {
                        (Node::Acos(x), Node::Acos(y)) => {
                            let (fx, fy) = (self.frac_of(x), self.frac_of(y));
                            let d = self.fadd(&fx, &fy, true);
                            let s = self.fadd(&fx, &fy, false);
                            let g = F::and(self.nonzero_guard(&d));
                            self.axioms.push((g.clone(), iff(F::Eq0(d.num), F::Eq0(dt))));
                            let sd = self.signed_num(&d);
                            let nsd = self.neg(sd);
                            self.axioms.push((g.clone(), iff(F::Lt0(nsd), F::Lt0(dt))));
                            let pi = self.pi();
                            let st = self.add(ta, tb);
                            let st = self.sub(st, pi);
                            self.axioms.push((g, iff(F::Eq0(s.num), F::Eq0(st))));
                        }
                        (Node::Atan2(y1, x1), Node::Atan2(y2, x2)) => {
                            let f: Vec<Frac> = [y1, x1, y2, x2].iter().map(|n| self.frac_of(*n)).collect();
                            let p = self.fmul(&f[0], &f[3]);
                            let q = self.fmul(&f[2], &f[1]);
                            let cr = self.fadd(&p, &q, true);
                            let p = self.fmul(&f[0], &f[2]);
                            let q = self.fmul(&f[1], &f[3]);
                            let dp = self.fadd(&p, &q, false);
                            let s = self.signed_num(&dp);
                            let ns = self.neg(s);
                            let mut g = self.nonzero_guard(&cr);
                            g.extend(self.nonzero_guard(&dp));
                            self.axioms.push((F::and(g), F::imp(F::and(vec![F::Eq0(cr.num), F::Lt0(ns)]), F::Eq0(dt))));
                        }
                        _ => {}
                    }
                }
            }
        }
        // exponentials
        let eb: Vec<(Key, Frac)> = self.exp_base.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let lns: Vec<(u32, u32)> = self
            .frac
            .keys()
            .filter_map(|n| match self.c.nodes[*n as usize] {
                Node::Ln(a) => Some((*n, a)),
                _ => None,
            })
            .collect();
        for (k, f) in eb {
            let node = self.key_node(&k);
            let d = self.exp_d.get(&k).cloned().unwrap_or_else(BigInt::one);
            let mut b = self.con(BigRational::new(1.into(), d));
            let mut ok = true;
            if let Key::Mono(m) = &k {
                for (a, e) in m {
                    match self.c.nf_atoms[*a as usize] {
                        NfAtom::Node(n) => match self.num_atom.get(&n).copied() {
                            Some(t) => {
                                for _ in 0..*e {
                                    b = self.mul(b, t);
                                }
                            }
                            None => ok = false,
                        },
                        _ => ok = false,
                    }
                }
            } else {
                ok = false;
            }
            let _ = node;
            if !ok || !f.den.is_empty() {
                continue;
            }
            let one = self.int(1);
            let m1 = self.sub(f.num, one);
            self.axioms.push((F::True, iff(F::Lt0(b), F::Lt0(m1))));
            // coarse numeric range: |b| <= k gives e^-k <= E <= e^k (rounded outwards)
            for (k, lo, hi) in [(5i64, (67i64, 10000i64), 149i64), (10, (45, 1000000), 22027), (20, (2, 1000000000), 485165196)] {
                let kk = self.int(k);
                let up = self.sub(b, kk);
                let dn0 = self.add(b, kk);
                let dn = self.neg(dn0);
                let l = self.con(BigRational::new(lo.0.into(), lo.1.into()));
                let h = self.int(hi);
                let le = self.sub(l, f.num);
                let he = self.sub(f.num, h);
                self.axioms.push((F::True, F::imp(F::Le0(up), F::Le0(he))));
                self.axioms.push((F::True, F::imp(F::Le0(dn), F::Le0(le))));
            }
            self.axioms.push((F::True, iff(F::Eq0(b), F::Eq0(m1))));
            for (ln, arg) in &lns {
                let fa = self.frac_of(*arg);
                let ft = self.frac_of(*ln);
                let same = self.fadd(&fa, &f, true);
                let g = F::and(self.nonzero_guard(&same));
                let dl = self.sub(ft.num, b);
                self.axioms.push((g, F::imp(F::Eq0(same.num), F::Eq0(dl))));
            }
        }
        self.find_cut_reps();
    }

    // ---- certificates
    pub fn tpoly(&mut self, t: T) -> Option<std::rc::Rc<Poly>> {
        if let Some(p) = self.polys.get(&t) {
            return p.clone();
        }
        let r = match self.terms[t as usize].clone() {
            Term::Con(c) => Some(Poly::con(c)),
            Term::Atom(a) => Some(Poly::atom(a)),
            Term::Add(a, b) => match (self.tpoly(a), self.tpoly(b)) {
                (Some(x), Some(y)) => Some(x.add(&y)),
                _ => None,
            },
            Term::Sub(a, b) => match (self.tpoly(a), self.tpoly(b)) {
                (Some(x), Some(y)) => Some(x.sub(&y)),
                _ => None,
            },
            Term::Mul(a, b) => match (self.tpoly(a), self.tpoly(b)) {
                (Some(x), Some(y)) => x.mul(&y),
                _ => None,
            },
            Term::Neg(a) => self.tpoly(a).map(|x| x.neg()),
        };
        let r = r.map(std::rc::Rc::new);
        self.polys.insert(t, r.clone());
        r
    }
    /// Pseudo-reduce the term modulo the generators.  On success returns
    /// (multipliers used with exponents, cofactors): prod(mult)*t = sum cof_i * gen_i
    pub fn certificate(&mut self, t: T, extra: &[(u32, T)]) -> Option<(Vec<Poly>, Vec<(T, Poly)>)> {
        let mut p = (*self.tpoly(t)?).clone();
        let mut gens: Vec<(u32, T)> = self.gens.iter().map(|g| (g.lead, g.eq)).collect();
        for e in extra {
            if !gens.iter().any(|g| g.0 == e.0) {
                gens.push(*e);
            }
        }
        gens.sort_by(|a, b| b.0.cmp(&a.0));
        let mut mult: Vec<Poly> = vec![];
        let mut cof: Vec<(T, Poly)> = vec![];
        for (lead, eq) in gens {
            if p.is_zero() {
                break;
            }
            let g = match self.tpoly(eq) {
                Some(g) => g,
                None => continue,
            };
            let d = g.degree_in(lead);
            if d == 0 {
                continue;
            }
            let gc = g.coeffs_in(lead);
            let lc = gc[d as usize].clone();
            let mut q = Poly::zero();
            loop {
                let k = p.degree_in(lead);
                if k < d || p.is_zero() {
                    break;
                }
                let pc = p.coeffs_in(lead);
                let top = pc[k as usize].clone();
                if let Some(c) = lc.as_const() {
                    let f = top.scale(&c.recip()).shift(lead, k - d);
                    p = p.sub(&f.mul(&g)?);
                    q.add_assign(&f);
                } else {
                    // p := lc*p - top*lead^(k-d)*g
                    let f = top.shift(lead, k - d);
                    p = p.mul(&lc)?.sub(&f.mul(&g)?);
                    q = q.mul(&lc)?.add(&f);
                    for (_, c) in cof.iter_mut() {
                        *c = c.mul(&lc)?;
                    }
                    mult.push(lc.clone());
                }
                if p.len() > crate::poly::CAP {
                    return None;
                }
            }
            if !q.is_zero() {
                cof.push((eq, q));
            }
        }
        if p.is_zero() {
            Some((mult, cof))
        } else {
            None
        }
    }
    /// linear equations of the path condition usable as rewrite rules
    pub fn path_rules(&mut self, fs: &[F]) -> Vec<(u32, T)> {
        let mut r = vec![];
        for f in fs {
            if let F::Eq0(t) = f {
                if let Some(p) = self.tpoly(*t) {
                    let at = p.atoms();
                    if let Some(v) = at.last() {
                        let co = p.coeffs_in(*v);
                        if co.len() == 2 && co[1].as_const().is_some() {
                            r.push((*v, *t));
                        }
                    }
                }
            }
        }
        r
    }

    // ---- printing
    pub fn rat(r: &BigRational) -> String {
        let n = r.numer();
        let d = r.denom();
        let a = if n.is_negative() { format!("(- {}.0)", -n) } else { format!("{}.0", n) };
        if d.is_one() {
            a
        } else {
            format!("(/ {} {}.0)", a, d)
        }
    }
    fn f_terms(f: &F, out: &mut Vec<T>) {
        match f {
            F::Lt0(t) | F::Le0(t) | F::Eq0(t) => out.push(*t),
            F::And(v) | F::Or(v) => v.iter().for_each(|x| Self::f_terms(x, out)),
            F::Not(x) => Self::f_terms(x, out),
            _ => {}
        }
    }
    fn f_str(f: &F) -> String {
        match f {
            F::True => "true".into(),
            F::False => "false".into(),
            F::Lt0(t) => format!("(< t{} 0.0)", t),
            F::Le0(t) => format!("(<= t{} 0.0)", t),
            F::Eq0(t) => format!("(= t{} 0.0)", t),
            F::And(v) => format!("(and {})", v.iter().map(Self::f_str).collect::<Vec<_>>().join(" ")),
            F::Or(v) => format!("(or {})", v.iter().map(Self::f_str).collect::<Vec<_>>().join(" ")),
            F::Not(x) => format!("(not {})", Self::f_str(x)),
        }
    }
    pub fn poly_str(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0.0".into();
        }
        let mut parts = vec![];
        for (m, c) in &p.0 {
            if m.is_empty() {
                parts.push(Self::rat(c));
                continue;
            }
            let mut s = String::from("(* ");
            s.push_str(&Self::rat(c));
            for (a, e) in m {
                for _ in 0..*e {
                    s.push(' ');
                    s.push_str(&self.atoms[*a as usize].name);
                }
            }
            s.push(')');
            parts.push(s);
        }
        if parts.len() == 1 {
            parts.pop().unwrap()
        } else {
            format!("(+ {})", parts.join(" "))
        }
    }
    fn term_atoms(&self, roots: &[T]) -> (Vec<T>, Vec<u32>) {
        let mut seen = HashSet::new();
        let mut st = roots.to_vec();
        let mut atoms = HashSet::new();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            match &self.terms[t as usize] {
                Term::Atom(a) => {
                    atoms.insert(*a);
                }
                Term::Add(a, b) | Term::Sub(a, b) | Term::Mul(a, b) => {
                    st.push(*a);
                    st.push(*b);
                }
                Term::Neg(a) => st.push(*a),
                _ => {}
            }
        }
        let mut v: Vec<T> = seen.into_iter().collect();
        v.sort_unstable();
        let mut a: Vec<u32> = atoms.into_iter().collect();
        a.sort_unstable();
        (v, a)
    }
    /// SMT text of assertions; axioms are included when relevant (sharing atoms, closure)
    pub fn script(&self, asserts: &[F], with_axioms: bool, extra: &str, extra_atoms: &[u32]) -> (String, Vec<u32>) {
        let mut fs: Vec<F> = asserts.to_vec();
        if with_axioms {
            // relevance closure over atoms
            let mut roots = vec![];
            for f in &fs {
                Self::f_terms(f, &mut roots);
            }
            let (_, at) = self.term_atoms(&roots);
            let mut atoms: HashSet<u32> = at.into_iter().collect();
            atoms.extend(extra_atoms.iter().copied());
            let ax: Vec<(F, Vec<u32>)> = self
                .axioms
                .iter()
                .map(|(g, f)| {
                    let ff = F::imp(g.clone(), f.clone());
                    let mut r = vec![];
                    Self::f_terms(&ff, &mut r);
                    let (_, at) = self.term_atoms(&r);
                    (ff, at)
                })
                .collect();
            let mut used = vec![false; ax.len()];
            loop {
                let mut ch = false;
                for (i, (f, at)) in ax.iter().enumerate() {
                    if used[i] {
                        continue;
                    }
                    // (pi alone connects nothing)
                    if at.iter().any(|a| atoms.contains(a) && (at.len() == 1 || self.atoms[*a as usize].name != "pi")) {
                        used[i] = true;
                        ch = true;
                        atoms.extend(at.iter().copied());
                        fs.push(f.clone());
                    }
                }
                if !ch {
                    break;
                }
            }
        }
        let mut roots = vec![];
        for f in &fs {
            Self::f_terms(f, &mut roots);
        }
        let (ts, at) = self.term_atoms(&roots);
        let mut at: Vec<u32> = at;
        at.extend_from_slice(extra_atoms);
        at.sort_unstable();
        at.dedup();
        let mut s = String::new();
        for a in &at {
            let _ = writeln!(s, "(declare-fun {} () Real)", self.atoms[*a as usize].name);
        }
        for t in ts {
            let d = self.term_def(t);
            let _ = writeln!(s, "(define-fun t{} () Real {})", t, d);
        }
        for f in &fs {
            let _ = writeln!(s, "(assert {})", Self::f_str(f));
        }
        s.push_str(extra);
        (s, at)
    }
    /// for each assertion, the assertions that speak of nothing more than it does
    pub fn projections(&self, fs: &[F], max_atoms: usize) -> Vec<Vec<F>> {
        let ats: Vec<HashSet<u32>> = fs
            .iter()
            .map(|f| {
                let mut r = vec![];
                Self::f_terms(f, &mut r);
                self.term_atoms(&r).1.into_iter().collect()
            })
            .collect();
        // absolute values come with what they are taken of
        let mut of: Vec<(u32, Vec<u32>)> = vec![];
        for (g, f) in &self.axioms {
            let mut r = vec![];
            Self::f_terms(g, &mut r);
            Self::f_terms(f, &mut r);
            let at: Vec<u32> = self.term_atoms(&r).1.into_iter().collect();
            for a in &at {
                if self.atoms[*a as usize].name.starts_with("abs") && at.iter().all(|b| b <= a) {
                    of.push((*a, at.clone()));
                }
            }
        }
        let close = |mut s: HashSet<u32>| {
            loop {
                let n = s.len();
                for (a, l) in &of {
                    if s.contains(a) {
                        s.extend(l.iter().copied());
                    }
                }
                if s.len() == n {
                    break;
                }
            }
            // an angle with its sine and cosine
            for (v, a, b, _) in &self.angle_vars {
                let names: Vec<String> = s.iter().map(|x| self.atoms[*x as usize].name.clone()).collect();
                let vn = format!("v_{}", v);
                if names.iter().any(|n| *n == vn || n == a || n == b) {
                    for (i, x) in self.atoms.iter().enumerate() {
                        if x.name == vn || x.name == *a || x.name == *b || x.name == "pi" {
                            s.insert(i as u32);
                        }
                    }
                }
            }
            s
        };
        let mut out: Vec<Vec<F>> = vec![];
        for a in &ats {
            let s = close(a.clone());
            if s.len() > max_atoms {
                continue;
            }
            let sub: Vec<F> = fs.iter().zip(&ats).filter(|(_, b)| !b.is_empty() && b.is_subset(&s)).map(|x| x.0.clone()).collect();
            if sub.len() > 1 && sub.len() < fs.len() && !out.contains(&sub) {
                out.push(sub);
            }
        }
        out
    }
    fn note_cut(&mut self, t: T) {
        let (ts, at) = self.term_atoms(&[t]);
        if at.len() < 2 || ts.len() < 5 {
            return;
        }
        // innermost only
        if ts.iter().any(|x| self.cuts.contains(x)) {
            return;
        }
        self.cuts.insert(t);
    }
    fn find_cut_reps(&mut self) {
        if self.cuts.is_empty() || self.terms.len() > 20000 {
            return;
        }
        let mut cuts: Vec<T> = self.cuts.iter().copied().collect();
        cuts.sort_unstable();
        let mut byatoms: HashMap<Vec<u32>, Vec<T>> = HashMap::new();
        for c in cuts {
            let a = self.term_atoms(&[c]).1;
            byatoms.entry(a).or_default().push(c);
        }
        // atom sets bottom up
        let mut sets: Vec<std::rc::Rc<Vec<u32>>> = vec![];
        for i in 0..self.terms.len() {
            let r = match &self.terms[i] {
                Term::Con(_) => std::rc::Rc::new(vec![]),
                Term::Atom(a) => std::rc::Rc::new(vec![*a]),
                Term::Neg(a) => sets[*a as usize].clone(),
                Term::Add(a, b) | Term::Sub(a, b) | Term::Mul(a, b) => {
                    let (x, y) = (sets[*a as usize].clone(), sets[*b as usize].clone());
                    if x == y {
                        x
                    } else {
                        let mut v: Vec<u32> = x.iter().chain(y.iter()).copied().collect();
                        v.sort_unstable();
                        v.dedup();
                        std::rc::Rc::new(v)
                    }
                }
            };
            sets.push(r);
        }
        for i in 0..self.terms.len() {
            let t = i as T;
            if self.cuts.contains(&t) {
                continue;
            }
            let Some(cs) = byatoms.get(&*sets[i]).cloned() else { continue };
            let Some(p) = self.tpoly(t) else { continue };
            for c in cs {
                if let Some(q) = self.tpoly(c) {
                    if *p == *q {
                        self.cut_rep.insert(t, c);
                        break;
                    }
                }
            }
        }
        // equal cuts share a representative
        let mut cuts: Vec<T> = self.cuts.iter().copied().collect();
        cuts.sort_unstable();
        for i in 0..cuts.len() {
            for j in 0..i {
                if sets[cuts[i] as usize] == sets[cuts[j] as usize] {
                    if let (Some(p), Some(q)) = (self.tpoly(cuts[i]), self.tpoly(cuts[j])) {
                        if *p == *q {
                            self.cut_rep.insert(cuts[i], cuts[j]);
                            break;
                        }
                    }
                }
            }
        }
    }
    fn cut_of(&self, t: T) -> Option<T> {
        match self.cut_rep.get(&t) {
            Some(c) => Some(self.cut_rep.get(c).copied().unwrap_or(*c)),
            None if self.cuts.contains(&t) => Some(t),
            None => None,
        }
    }
    /// terms, atoms below the roots, not looking inside cut terms
    fn term_atoms_cut(&self, roots: &[T]) -> (Vec<T>, Vec<i64>) {
        let mut seen = HashSet::new();
        let mut st = roots.to_vec();
        let mut atoms = HashSet::new();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Some(c) = self.cut_of(t) {
                atoms.insert(-(c as i64) - 1);
                continue;
            }
            match &self.terms[t as usize] {
                Term::Atom(a) => {
                    atoms.insert(*a as i64);
                }
                Term::Add(a, b) | Term::Sub(a, b) | Term::Mul(a, b) => {
                    st.push(*a);
                    st.push(*b);
                }
                Term::Neg(a) => st.push(*a),
                _ => {}
            }
        }
        let mut v: Vec<T> = seen.into_iter().collect();
        v.sort_unstable();
        let mut a: Vec<i64> = atoms.into_iter().collect();
        a.sort_unstable();
        (v, a)
    }
    /// a weaker query: the operands of non-polynomial functions become free
    /// variables and everything not connected to the last assertion is dropped.
    /// Only `unsat` of it means anything.
    fn abstract_script(&self, asserts: &[F]) -> Option<String> {
        if self.cuts.is_empty() || asserts.len() < 2 {
            return None;
        }
        let goal = asserts.last().unwrap().clone();
        let mut pool: Vec<F> = vec![];
        for f in &asserts[..asserts.len() - 1] {
            match f {
                F::And(v) => pool.extend(v.iter().cloned()),
                f => pool.push(f.clone()),
            }
        }
        for (g, f) in &self.axioms {
            pool.push(F::imp(g.clone(), f.clone()));
        }
        let at: Vec<Vec<i64>> = pool
            .iter()
            .map(|f| {
                let mut r = vec![];
                Self::f_terms(f, &mut r);
                self.term_atoms_cut(&r).1
            })
            .collect();
        let mut roots = vec![];
        Self::f_terms(&goal, &mut roots);
        let mut atoms: HashSet<i64> = self.term_atoms_cut(&roots).1.into_iter().collect();
        let mut used = vec![false; pool.len()];
        let mut fs = vec![goal];
        loop {
            let mut ch = false;
            for i in 0..pool.len() {
                if !used[i] && at[i].iter().any(|a| atoms.contains(a)) {
                    used[i] = true;
                    ch = true;
                    atoms.extend(at[i].iter().copied());
                    fs.push(pool[i].clone());
                }
            }
            if !ch {
                break;
            }
        }
        let mut roots = vec![];
        for f in &fs {
            Self::f_terms(f, &mut roots);
        }
        let (ts, at) = self.term_atoms_cut(&roots);
        if !at.iter().any(|a| *a < 0) {
            return None;
        }
        let mut s = String::new();
        for a in &at {
            if *a >= 0 {
                let _ = writeln!(s, "(declare-fun {} () Real)", self.atoms[*a as usize].name);
            } else {
                let _ = writeln!(s, "(declare-fun cut{} () Real)", -*a - 1);
            }
        }
        for t in ts {
            if let Some(c) = self.cut_of(t) {
                let _ = writeln!(s, "(define-fun t{} () Real cut{})", t, c);
                continue;
            }
            let d = self.term_def(t);
            let _ = writeln!(s, "(define-fun t{} () Real {})", t, d);
        }
        for f in &fs {
            let _ = writeln!(s, "(assert {})", Self::f_str(f));
        }
        Some(s)
    }
    fn term_def(&self, t: T) -> String {
        match &self.terms[t as usize] {
            Term::Con(c) => Self::rat(c),
            Term::Atom(a) => self.atoms[*a as usize].name.clone(),
            Term::Add(a, b) => format!("(+ t{} t{})", a, b),
            Term::Sub(a, b) => format!("(- t{} t{})", a, b),
            Term::Mul(a, b) => format!("(* t{} t{})", a, b),
            Term::Neg(a) => format!("(- t{})", a),
        }
    }
    pub fn solve(&self, st: &mut Stats, which: Which, asserts: &[F], ms: u64, model: bool) -> Res {
        self.race(st, &[which], asserts, ms, model)
    }
    pub fn race(&self, st: &mut Stats, which: &[Which], asserts: &[F], ms: u64, model: bool) -> Res {
        let (s, at) = self.script(asserts, true, "", &[]);
        let vars: Vec<String> = if model {
            at.iter().map(|a| self.atoms[*a as usize].name.clone()).collect()
        } else {
            vec![]
        };
        if which.len() > 1 {
            if let Some(a) = self.abstract_script(asserts) {
                return solver::race_with(st, which, &s, Some(&a), &vars, ms);
            }
        }
        solver::race(st, which, &s, &vars, ms)
    }
    /// prove t = 0 from the generators by a certificate that the solver checks
    pub fn prove_by_certificate(&mut self, st: &mut Stats, t: T, extra: &[(u32, T)], ms: u64) -> bool {
        let (mult, cof) = match self.certificate(t, extra) {
            Some(x) => x,
            None => return false,
        };
        let total: usize = cof.iter().map(|c| c.1.len()).sum::<usize>() + mult.iter().map(|m| m.len()).sum::<usize>();
        if total > 20000 {
            return false;
        }
        // obligation A (polynomial identity, every atom universally quantified):
        //   prod(mult) * t  =  sum cof_i * gen_i
        let mut lhs = format!("t{}", t);
        let mut atoms: Vec<u32> = vec![];
        for m in &mult {
            lhs = format!("(* {} {})", lhs, self.poly_str(m));
            atoms.extend(m.atoms());
        }
        let mut parts = vec!["0.0".to_string(), "0.0".to_string()];
        let mut roots = vec![F::Eq0(t)];
        for (g, c) in &cof {
            parts.push(format!("(* t{} {})", g, self.poly_str(c)));
            atoms.extend(c.atoms());
            roots.push(F::Eq0(*g));
        }
        atoms.sort_unstable();
        atoms.dedup();
        let (body, _) = self.script(&roots, false, "", &atoms);
        // keep only declarations/definitions of that script
        let defs: String = body.lines().filter(|l| !l.starts_with("(assert")).map(|l| format!("{}\n", l)).collect();
        let s = format!("{}(assert (not (= {} (+ {}))))\n", defs, lhs, parts.join(" "));
        if solver::check(st, Which::Z3New, &s, &[], ms) != Res::Unsat {
            return false;
        }
        if mult.is_empty() {
            return true;
        }
        // obligation B: the multipliers are nonzero under the axioms
        let mut uniq: Vec<&Poly> = mult.iter().collect();
        uniq.sort();
        uniq.dedup();
        for m in uniq {
            if m.as_const().is_some() {
                continue;
            }
            let at = m.atoms();
            let mut asserts: Vec<F> = self.defs.iter().map(|d| d.f.clone()).collect();
            let pr: Vec<F> = self.pc_forms.clone();
            asserts.extend(pr);
            let (body, _) = self.script(&asserts, true, "", &at);
            let s = format!("{}(assert (= 0.0 {}))\n", body, self.poly_str(m));
            if solver::check(st, Which::Z3New, &s, &[], ms) != Res::Unsat {
                return false;
            }
        }
        true
    }
}

fn self_neg(e: &mut Enc, t: T) -> T {
    e.neg(t)
}
fn iff(a: F, b: F) -> F {
    F::and(vec![F::imp(a.clone(), b.clone()), F::imp(b, a)])
}
