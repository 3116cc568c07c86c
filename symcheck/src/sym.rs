//! The symbolic scalar.  The library's generic code, compiled unchanged from
//! /repo, is instantiated with `Sym`; every arithmetic operation it executes
//! appends a node to a hash-consed expression DAG and every comparison whose
//! outcome is not determined forks the execution.
use crate::poly::{Mono, Poly};
use num::traits::{FloatConst, NumCast, ToPrimitive};
use num::{BigInt, BigRational, Float, Num, One, Signed, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(BigRational),
    Inf(bool), // true: negative
    NaN,
    Pi,
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Abs(u32),
    Sqrt(u32),
    Sin(u32),
    Cos(u32),
    Acos(u32),
    Asin(u32),
    Atan2(u32, u32),
    Exp(u32),
    Ln(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cond {
    T,
    F,
    /// native replay only: too close to call under rounding
    Unsure,
    Rel(Rel, u32, u32),
    And(Vec<Cond>),
    Or(Vec<Cond>),
    Not(Box<Cond>),
}

impl From<bool> for Cond {
    fn from(b: bool) -> Cond {
        if b {
            Cond::T
        } else {
            Cond::F
        }
    }
}

impl Cond {
    pub fn and(v: Vec<Cond>) -> Cond {
        let mut out = vec![];
        let mut unsure = false;
        for c in v {
            match c {
                Cond::T => {}
                Cond::F => return Cond::F,
                Cond::Unsure => unsure = true,
                c => out.push(c),
            }
        }
        if unsure {
            return Cond::Unsure;
        }
        if out.is_empty() {
            Cond::T
        } else if out.len() == 1 {
            out.pop().unwrap()
        } else {
            Cond::And(out)
        }
    }
    pub fn or(v: Vec<Cond>) -> Cond {
        let mut out = vec![];
        let mut unsure = false;
        for c in v {
            match c {
                Cond::F => {}
                Cond::T => return Cond::T,
                Cond::Unsure => unsure = true,
                c => out.push(c),
            }
        }
        if unsure {
            return Cond::Unsure;
        }
        if out.is_empty() {
            Cond::F
        } else if out.len() == 1 {
            out.pop().unwrap()
        } else {
            Cond::Or(out)
        }
    }
    pub fn not(self) -> Cond {
        match self {
            Cond::T => Cond::F,
            Cond::F => Cond::T,
            Cond::Unsure => Cond::Unsure,
            Cond::Rel(Rel::Lt, a, b) => Cond::Rel(Rel::Le, b, a),
            Cond::Rel(Rel::Le, a, b) => Cond::Rel(Rel::Lt, b, a),
            Cond::Not(c) => *c,
            c => Cond::Not(Box::new(c)),
        }
    }
    pub fn imp(self, o: Cond) -> Cond {
        Cond::or(vec![self.not(), o])
    }
    pub fn iff(self, o: Cond) -> Cond {
        Cond::and(vec![self.clone().imp(o.clone()), o.imp(self)])
    }
    pub fn nodes(&self, out: &mut Vec<u32>) {
        match self {
            Cond::Rel(_, a, b) => {
                out.push(*a);
                out.push(*b);
            }
            Cond::And(v) | Cond::Or(v) => v.iter().for_each(|c| c.nodes(out)),
            Cond::Not(c) => c.nodes(out),
            _ => {}
        }
    }
}

/// payloads used to leave a harness early
pub struct Discard; // assumption violated / dead path
pub struct Unsupported(pub String);
pub struct Incomplete(pub String);

#[derive(Clone, Debug)]
pub struct Claim {
    pub label: String,
    pub cond: Cond,
    pub pc_len: usize,
    pub no_defs: bool,
    /// how many of the cuts made by the harness were in force
    pub cut_len: usize,
}

/// cut rule: what a harness has claimed and assumed about a node is all that
/// is used about it from then on
#[derive(Clone, Debug)]
pub enum Cut {
    Opaque(u32),
    Known(u32, i64),
    /// opaque, with its polynomial in the earlier ones as an equation
    Defined(u32),
}

#[derive(Clone, Debug)]
pub enum NfAtom {
    Node(u32),
    Inv(Rc<Poly>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lemma {
    /// a, b in (-pi, pi] with equal sine and cosine are equal
    AngleInj(u32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Explore {
    /// every fork is checked for feasibility by the solver
    Feas,
    /// forks are explored without asking the solver (infeasible paths are
    /// discharged with their claims)
    NoFeas,
    /// the path of one generic input (from the seed) and every path that leaves it in at most
    /// dev decisions, without asking the solver
    Around { seed: u64, dev: u32 },
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub cons: HashMap<Node, u32>,
    pub nf_atoms: Vec<NfAtom>,
    pub nf_node: HashMap<u32, u32>,
    pub nf_inv: HashMap<Rc<Poly>, u32>,
    pub nf_cache: HashMap<u32, Option<Rc<Poly>>>,
    pub canon: HashMap<(u8, Rc<Poly>, Option<Rc<Poly>>), u32>,
    pub vars: Vec<String>,
    pub ranges: HashMap<u32, (BigRational, BigRational)>,
    pub unit_groups: Vec<Vec<u32>>,
    pub lemmas: Vec<Lemma>,
    // path state
    pub prefix: Vec<bool>,
    pub trace: Vec<bool>,
    pub pending: Vec<Vec<bool>>,
    pub pc: Vec<Cond>,
    pub pc_decision: Vec<bool>,
    pub facts: HashMap<Rc<Poly>, u8>,
    pub claims: Vec<Claim>,
    pub explore: Explore,
    pub weak_pc: bool,
    pub no_defs: bool,
    pub bounds: Vec<String>,
    pub notes: Vec<String>,
    pub feas_queries: u64,
    pub ring_guard: bool,
    /// square roots proved equal to a multiple of an angle on the current path
    pub merge: HashMap<u32, (u32, BigRational)>,
    pub tans: HashSet<u32>,
    pub cuts: Vec<Cut>,
    /// nodes opaque in the query being built
    pub cut: HashSet<u32>,
    pub devs: u32,
    pub around_env: HashMap<String, f64>,
    pub around_memo: HashMap<u32, f64>,
    pub stats: crate::solver::Stats,
    pub decide_cap: usize,
    pub ok_panic: bool,
    /// concrete steering (encoder validation)
    pub oracle: Option<HashMap<String, f64>>,
    pub close_call: bool,
}

impl Ctx {
    pub fn new() -> Self {
        Ctx {
            nodes: vec![],
            cons: HashMap::new(),
            nf_atoms: vec![],
            nf_node: HashMap::new(),
            nf_inv: HashMap::new(),
            nf_cache: HashMap::new(),
            canon: HashMap::new(),
            vars: vec![],
            ranges: HashMap::new(),
            unit_groups: vec![],
            lemmas: vec![],
            prefix: vec![],
            trace: vec![],
            pending: vec![],
            pc: vec![],
            pc_decision: vec![],
            facts: HashMap::new(),
            claims: vec![],
            explore: Explore::Feas,
            weak_pc: false,
            no_defs: false,
            bounds: vec![],
            notes: vec![],
            feas_queries: 0,
            ring_guard: false,
            merge: HashMap::new(),
            tans: HashSet::new(),
            cuts: vec![],
            cut: HashSet::new(),
            devs: 0,
            around_env: HashMap::new(),
            around_memo: HashMap::new(),
            stats: Default::default(),
            decide_cap: 4000,
            ok_panic: false,
            oracle: None,
            close_call: false,
        }
    }
    pub fn reset_path(&mut self, prefix: Vec<bool>) {
        self.prefix = prefix;
        self.trace.clear();
        self.pc.clear();
        self.pc_decision.clear();
        self.facts.clear();
        self.claims.clear();
        self.unit_groups.clear();
        self.lemmas.clear();
        self.weak_pc = false;
        self.no_defs = false;
        self.ring_guard = false;
        self.ok_panic = false;
        self.merge.clear();
        self.cuts.clear();
        self.cut.clear();
        self.devs = 0;
        self.explore = Explore::Feas;
    }
    pub fn mk(&mut self, n: Node) -> u32 {
        if let Some(i) = self.cons.get(&n) {
            return *i;
        }
        let i = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.cons.insert(n, i);
        i
    }
    pub fn con(&mut self, r: BigRational) -> u32 {
        self.mk(Node::Const(r))
    }
    pub fn int(&mut self, i: i64) -> u32 {
        self.con(BigRational::from_integer(BigInt::from(i)))
    }
    pub fn as_const(&self, i: u32) -> Option<&BigRational> {
        match &self.nodes[i as usize] {
            Node::Const(r) => Some(r),
            _ => None,
        }
    }
    pub fn is_special(&self, i: u32) -> bool {
        matches!(self.nodes[i as usize], Node::Inf(_) | Node::NaN)
    }
    pub fn nf_atom_node(&mut self, n: u32) -> u32 {
        if let Some(a) = self.nf_node.get(&n) {
            return *a;
        }
        let a = self.nf_atoms.len() as u32;
        self.nf_atoms.push(NfAtom::Node(n));
        self.nf_node.insert(n, a);
        a
    }
    fn nf_atom_inv(&mut self, p: Rc<Poly>) -> u32 {
        if let Some(a) = self.nf_inv.get(&p) {
            return *a;
        }
        let a = self.nf_atoms.len() as u32;
        self.nf_atoms.push(NfAtom::Inv(p.clone()));
        self.nf_inv.insert(p, a);
        a
    }
    /// canonical polynomial form (None: too large or not a finite value)
    pub fn nf(&mut self, n: u32) -> Option<Rc<Poly>> {
        if let Some(p) = self.nf_cache.get(&n) {
            return p.clone();
        }
        const C: usize = 800;
        let r = match self.nodes[n as usize].clone() {
            Node::Const(c) => Some(Poly::con(c)),
            Node::Inf(_) | Node::NaN => None,
            Node::Add(a, b) => match (self.nf(a), self.nf(b)) {
                (Some(x), Some(y)) => Some(x.add(&y)),
                _ => None,
            },
            Node::Sub(a, b) => match (self.nf(a), self.nf(b)) {
                (Some(x), Some(y)) => Some(x.sub(&y)),
                _ => None,
            },
            Node::Neg(a) => self.nf(a).map(|x| x.neg()),
            Node::Mul(a, b) => match (self.nf(a), self.nf(b)) {
                (Some(x), Some(y)) => x.mul_cap(&y, C),
                _ => None,
            },
            Node::Div(a, b) => match (self.nf(a), self.nf(b)) {
                (Some(x), Some(y)) => {
                    if let Some(c) = y.as_const() {
                        if c.is_zero() {
                            None
                        } else {
                            Some(x.scale(&c.recip()))
                        }
                    } else {
                        // normalise leading coefficient
                        let lc = y.0.iter().next_back().unwrap().1.clone();
                        let yn = Rc::new(y.scale(&lc.recip()));
                        let ia = self.nf_atom_inv(yn);
                        x.scale(&lc.recip()).mul_cap(&Poly::atom(ia), C)
                    }
                }
                _ => None,
            },
            _ => {
                let a = self.nf_atom_node(n);
                Some(Poly::atom(a))
            }
        };
        let r = r.filter(|p| p.len() <= C).map(Rc::new);
        self.nf_cache.insert(n, r.clone());
        r
    }
    fn canon_unary(&mut self, kind: u8, x: u32, node: Node) -> u32 {
        let mut key = None;
        if let Some(p) = self.nf(x) {
            let mut k = p.clone();
            if kind == 0 {
                // |x| = |-x|
                if let Some((_, c)) = p.0.iter().next_back() {
                    if c.is_negative() {
                        k = Rc::new(p.neg());
                    }
                }
            }
            if let Some(i) = self.canon.get(&(kind, k.clone(), None)) {
                return *i;
            }
            key = Some(k);
        }
        let i = self.mk(node);
        if let Some(k) = key {
            self.canon.insert((kind, k, None), i);
        }
        i
    }
    fn canon_binary(&mut self, kind: u8, x: u32, y: u32, node: Node) -> u32 {
        let mut key = None;
        if let (Some(p), Some(q)) = (self.nf(x), self.nf(y)) {
            if let Some(i) = self.canon.get(&(kind, p.clone(), Some(q.clone()))) {
                return *i;
            }
            key = Some((kind, p, Some(q)));
        }
        let i = self.mk(node);
        if let Some(k) = key {
            self.canon.insert(k, i);
        }
        i
    }

    pub fn add(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x + y;
            return self.con(r);
        }
        if self.is_special(a) || self.is_special(b) {
            return match (&self.nodes[a as usize], &self.nodes[b as usize]) {
                (Node::NaN, _) | (_, Node::NaN) => self.mk(Node::NaN),
                (Node::Inf(s), Node::Inf(t)) => {
                    if s == t {
                        a
                    } else {
                        self.mk(Node::NaN)
                    }
                }
                (Node::Inf(_), _) => a,
                _ => b,
            };
        }
        if self.as_const(a).map_or(false, |x| x.is_zero()) {
            return b;
        }
        if self.as_const(b).map_or(false, |x| x.is_zero()) {
            return a;
        }
        self.mk(Node::Add(a, b))
    }
    pub fn neg(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize].clone() {
            Node::Const(c) => self.con(-c),
            Node::Inf(s) => self.mk(Node::Inf(!s)),
            Node::NaN => a,
            Node::Neg(x) => x,
            _ => self.mk(Node::Neg(a)),
        }
    }
    pub fn sub(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x - y;
            return self.con(r);
        }
        if self.is_special(a) || self.is_special(b) {
            let nb = self.neg(b);
            if self.is_special(nb) || self.is_special(a) {
                return self.add(a, nb);
            }
        }
        if self.as_const(a).map_or(false, |x| x.is_zero()) {
            return self.neg(b);
        }
        if self.as_const(b).map_or(false, |x| x.is_zero()) {
            return a;
        }
        self.mk(Node::Sub(a, b))
    }
    pub fn mul(&mut self, a: u32, b: u32) -> u32 {
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let r = x * y;
            return self.con(r);
        }
        if self.is_special(a) || self.is_special(b) {
            let sa = self.special_sign(a);
            let sb = self.special_sign(b);
            return match (sa, sb) {
                (Some(x), Some(y)) if x != 0 && y != 0 => self.mk(Node::Inf(x * y < 0)),
                (Some(_), Some(_)) => self.mk(Node::NaN),
                _ if matches!(self.nodes[a as usize], Node::NaN)
                    || matches!(self.nodes[b as usize], Node::NaN) =>
                {
                    self.mk(Node::NaN)
                }
                _ => std::panic::panic_any(Unsupported("infinity times a symbolic value".into())),
            };
        }
        let one = BigRational::one();
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(x) {
                if c.is_zero() {
                    return x;
                }
                if *c == one {
                    return y;
                }
            }
        }
        self.mk(Node::Mul(a, b))
    }
    fn special_sign(&self, a: u32) -> Option<i32> {
        match &self.nodes[a as usize] {
            Node::Inf(s) => Some(if *s { -1 } else { 1 }),
            Node::Const(c) => Some(if c.is_zero() {
                0
            } else if c.is_negative() {
                -1
            } else {
                1
            }),
            _ => None,
        }
    }
    pub fn div(&mut self, a: u32, b: u32) -> u32 {
        if self.is_special(a) || self.is_special(b) {
            return match (&self.nodes[a as usize], &self.nodes[b as usize]) {
                (Node::NaN, _) | (_, Node::NaN) => self.mk(Node::NaN),
                (Node::Inf(_), Node::Inf(_)) => self.mk(Node::NaN),
                (_, Node::Inf(_)) => self.int(0),
                _ => match (self.special_sign(a), self.special_sign(b)) {
                    (Some(x), Some(y)) if y != 0 => self.mk(Node::Inf(x * y < 0)),
                    _ => std::panic::panic_any(Unsupported("infinity over a symbolic value".into())),
                },
            };
        }
        if let Some(c) = self.as_const(b) {
            if c.is_zero() {
                // concrete division by zero
                return match self.special_sign(a) {
                    Some(0) => self.mk(Node::NaN),
                    Some(s) => self.mk(Node::Inf(s < 0)),
                    None => self.mk(Node::NaN),
                };
            }
            if c.is_one() {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                let r = x / c;
                return self.con(r);
            }
            let r = c.recip();
            let r = self.con(r);
            return self.mk(Node::Mul(a, r));
        }
        // 1/tan is the cotangent: tan has no pole at any floating point angle
        if self.tans.contains(&b) {
            if let Node::Div(s, k) = self.nodes[b as usize] {
                let n = self.mul(a, k);
                return self.div(n, s);
            }
        }
        // a literal zero numerator stays a quotient: 0/b is only 0 if b != 0,
        // and that has to be an obligation
        self.mk(Node::Div(a, b))
    }
    pub fn abs(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize].clone() {
            Node::Const(c) => self.con(c.abs()),
            Node::Inf(_) => self.mk(Node::Inf(false)),
            Node::NaN => a,
            Node::Neg(x) => self.abs(x),
            Node::Abs(_) | Node::Sqrt(_) | Node::Exp(_) | Node::Pi => a,
            _ => {
                // the sign is decided on this path
                if self.oracle.is_none() && !self.weak_pc && !self.pc.is_empty() {
                    let z = self.con(BigRational::zero());
                    if let Ok(v) = self.syntactic(Rel::Le, z, a) {
                        return if v { a } else { self.neg(a) };
                    }
                }
                self.canon_unary(0, a, Node::Abs(a))
            }
        }
    }
    pub fn sqrt(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize].clone() {
            Node::Const(c) => {
                if c.is_negative() {
                    return self.mk(Node::NaN);
                }
                let (n, d) = (c.numer().sqrt(), c.denom().sqrt());
                if &(&n * &n) == c.numer() && &(&d * &d) == c.denom() {
                    return self.con(BigRational::new(n, d));
                }
                self.canon_unary(1, a, Node::Sqrt(a))
            }
            Node::Inf(false) => a,
            Node::Inf(true) | Node::NaN => self.mk(Node::NaN),
            _ => {
                if let Some(p) = self.nf(a) {
                    if let Some(c) = p.as_const() {
                        let k = self.con(c);
                        return self.sqrt(k);
                    }
                }
                self.canon_unary(1, a, Node::Sqrt(a))
            }
        }
    }
    fn finite_arg(&self, a: u32, what: &str) -> bool {
        if self.is_special(a) {
            let _ = what;
            return false;
        }
        true
    }
    pub fn sin(&mut self, a: u32) -> u32 {
        if !self.finite_arg(a, "sin") {
            return self.mk(Node::NaN);
        }
        if let Some(p) = self.nf(a) {
            if p.is_zero() {
                return self.int(0);
            }
        }
        self.canon_unary(2, a, Node::Sin(a))
    }
    pub fn cos(&mut self, a: u32) -> u32 {
        if !self.finite_arg(a, "cos") {
            return self.mk(Node::NaN);
        }
        if let Some(p) = self.nf(a) {
            if p.is_zero() {
                return self.int(1);
            }
        }
        self.canon_unary(3, a, Node::Cos(a))
    }
    pub fn half_pi(&mut self) -> u32 {
        let p = self.mk(Node::Pi);
        let h = self.con(BigRational::new(1.into(), 2.into()));
        self.mul(p, h)
    }
    /// constant value, syntactically or after normalisation of ring operations
    fn nf_const(&mut self, a: u32) -> Option<BigRational> {
        if let Some(c) = self.as_const(a) {
            return Some(c.clone());
        }
        self.nf(a).and_then(|p| p.as_const())
    }
    pub fn acos(&mut self, a: u32) -> u32 {
        if !self.finite_arg(a, "acos") {
            return self.mk(Node::NaN);
        }
        if let Some(c) = self.nf_const(a) {
            if c.is_one() {
                return self.int(0);
            }
            if c.is_zero() {
                return self.half_pi();
            }
            if (-c.clone()).is_one() {
                return self.mk(Node::Pi);
            }
            if c.abs() > BigRational::one() {
                return self.mk(Node::NaN);
            }
        }
        self.canon_unary(4, a, Node::Acos(a))
    }
    pub fn asin(&mut self, a: u32) -> u32 {
        if !self.finite_arg(a, "asin") {
            return self.mk(Node::NaN);
        }
        if let Some(c) = self.nf_const(a) {
            if c.is_zero() {
                return self.int(0);
            }
            if c.is_one() {
                return self.half_pi();
            }
            if (-c).is_one() {
                let h = self.half_pi();
                return self.neg(h);
            }
        }
        self.canon_unary(5, a, Node::Asin(a))
    }
    pub fn exp(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize].clone() {
            Node::Inf(false) | Node::NaN => return a,
            Node::Inf(true) => return self.int(0),
            _ => {}
        }
        if let Some(p) = self.nf(a) {
            if p.is_zero() {
                return self.int(1);
            }
        }
        self.canon_unary(6, a, Node::Exp(a))
    }
    pub fn ln(&mut self, a: u32) -> u32 {
        match self.nodes[a as usize].clone() {
            Node::Inf(false) | Node::NaN => return a,
            Node::Const(c) if c.is_one() => return self.int(0),
            Node::Const(c) if c.is_zero() => return self.mk(Node::Inf(true)),
            Node::Const(c) if c.is_negative() => return self.mk(Node::NaN),
            Node::Exp(x) => return x,
            _ => {}
        }
        self.canon_unary(7, a, Node::Ln(a))
    }
    pub fn atan2_raw(&mut self, y: u32, x: u32) -> u32 {
        if self.is_special(x) || self.is_special(y) {
            std::panic::panic_any(Unsupported("atan2 of a non-finite value".into()));
        }
        if let (Some(cy), Some(cx)) = (self.nf_const(y), self.nf_const(x)) {
            if cy.is_zero() {
                return if cx.is_negative() { self.mk(Node::Pi) } else { self.int(0) };
            }
            if cx.is_zero() {
                let h = self.half_pi();
                return if cy.is_negative() { self.neg(h) } else { h };
            }
        }
        self.canon_binary(8, y, x, Node::Atan2(y, x))
    }

    /// 1 neg, 2 zero, 4 pos  (known sign set of a canonical polynomial)
    fn const_sign(c: &BigRational) -> u8 {
        if c.is_zero() {
            2
        } else if c.is_negative() {
            1
        } else {
            4
        }
    }
    /// try to decide syntactically; otherwise give the canonical key and
    /// whether it is the negation of a-b
    fn canon_diff(&mut self, a: u32, b: u32) -> (Option<u8>, Option<(Rc<Poly>, bool)>) {
        let d = self.sub(a, b);
        if let Some(p) = self.nf(d) {
            if let Some(c) = p.as_const() {
                return (Some(Self::const_sign(&c)), None);
            }
            let lc = p.0.iter().next_back().unwrap().1.clone();
            let flip = lc.is_negative();
            let k = Rc::new(p.scale(&lc.recip()));
            return (None, Some((k, flip)));
        }
        (None, None)
    }
    fn flip_mask(m: u8) -> u8 {
        (m & 2) | ((m & 1) << 2) | ((m & 4) >> 2)
    }
    fn rel_mask(rel: Rel) -> u8 {
        match rel {
            Rel::Lt => 1,
            Rel::Le => 3,
            Rel::Eq => 2,
        }
    }
    pub fn syntactic(&mut self, rel: Rel, a: u32, b: u32) -> Result<bool, Option<(Rc<Poly>, bool)>> {
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        if na == Node::NaN || nb == Node::NaN {
            return Ok(false);
        }
        let ord = |s: bool| -> i32 {
            if s {
                -1
            } else {
                1
            }
        };
        match (&na, &nb) {
            (Node::Inf(s), Node::Inf(t)) => {
                let (x, y) = (ord(*s), ord(*t));
                return Ok(match rel {
                    Rel::Lt => x < y,
                    Rel::Le => x <= y,
                    Rel::Eq => x == y,
                });
            }
            (Node::Inf(s), _) => return Ok(*s && rel != Rel::Eq),
            (_, Node::Inf(s)) => return Ok(!*s && rel != Rel::Eq),
            _ => {}
        }
        if a == b {
            return Ok(rel != Rel::Lt);
        }
        let want = Self::rel_mask(rel);
        let (s, key) = self.canon_diff(a, b);
        if let Some(s) = s {
            return Ok(s & want != 0);
        }
        if let Some((k, flip)) = &key {
            let want = if *flip { Self::flip_mask(want) } else { want };
            let mut m = self.facts.get(k).copied().unwrap_or(7);
            // intrinsic signs of single atoms
            if k.len() == 1 {
                let (mono, c) = k.0.iter().next().unwrap();
                if mono.len() == 1 && c.is_positive() {
                    if let NfAtom::Node(n) = self.nf_atoms[mono[0].0 as usize] {
                        match self.nodes[n as usize] {
                            Node::Abs(_) | Node::Sqrt(_) => m &= 6,
                            Node::Exp(_) | Node::Pi => m &= 4,
                            _ if mono[0].1 % 2 == 0 => m &= 6,
                            _ => {}
                        }
                    }
                }
            }
            if m & want == m {
                return Ok(true);
            }
            if m & want == 0 {
                return Ok(false);
            }
        }
        Err(key)
    }
    pub fn note_fact(&mut self, key: &Option<(Rc<Poly>, bool)>, rel: Rel, val: bool) {
        if let Some((k, flip)) = key {
            let mut want = Self::rel_mask(rel);
            if *flip {
                want = Self::flip_mask(want);
            }
            if !val {
                want = 7 & !want;
            }
            let e = self.facts.entry(k.clone()).or_insert(7);
            *e &= want;
        }
    }
    pub fn decide(&mut self, rel: Rel, a: u32, b: u32) -> bool {
        if self.oracle.is_some() {
            return self.decide_concrete(rel, a, b);
        }
        let key = match self.syntactic(rel, a, b) {
            Ok(v) => return v,
            Err(k) => k,
        };
        let cond = Cond::Rel(rel, a, b);
        let idx = self.trace.len();
        if idx > self.decide_cap {
            std::panic::panic_any(Incomplete("too many symbolic decisions on one path".into()));
        }
        let val = if let Explore::Around { seed, dev } = self.explore {
            let d = self.around_default(seed, rel, a, b);
            if idx < self.prefix.len() {
                if self.prefix[idx] != d {
                    self.devs += 1;
                }
                self.prefix[idx]
            } else {
                if self.devs < dev {
                    let mut alt = self.trace.clone();
                    alt.push(!d);
                    self.pending.push(alt);
                }
                d
            }
        } else if idx < self.prefix.len() {
            self.prefix[idx]
        } else {
            let (ft, ff) = match self.explore {
                Explore::NoFeas | Explore::Around { .. } => (true, true),
                Explore::Feas => {
                    let t = crate::engine::feasible(self, &cond);
                    let f = if !t { true } else { crate::engine::feasible(self, &cond.clone().not()) };
                    (t, f)
                }
            };
            match (ft, ff) {
                (true, true) => {
                    let mut alt = self.trace.clone();
                    alt.push(false);
                    self.pending.push(alt);
                    true
                }
                (true, false) => true,
                _ => false,
            }
        };
        self.trace.push(val);
        self.note_fact(&key, rel, val);
        self.pc.push(if val { cond } else { cond.not() });
        self.pc_decision.push(true);
        val
    }
    fn around_default(&mut self, seed: u64, rel: Rel, a: u32, b: u32) -> bool {
        for v in &self.vars {
            if !self.around_env.contains_key(v) {
                let mut h = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x51ab;
                for x in v.bytes() {
                    h = (h ^ x as u64).wrapping_mul(0x100000001b3);
                    h ^= h >> 29;
                }
                h = h.wrapping_mul(0xD6E8FEB86659FD93);
                h ^= h >> 32;
                self.around_env.insert(v.clone(), (h % 100003) as f64 / 100003.0 * 8.0 - 4.0);
            }
        }
        let mut memo = std::mem::take(&mut self.around_memo);
        let env = std::mem::take(&mut self.around_env);
        let x = crate::concolic::eval(self, a, &env, &mut memo);
        let y = crate::concolic::eval(self, b, &env, &mut memo);
        self.around_memo = memo;
        self.around_env = env;
        match rel {
            Rel::Lt => x < y,
            Rel::Le => x <= y,
            Rel::Eq => x == y,
        }
    }
    fn decide_concrete(&mut self, rel: Rel, a: u32, b: u32) -> bool {
        let env = self.oracle.clone().unwrap();
        let mut memo = HashMap::new();
        let x = crate::concolic::eval(self, a, &env, &mut memo);
        let y = crate::concolic::eval(self, b, &env, &mut memo);
        if x != y && (x - y).abs() < 1e-11 * (1.0 + x.abs() + y.abs()) {
            self.close_call = true;
        }
        if x == y && a != b {
            // equality of rounded values need not be equality of reals
            let d = self.sub(a, b);
            if !self.nf(d).map_or(false, |p| p.is_zero()) {
                self.close_call |= x != 0.0 && x.fract() != 0.0;
            }
        }
        match rel {
            Rel::Lt => x < y,
            Rel::Le => x <= y,
            Rel::Eq => x == y,
        }
    }
    pub fn var(&mut self, name: &str) -> u32 {
        if !self.vars.iter().any(|v| v == name) {
            self.vars.push(name.to_string());
        }
        let i = self.mk(Node::Var(name.to_string()));
        self.nf_atom_node(i);
        i
    }
    pub fn assume(&mut self, c: Cond) {
        if self.oracle.is_some() {
            return;
        }
        match &c {
            Cond::T => return,
            Cond::F => std::panic::panic_any(Discard),
            Cond::Rel(r, a, b) => match self.syntactic(*r, *a, *b) {
                Ok(true) => return,
                Ok(false) => std::panic::panic_any(Discard),
                Err(k) => self.note_fact(&k, *r, true),
            },
            Cond::Not(x) => {
                if let Cond::Rel(r, a, b) = &**x {
                    match self.syntactic(*r, *a, *b) {
                        Ok(false) => return,
                        Ok(true) => std::panic::panic_any(Discard),
                        Err(k) => self.note_fact(&k, *r, false),
                    }
                }
            }
            Cond::And(v) => {
                for x in v.clone() {
                    self.assume(x);
                }
                return;
            }
            _ => {}
        }
        self.pc.push(c);
        self.pc_decision.push(false);
    }
    pub fn atom_node(&self, a: u32) -> Option<u32> {
        match self.nf_atoms[a as usize] {
            NfAtom::Node(n) => Some(n),
            _ => None,
        }
    }
    pub fn mono_is_single_atom(&self, m: &Mono) -> Option<u32> {
        if m.len() == 1 && m[0].1 == 1 {
            if let NfAtom::Node(n) = self.nf_atoms[m[0].0 as usize] {
                return Some(n);
            }
        }
        None
    }
}

/// every node below the roots
pub fn reach(c: &Ctx, roots: &[u32]) -> Vec<u32> {
    let mut seen: std::collections::HashSet<u32> = Default::default();
    let mut st: Vec<u32> = roots.to_vec();
    while let Some(n) = st.pop() {
        if !seen.insert(n) || c.cut.contains(&n) {
            continue;
        }
        match &c.nodes[n as usize] {
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) | Node::Atan2(a, b) => {
                st.push(*a);
                st.push(*b);
            }
            Node::Sin(a)
            | Node::Cos(a)
            | Node::Neg(a)
            | Node::Abs(a)
            | Node::Sqrt(a)
            | Node::Acos(a)
            | Node::Asin(a)
            | Node::Exp(a)
            | Node::Ln(a) => st.push(*a),
            _ => {}
        }
    }
    let mut v: Vec<u32> = seen.into_iter().collect();
    v.sort_unstable();
    v
}

/// polynomial form with opaque nodes as atoms (quotients of them included)
pub fn cut_nf(c: &Ctx, n: u32, memo: &mut HashMap<u32, Option<Rc<Poly>>>) -> Option<Rc<Poly>> {
    if let Some(r) = memo.get(&n) {
        return r.clone();
    }
    const C: usize = 200;
    let r = if c.cut.contains(&n) {
        Some(Poly::atom(n))
    } else {
        let two = |a: u32, b: u32, memo: &mut HashMap<u32, Option<Rc<Poly>>>| Some((cut_nf(c, a, memo)?, cut_nf(c, b, memo)?));
        match &c.nodes[n as usize] {
            Node::Const(k) => Some(Poly::con(k.clone())),
            Node::Inf(_) | Node::NaN => None,
            Node::Add(a, b) => two(*a, *b, memo).map(|(x, y)| x.add(&y)),
            Node::Sub(a, b) => two(*a, *b, memo).map(|(x, y)| x.sub(&y)),
            Node::Mul(a, b) => two(*a, *b, memo).and_then(|(x, y)| x.mul_cap(&y, C)),
            Node::Neg(a) => cut_nf(c, *a, memo).map(|x| x.neg()),
            _ => Some(Poly::atom(n)),
        }
    };
    let r = r.filter(|p| p.len() <= C).map(Rc::new);
    memo.insert(n, r.clone());
    r
}
/// put the first `len` cuts of the path in force for queries over `conds`
pub fn set_cuts(c: &mut Ctx, len: usize, conds: &[&Cond]) {
    c.cut.clear();
    c.merge.clear();
    let cuts: Vec<Cut> = c.cuts[..len].to_vec();
    let one = c.int(1);
    let mut map: HashMap<Rc<Poly>, (u32, i64)> = HashMap::new();
    for x in &cuts {
        match *x {
            Cut::Opaque(n) => {
                c.cut.insert(n);
            }
            Cut::Known(n, v) => {
                if let Some(p) = cut_nf(c, n, &mut HashMap::new()) {
                    map.insert(p, (one, v));
                }
            }
            Cut::Defined(n) => {
                if let Some(p) = cut_nf(c, n, &mut HashMap::new()) {
                    map.insert(p, (n, 1));
                }
                c.cut.insert(n);
            }
        }
    }
    if map.is_empty() {
        return;
    }
    let mut memo = HashMap::new();
    let mut roots = vec![];
    for x in conds {
        x.nodes(&mut roots);
    }
    for n in reach(c, &roots) {
        if matches!(c.nodes[n as usize], Node::Const(_) | Node::Var(_)) || c.cut.contains(&n) {
            continue;
        }
        if let Some(p) = cut_nf(c, n, &mut memo) {
            if let Some((t, v)) = map.get(&p) {
                c.merge.insert(n, (*t, BigRational::from_integer(BigInt::from(*v))));
            }
        }
    }
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::new());
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    CTX.with(|c| f(&mut c.borrow_mut()))
}

pub fn rat_of_f64(x: f64) -> Option<BigRational> {
    BigRational::from_float(x)
}

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Sym#{}", self.0)
    }
}
impl fmt::Display for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Sym#{}", self.0)
    }
}

macro_rules! bin {
    ($tr:ident, $m:ident, $f:ident, $tra:ident, $ma:ident) => {
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                Sym(with(|c| c.$f(self.0, o.0)))
            }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym {
                Sym(with(|c| c.$f(self.0, o.0)))
            }
        }
        impl $tra for Sym {
            fn $ma(&mut self, o: Sym) {
                *self = Sym(with(|c| c.$f(self.0, o.0)))
            }
        }
    };
}
bin!(Add, add, add, AddAssign, add_assign);
bin!(Sub, sub, sub, SubAssign, sub_assign);
bin!(Mul, mul, mul, MulAssign, mul_assign);

fn guard_div() {
    let g = with(|c| c.ring_guard);
    if g {
        // the surrounding harness declared the code division-free
        with(|c| {
            let pc_len = c.pc.len();
            c.claims.push(Claim {
                label: "ring operations only (no division or remainder on the scalar)".into(),
                cond: Cond::F,
                pc_len,
                no_defs: true,
                cut_len: 0,
            })
        });
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        guard_div();
        Sym(with(|c| c.div(self.0, o.0)))
    }
}
impl DivAssign for Sym {
    fn div_assign(&mut self, o: Sym) {
        *self = *self / o;
    }
}
impl Rem for Sym {
    type Output = Sym;
    fn rem(self, o: Sym) -> Sym {
        guard_div();
        let r = with(|c| match (c.as_const(self.0).cloned(), c.as_const(o.0).cloned()) {
            (Some(a), Some(b)) if !b.is_zero() => {
                let q = (&a / &b).trunc();
                Some(c.con(a - q * b))
            }
            _ => None,
        });
        match r {
            Some(r) => Sym(r),
            None => {
                // truncated quotients up to 16 are told apart by branching
                let (na, nb) = (lt(self, ic(0)), lt(o, ic(0)));
                let (a, b) = (if na { -self } else { self }, if nb { -o } else { o });
                for k in 0..16 {
                    if lt(a, b * ic(k + 1)) {
                        let r = a - b * ic(k);
                        return if na { -r } else { r };
                    }
                }
                std::panic::panic_any(Unsupported("remainder after more than 16 whole quotients".into()))
            }
        }
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        Sym(with(|c| c.neg(self.0)))
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * b)
    }
}
pub fn lt(a: Sym, b: Sym) -> bool {
    with(|c| c.decide(Rel::Lt, a.0, b.0))
}
pub fn le(a: Sym, b: Sym) -> bool {
    with(|c| c.decide(Rel::Le, a.0, b.0))
}
pub fn eq(a: Sym, b: Sym) -> bool {
    with(|c| c.decide(Rel::Eq, a.0, b.0))
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        eq(*self, *o)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.is_nan() || o.is_nan() {
            return None;
        }
        if lt(*self, *o) {
            Some(Ordering::Less)
        } else if eq(*self, *o) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        lt(*self, *o)
    }
    fn le(&self, o: &Sym) -> bool {
        le(*self, *o)
    }
    fn gt(&self, o: &Sym) -> bool {
        lt(*o, *self)
    }
    fn ge(&self, o: &Sym) -> bool {
        le(*o, *self)
    }
}
fn ic(i: i64) -> Sym {
    Sym(with(|c| c.int(i)))
}
pub fn rc(n: i64, d: i64) -> Sym {
    Sym(with(|c| c.con(BigRational::new(n.into(), d.into()))))
}
/// the exact number a rounded literal stands for: multiples of pi and of its
/// inverse, and the root of two
fn literal(x: f64) -> Option<Sym> {
    use std::f64::consts::{PI, SQRT_2};
    let a = x.abs();
    let near = |y: f64| (a - y).abs() <= y * 4.5e-16 || a == y as f32 as f64;
    let sgn = |s: Sym| Some(if x < 0.0 { -s } else { s });
    if a < 0.01 || a > 800.0 || (a * 1024.0).fract() == 0.0 {
        return None;
    }
    for d in [1i64, 2, 3, 4, 6, 8, 12, 180, 360] {
        for n in 1..=16i64 {
            if near(PI * n as f64 / d as f64) {
                return sgn(pi_frac(n, d));
            }
        }
    }
    for n in [1i64, 2, 90, 180, 360] {
        if near(n as f64 / PI) {
            return sgn(ic(n) / pi_frac(1, 1));
        }
    }
    if near(SQRT_2) {
        return sgn(ic(2).sqrt());
    }
    if near(SQRT_2 / 2.0) {
        return sgn(ic(1) / ic(2).sqrt());
    }
    None
}
fn fc(x: f64) -> Sym {
    if let Some(s) = literal(x) {
        return s;
    }
    Sym(with(|c| match rat_of_f64(x) {
        Some(r) => c.con(r),
        None => {
            if x.is_nan() {
                c.mk(Node::NaN)
            } else {
                c.mk(Node::Inf(x < 0.0))
            }
        }
    }))
}
impl Zero for Sym {
    fn zero() -> Sym {
        ic(0)
    }
    fn is_zero(&self) -> bool {
        eq(*self, ic(0))
    }
}
impl One for Sym {
    fn one() -> Sym {
        ic(1)
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Sym, ()> {
        if r != 10 {
            return Err(());
        }
        s.parse::<f64>().map(fc).map_err(|_| ())
    }
}
impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> {
        with(|c| c.as_const(self.0).and_then(|r| r.to_integer().to_i64()))
    }
    fn to_u64(&self) -> Option<u64> {
        with(|c| c.as_const(self.0).and_then(|r| r.to_integer().to_u64()))
    }
    fn to_f64(&self) -> Option<f64> {
        let k = with(|c| c.as_const(self.0).and_then(|r| r.to_f64()));
        if k.is_none() {
            std::panic::panic_any(Unsupported("conversion of a symbolic value to a primitive".into()));
        }
        k
    }
}
impl NumCast for Sym {
    fn from<T: ToPrimitive>(n: T) -> Option<Sym> {
        // exactly what a cast through f64 keeps (every literal used is an f64 or a small integer)
        let f = n.to_f64()?;
        if f.fract() == 0.0 && f.abs() < 9e15 {
            if let Some(i) = n.to_i64() {
                return Some(ic(i));
            }
        }
        Some(fc(f))
    }
}
impl Signed for Sym {
    fn abs(&self) -> Sym {
        Sym(with(|c| c.abs(self.0)))
    }
    fn abs_sub(&self, o: &Sym) -> Sym {
        if le(*self, *o) {
            ic(0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> Sym {
        if lt(*self, ic(0)) {
            ic(-1)
        } else if eq(*self, ic(0)) {
            ic(0)
        } else {
            ic(1)
        }
    }
    fn is_positive(&self) -> bool {
        lt(ic(0), *self)
    }
    fn is_negative(&self) -> bool {
        lt(*self, ic(0))
    }
}
fn unsup(s: &str) -> ! {
    std::panic::panic_any(Unsupported(s.into()))
}
impl Float for Sym {
    fn nan() -> Sym {
        Sym(with(|c| c.mk(Node::NaN)))
    }
    fn infinity() -> Sym {
        Sym(with(|c| c.mk(Node::Inf(false))))
    }
    fn neg_infinity() -> Sym {
        Sym(with(|c| c.mk(Node::Inf(true))))
    }
    fn neg_zero() -> Sym {
        ic(0)
    }
    fn min_value() -> Sym {
        fc(f64::MIN)
    }
    fn min_positive_value() -> Sym {
        fc(f64::MIN_POSITIVE)
    }
    fn epsilon() -> Sym {
        fc(f64::EPSILON)
    }
    fn max_value() -> Sym {
        fc(f64::MAX)
    }
    fn is_nan(self) -> bool {
        with(|c| c.nodes[self.0 as usize] == Node::NaN)
    }
    fn is_infinite(self) -> bool {
        with(|c| matches!(c.nodes[self.0 as usize], Node::Inf(_)))
    }
    fn is_finite(self) -> bool {
        with(|c| !c.is_special(self.0))
    }
    fn is_normal(self) -> bool {
        self.is_finite() && !eq(self, ic(0))
    }
    fn classify(self) -> std::num::FpCategory {
        use std::num::FpCategory::*;
        if self.is_nan() {
            Nan
        } else if self.is_infinite() {
            Infinite
        } else if eq(self, ic(0)) {
            Zero
        } else {
            Normal
        }
    }
    fn floor(self) -> Sym {
        match with(|c| c.as_const(self.0).cloned()) {
            Some(r) => Sym(with(|c| c.con(r.floor()))),
            None => {
                // whole parts from -16 to 15 are told apart by branching
                if le(ic(0), self) {
                    for k in 0..16 {
                        if lt(self, ic(k + 1)) {
                            return ic(k);
                        }
                    }
                } else {
                    for k in 1..=16 {
                        if le(ic(-k), self) {
                            return ic(-k);
                        }
                    }
                }
                unsup("floor of a value outside [-16, 16)")
            }
        }
    }
    fn ceil(self) -> Sym {
        -((-self).floor())
    }
    fn round(self) -> Sym {
        match with(|c| c.as_const(self.0).cloned()) {
            Some(r) => Sym(with(|c| c.con(r.round()))),
            None => {
                if lt(self, ic(0)) {
                    -((-self) + rc(1, 2)).floor()
                } else {
                    (self + rc(1, 2)).floor()
                }
            }
        }
    }
    fn trunc(self) -> Sym {
        match with(|c| c.as_const(self.0).cloned()) {
            Some(r) => Sym(with(|c| c.con(r.trunc()))),
            None => {
                if lt(self, ic(0)) {
                    -((-self).floor())
                } else {
                    self.floor()
                }
            }
        }
    }
    fn fract(self) -> Sym {
        self - self.trunc()
    }
    fn abs(self) -> Sym {
        Sym(with(|c| c.abs(self.0)))
    }
    fn signum(self) -> Sym {
        if lt(self, ic(0)) {
            ic(-1)
        } else {
            ic(1)
        }
    }
    fn is_sign_positive(self) -> bool {
        le(ic(0), self)
    }
    fn is_sign_negative(self) -> bool {
        lt(self, ic(0))
    }
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    fn recip(self) -> Sym {
        ic(1) / self
    }
    fn powi(self, n: i32) -> Sym {
        let mut r = ic(1);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            ic(1) / r
        } else {
            r
        }
    }
    fn powf(self, n: Sym) -> Sym {
        let k = with(|c| c.as_const(n.0).cloned());
        if let Some(k) = k {
            if k.is_integer() {
                if let Some(i) = k.to_integer().to_i32() {
                    return self.powi(i);
                }
            }
            if k == BigRational::new(1.into(), 2.into()) {
                return self.sqrt();
            }
        }
        (n * self.ln()).exp()
    }
    fn sqrt(self) -> Sym {
        Sym(with(|c| c.sqrt(self.0)))
    }
    fn exp(self) -> Sym {
        Sym(with(|c| c.exp(self.0)))
    }
    fn exp2(self) -> Sym {
        (self * ic(2).ln()).exp()
    }
    fn ln(self) -> Sym {
        Sym(with(|c| c.ln(self.0)))
    }
    fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    fn log2(self) -> Sym {
        self.ln() / ic(2).ln()
    }
    fn log10(self) -> Sym {
        self.ln() / ic(10).ln()
    }
    fn max(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if lt(self, o) {
            o
        } else {
            self
        }
    }
    fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if lt(o, self) {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Sym) -> Sym {
        Signed::abs_sub(&self, &o)
    }
    fn cbrt(self) -> Sym {
        unsup("cbrt")
    }
    fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    fn sin(self) -> Sym {
        Sym(with(|c| c.sin(self.0)))
    }
    fn cos(self) -> Sym {
        Sym(with(|c| c.cos(self.0)))
    }
    fn tan(self) -> Sym {
        let t = self.sin() / self.cos();
        with(|c| c.tans.insert(t.0));
        t
    }
    fn asin(self) -> Sym {
        Sym(with(|c| c.asin(self.0)))
    }
    fn acos(self) -> Sym {
        Sym(with(|c| c.acos(self.0)))
    }
    fn atan(self) -> Sym {
        self.atan2(ic(1))
    }
    fn atan2(self, x: Sym) -> Sym {
        // atan2(0, 0) = 0 is split off so that the radius is nonzero below
        let r = self * self + x * x;
        if eq(r, ic(0)) {
            return ic(0);
        }
        Sym(with(|c| c.atan2_raw(self.0, x.0)))
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Sym {
        self.exp() - ic(1)
    }
    fn ln_1p(self) -> Sym {
        (self + ic(1)).ln()
    }
    fn sinh(self) -> Sym {
        (self.exp() - (-self).exp()) * rc(1, 2)
    }
    fn cosh(self) -> Sym {
        (self.exp() + (-self).exp()) * rc(1, 2)
    }
    fn tanh(self) -> Sym {
        self.sinh() / self.cosh()
    }
    fn asinh(self) -> Sym {
        unsup("asinh")
    }
    fn acosh(self) -> Sym {
        unsup("acosh")
    }
    fn atanh(self) -> Sym {
        unsup("atanh")
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup("integer_decode")
    }
    fn to_degrees(self) -> Sym {
        self * ic(180) / Sym::PI()
    }
    fn to_radians(self) -> Sym {
        self * Sym::PI() / ic(180)
    }
}
fn pi_frac(n: i64, d: i64) -> Sym {
    let p = Sym(with(|c| c.mk(Node::Pi)));
    p * rc(n, d)
}
impl FloatConst for Sym {
    fn E() -> Sym {
        ic(1).exp()
    }
    fn FRAC_1_PI() -> Sym {
        ic(1) / pi_frac(1, 1)
    }
    fn FRAC_1_SQRT_2() -> Sym {
        ic(1) / ic(2).sqrt()
    }
    fn FRAC_2_PI() -> Sym {
        ic(2) / pi_frac(1, 1)
    }
    fn FRAC_2_SQRT_PI() -> Sym {
        ic(2) / pi_frac(1, 1).sqrt()
    }
    fn FRAC_PI_2() -> Sym {
        pi_frac(1, 2)
    }
    fn FRAC_PI_3() -> Sym {
        pi_frac(1, 3)
    }
    fn FRAC_PI_4() -> Sym {
        pi_frac(1, 4)
    }
    fn FRAC_PI_6() -> Sym {
        pi_frac(1, 6)
    }
    fn FRAC_PI_8() -> Sym {
        pi_frac(1, 8)
    }
    fn LN_10() -> Sym {
        ic(10).ln()
    }
    fn LN_2() -> Sym {
        ic(2).ln()
    }
    fn LOG10_E() -> Sym {
        ic(1) / ic(10).ln()
    }
    fn LOG2_E() -> Sym {
        ic(1) / ic(2).ln()
    }
    fn PI() -> Sym {
        pi_frac(1, 1)
    }
    fn SQRT_2() -> Sym {
        ic(2).sqrt()
    }
}
