//! Path exploration, discharge of obligations, replay of counterexamples.
use num::ToPrimitive;
use crate::api::{panic_msg, Native, NAT};
use crate::enc::{Enc, F};
use crate::solver::{expired, Res, Stats, Which};
use crate::sym::{self, with, Cond, Ctx, Discard, Incomplete, Unsupported};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone)]
pub struct Harness {
    pub prop: &'static str,
    pub name: &'static str,
    pub funcs: &'static str,
    pub sym: fn(),
    pub nat: fn(),
    pub nat32: Option<fn()>,
    /// run only in the thorough tier
    pub thorough: bool,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub label: String,
    pub model: Option<HashMap<String, f64>>,
    pub reproduced: Option<Vec<(String, f64)>>,
    pub solver: String,
    pub f32_too: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Outcome {
    pub name: String,
    pub paths: u64,
    pub dead: u64,
    pub merged_dead: u64,
    pub decisions: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub concrete: u64,
    pub nf_confirmed: u64,
    pub nf_only: u64,
    pub linear: u64,
    pub cached: u64,
    pub certs: u64,
    pub defs: u64,
    pub nodes: u64,
    pub stats: Stats,
    pub failures: Vec<Failure>,
    pub errors: Vec<String>,
    pub labels: BTreeSet<String>,
    pub native_runs: u64,
    pub native_ok: u64,
    pub native_labels: BTreeSet<String>,
    pub concolic: u64,
    pub concolic_mismatch: u64,
    pub bounds: Vec<String>,
    pub wall: f64,
    pub late: bool,
    pub sample: String,
    pub label_counts: BTreeMap<String, u64>,
}

#[derive(Clone, Copy)]
pub struct Cfg {
    pub thorough: bool,
    pub seed: u64,
    pub path_cap: u64,
    pub known: fn(&str, &str, &str) -> bool,
}
/// a violation has been confirmed: running out of time is no longer a problem
pub static FOUND: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// is pc /\ cond satisfiable?  (unknown counts as yes)
pub fn feasible(c: &mut Ctx, cond: &Cond) -> bool {
    c.feas_queries += 1;
    let mut pc = c.pc.clone();
    pc.push(cond.clone());
    let mut st = Stats::default();
    let r = {
        let refs: Vec<&Cond> = pc.iter().collect();
        let mut e = Enc::new(c, &refs);
        let fs: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
        e.finalize();
        if fs.iter().any(|f| *f == F::False) {
            return false;
        }
        e.race(&mut st, BOTH, &fs, 1500, false)
    };
    c.stats.merge(&st);
    r != Res::Unsat
}

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

const BOTH: &[Which] = &[Which::Z3New, Which::Cvc5];

enum Verdict {
    Proved(bool), // by certificate?
    Refuted(HashMap<String, f64>),
    Unknown,
}

fn prove(e: &mut Enc, st: &mut Stats, assume: &[F], goal: &F, cfg: &Cfg, first_ms: u64) -> Verdict {
    match goal {
        F::True => return Verdict::Proved(false),
        F::And(v) => {
            let mut cert = false;
            for g in v.clone() {
                match prove(e, st, assume, &g, cfg, first_ms) {
                    Verdict::Proved(c) => cert |= c,
                    o => return o,
                }
            }
            return Verdict::Proved(cert);
        }
        _ => {}
    }
    if let (F::Eq0(t), false) = (goal, e.c.cut.is_empty()) {
        if linearised(e, st, assume, *t) {
            return Verdict::Proved(true);
        }
    }
    let mut asserts: Vec<F> = assume.to_vec();
    asserts.push(goal.clone().not());
    match e.race(st, BOTH, &asserts, first_ms, true) {
        Res::Unsat => return Verdict::Proved(false),
        Res::Sat(m) => return Verdict::Refuted(m),
        Res::Unknown => {}
    }
    if e.c.cut.is_empty() && one_poly(e, st, &asserts) {
        return Verdict::Proved(false);
    }
    // split implications into assumption and goal
    let (extra, core): (Vec<F>, Option<F>) = match goal {
        F::Or(v) => {
            let pos = v.iter().position(|f| matches!(f, F::Eq0(_)) || matches!(f, F::And(_)));
            match pos {
                Some(p) => (
                    v.iter().enumerate().filter(|(i, _)| *i != p).map(|(_, f)| f.clone().not()).collect(),
                    Some(v[p].clone()),
                ),
                None => (vec![], None),
            }
        }
        F::Eq0(_) => (vec![], Some(goal.clone())),
        _ => (vec![], None),
    };
    if let Some(core) = core {
        let mut flat: Vec<F> = vec![];
        for f in assume.iter().chain(extra.iter()) {
            match f {
                F::And(v) => flat.extend(v.iter().cloned()),
                f => flat.push(f.clone()),
            }
        }
        let rules = e.path_rules(&flat);
        let goals = match &core {
            F::And(v) => v.clone(),
            g => vec![g.clone()],
        };
        let mut all = true;
        for g in goals {
            match g {
                F::Eq0(t) => {
                    if !e.prove_by_certificate(st, t, &rules, 20000) && !e.prove_by_certificate(st, t, &[], 20000) {
                        all = false;
                        break;
                    }
                }
                _ => {
                    all = false;
                    break;
                }
            }
        }
        if all {
            return Verdict::Proved(true);
        }
    }
    let k = if cfg.thorough { 4 } else { 1 };
    match e.race(st, &[Which::Z3NewNlsat, Which::Cvc5, Which::Z3Old, Which::Z3New], &asserts, 15000 * k, true) {
        Res::Unsat => return Verdict::Proved(false),
        Res::Sat(m) => return Verdict::Refuted(m),
        Res::Unknown => {}
    }
    Verdict::Unknown
}

/// Conditions that speak of one polynomial only (a dot product bounded in two
/// ways): that polynomial becomes the unknown.  A relaxation, only `unsat` counts.
fn one_poly(e: &mut Enc, st: &mut Stats, asserts: &[F]) -> bool {
    use crate::poly::*;
    fn flatten(f: &F, out: &mut Vec<F>) {
        match f {
            F::And(v) => v.iter().for_each(|x| flatten(x, out)),
            f => out.push(f.clone()),
        }
    }
    fn polys(e: &mut Enc, f: &F, out: &mut Vec<Poly>) -> bool {
        match f {
            F::True | F::False => true,
            F::Lt0(t) | F::Le0(t) | F::Eq0(t) => match e.tpoly(*t) {
                Some(p) if p.len() <= 300 => {
                    out.push((*p).clone());
                    true
                }
                _ => false,
            },
            F::And(v) | F::Or(v) => v.iter().all(|x| polys(e, x, out)),
            F::Not(x) => polys(e, x, out),
        }
    }
    fn in_terms_of(q: &Poly, p: &Poly) -> Option<Vec<num::BigRational>> {
        let lead = |x: &Poly| x.0.iter().max_by_key(|(m, _)| (m.iter().map(|y| y.1).sum::<u32>(), (*m).clone())).map(|(m, k)| (m.clone(), k.clone()));
        let (pm, pk) = lead(p)?;
        let mut r = q.clone();
        let mut out = vec![num::BigRational::from_integer(0.into()); 5];
        for _ in 0..6 {
            if let Some(k) = r.as_const() {
                out[0] = k;
                return Some(out);
            }
            let (m, k) = lead(&r)?;
            let n = (1..5u32).find(|n| pm.iter().map(|x| (x.0, x.1 * n)).collect::<Mono>() == m)?;
            let mut d = num::BigRational::from_integer(1.into());
            for _ in 0..n {
                d *= &pk;
            }
            let c = k / d;
            out[n as usize] = c.clone();
            r = r.sub(&p.pow(n, CAP)?.scale(&c));
        }
        None
    }
    let mut flat = vec![];
    asserts.iter().for_each(|f| flatten(f, &mut flat));
    let mut known: Vec<(F, Vec<Poly>)> = vec![];
    for f in flat {
        let mut ps = vec![];
        if polys(e, &f, &mut ps) && !ps.is_empty() {
            known.push((f, ps));
        }
    }
    let mut bases: Vec<Poly> = vec![];
    for (_, ps) in &known {
        for p in ps {
            let mut b = p.clone();
            b.0.remove(&Mono::new());
            if b.len() < 2 || b.len() > 40 {
                continue;
            }
            let k = b.0.values().next().unwrap().recip();
            let b = b.scale(&k);
            if !bases.contains(&b) {
                bases.push(b);
            }
        }
    }
    bases.truncate(20);
    for b in bases {
        let mut s = String::from("(declare-const x Real)\n(declare-const x2 Real)\n(assert (= x2 (* x x)))\n");
        let mut n = 0;
        fn show(e: &mut Enc, f: &F, b: &Poly) -> Option<String> {
            Some(match f {
                F::True => "true".into(),
                F::False => "false".into(),
                F::Lt0(t) | F::Le0(t) | F::Eq0(t) => {
                    let p = e.tpoly(*t)?;
                    let c = in_terms_of(&p, b)?;
                    let op = match f {
                        F::Lt0(_) => "<",
                        F::Le0(_) => "<=",
                        _ => "=",
                    };
                    format!("({} (+ {} (* {} x) (* {} x2) (* {} x x2) (* {} x2 x2)) 0.0)", op, Enc::rat(&c[0]), Enc::rat(&c[1]), Enc::rat(&c[2]), Enc::rat(&c[3]), Enc::rat(&c[4]))
                }
                F::And(v) | F::Or(v) => {
                    let mut r = String::from(if matches!(f, F::And(_)) { "(and true" } else { "(or false" });
                    for x in v {
                        r.push(' ');
                        r.push_str(&show(e, x, b)?);
                    }
                    r.push(')');
                    r
                }
                F::Not(x) => format!("(not {})", show(e, x, b)?),
            })
        }
        for (f, _) in &known {
            if let Some(t) = show(e, f, &b) {
                s.push_str(&format!("(assert {})\n", t));
                n += 1;
            }
        }
        if n >= 2 && crate::solver::race(st, &[Which::Z3New], &s, &[], 1000) == Res::Unsat {
            return true;
        }
    }
    false
}

/// An equation from the equations assumed: these are multiplied by the monomials
/// that can cancel something, and the solver decides the linear problem whose
/// unknowns are the monomials.
fn linearised(e: &mut Enc, st: &mut Stats, assume: &[F], t: crate::enc::T) -> bool {
    use crate::poly::*;
    let mut flat: Vec<F> = vec![];
    for f in assume {
        match f {
            F::And(v) => flat.extend(v.iter().cloned()),
            f => flat.push(f.clone()),
        }
    }
    let mut eqs: Vec<std::rc::Rc<Poly>> = vec![];
    for f in &flat {
        if let F::Eq0(x) = f {
            if let Some(p) = e.tpoly(*x) {
                eqs.push(p);
            }
        }
    }
    for g in e.gens.iter().map(|g| g.eq).collect::<Vec<_>>() {
        if let Some(p) = e.tpoly(g) {
            eqs.push(p);
        }
    }
    let Some(goal) = e.tpoly(t) else { return false };
    let mut goal = (*goal).clone();
    // equations that give an input away
    let mut subst: Vec<(u32, Poly)> = vec![];
    let mut used = vec![false; eqs.len()];
    for round in 0..eqs.len() {
        let _ = round;
        let mut found = None;
        'o: for (i, p) in eqs.iter().enumerate() {
            if used[i] {
                continue;
            }
            for v in p.atoms() {
                if e.atoms[v as usize].var.is_none() {
                    continue;
                }
                let co = p.coeffs_in(v);
                if co.len() == 2 {
                    if let Some(k) = co[1].as_const() {
                        found = Some((i, v, co[0].scale(&(-k.recip()))));
                        break 'o;
                    }
                }
            }
        }
        let Some((i, v, r)) = found else { break };
        used[i] = true;
        let apply = |p: &Poly| -> Option<Poly> {
            let co = p.coeffs_in(v);
            let mut s = Poly::zero();
            for (k, x) in co.iter().enumerate() {
                s.add_assign(&x.mul(&r.pow(k as u32, CAP)?)?);
            }
            Some(s)
        };
        let Some(g) = apply(&goal) else { return false };
        goal = g;
        for (j, p) in eqs.iter_mut().enumerate() {
            if !used[j] && p.degree_in(v) > 0 {
                match apply(p) {
                    Some(x) => *p = std::rc::Rc::new(x),
                    None => used[j] = true,
                }
            }
        }
        subst.push((v, r));
    }
    let eqs: Vec<std::rc::Rc<Poly>> = eqs.iter().zip(used.iter()).filter(|(p, u)| !**u && !p.is_zero()).map(|x| x.0.clone()).collect();
    let divide = |m: &Mono, d: &Mono| -> Option<Mono> {
        let mut r = m.clone();
        for (v, k) in d {
            let i = r.iter().position(|x| x.0 == *v)?;
            if r[i].1 < *k {
                return None;
            }
            r[i].1 -= k;
            if r[i].1 == 0 {
                r.remove(i);
            }
        }
        Some(r)
    };
    let mut rows: Vec<Poly> = vec![];
    let mut seen: HashSet<(usize, Mono)> = HashSet::new();
    let mut monos: BTreeSet<Mono> = goal.0.keys().cloned().collect();
    let mut front: Vec<Mono> = monos.iter().cloned().collect();
    for _ in 0..3 {
        if expired() {
            return false;
        }
        if monos.is_empty() || rows.len() > 4000 {
            break;
        }
        let mut nf = vec![];
        for m in &front {
            for (i, p) in eqs.iter().enumerate() {
                // a monomial of largest degree in the equation
                let dmax = p.0.keys().map(|x| x.iter().map(|y| y.1).sum::<u32>()).max().unwrap_or(0);
                for lm in p.0.keys().filter(|x| x.iter().map(|y| y.1).sum::<u32>() == dmax) {
                    let Some(q) = divide(m, lm) else { continue };
                    if !seen.insert((i, q.clone())) {
                        continue;
                    }
                    let mut f = Poly::zero();
                    f.add_term(&q, num::BigRational::from_integer(1.into()));
                    if let Some(r) = p.mul(&f) {
                        for x in r.0.keys() {
                            if monos.insert(x.clone()) {
                                nf.push(x.clone());
                            }
                        }
                        rows.push(r);
                    }
                    if rows.len() > 4000 {
                        break;
                    }
                }
            }
        }
        front = nf;
        if front.is_empty() {
            break;
        }
    }
    let idx: HashMap<&Mono, usize> = monos.iter().enumerate().map(|(i, m)| (m, i)).collect();
    let show = |p: &Poly| {
        let mut s = String::from("(+ 0.0 0.0");
        for (m, k) in &p.0 {
            if m.is_empty() {
                s.push_str(&format!(" {}", Enc::rat(k)));
            } else {
                s.push_str(&format!(" (* {} m{})", Enc::rat(k), idx[m]));
            }
        }
        s.push(')');
        s
    };
    let mut s = String::new();
    for i in 0..monos.len() {
        s.push_str(&format!("(declare-const m{} Real)\n", i));
    }
    for r in &rows {
        s.push_str(&format!("(assert (= 0.0 {}))\n", show(r)));
    }
    s.push_str(&format!("(assert (not (= 0.0 {})))\n", show(&goal)));
    let r = crate::solver::race(st, &[Which::Z3New], &s, &[], 10000);
    if std::env::var("SYM_DEBUG").is_ok() {
        eprintln!("linearised: goal {} monomials, {} equations, {} substituted, {} rows: {}", goal.len(), eqs.len(), subst.len(), rows.len(), r == Res::Unsat);
    }
    r == Res::Unsat
}

fn model_to_inputs(e: &Enc, m: &HashMap<String, f64>) -> HashMap<String, f64> {
    let mut r = HashMap::new();
    for a in &e.atoms {
        if let Some(v) = &a.var {
            if let Some(x) = m.get(&a.name) {
                r.insert(v.clone(), *x);
            }
        }
    }
    for (v, s, c, d) in &e.angle_vars {
        if let (Some(sv), Some(cv)) = (m.get(s), m.get(c)) {
            r.insert(v.clone(), sv.atan2(*cv) * *d as f64);
        }
    }
    r
}

/// extra constraints that make a model easier to replay
fn boxed(e: &mut Enc, goal: &F, lim: i64, margin: i64) -> Vec<F> {
    let mut v = vec![];
    let l = e.int(lim);
    for i in 0..e.atoms.len() {
        if e.atoms[i].var.is_some() {
            let t = e.t(crate::enc::Term::Atom(i as u32));
            let a = e.sub(t, l);
            let b0 = e.add(t, l);
            let b = e.neg(b0);
            v.push(F::Le0(a));
            v.push(F::Le0(b));
        }
    }
    if margin > 0 {
        let mut parts = vec![];
        if let F::Or(g) = goal {
            parts.extend(g.iter().cloned());
        } else {
            parts.push(goal.clone());
        }
        let m = e.con(num::BigRational::new(1.into(), margin.into()));
        for p in parts {
            if let F::Eq0(t) = p {
                let a = e.sub(m, t); // t > m
                let b = e.add(t, m); // t < -m
                v.push(F::or(vec![F::Lt0(a), F::Lt0(b)]));
            }
        }
    }
    v
}

pub fn native_run(f: fn(), model: &HashMap<String, f64>, seed: u64, style: u32, tol: f64, f32m: bool) -> Option<(Vec<(String, Cond)>, Vec<(String, f64)>)> {
    NAT.with(|n| {
        *n.borrow_mut() = Native {
            model: model.clone(),
            used: vec![],
            claims: vec![],
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            style,
            tol,
            f32m,
            discarded: false,
        };
        for _ in 0..4 {
            n.borrow_mut().next();
        }
    });
    let r = catch_unwind(AssertUnwindSafe(f));
    let (mut claims, used) = NAT.with(|n| {
        let n = n.borrow();
        (n.claims.clone(), n.used.clone())
    });
    match r {
        Ok(()) => Some((claims, used)),
        Err(p) => {
            if p.is::<Discard>() {
                // claims made before the discarding assumption still count
                NAT.with(|n| n.borrow_mut().discarded = true);
                if claims.iter().any(|c| c.1 == Cond::F) {
                    Some((claims, used))
                } else {
                    None
                }
            } else {
                let _ = panic_msg(&p);
                claims.push(("no panic".to_string(), Cond::F));
                Some((claims, used))
            }
        }
    }
}

fn fails(cl: &[(String, Cond)], label: &str, def: bool) -> bool {
    cl.iter().any(|(l, c)| *c == Cond::F && (def || l == label))
}

/// A deviation too small for the usual tolerance is still a failure when it is
/// not rounding: rounding would be half a billion times larger in single precision.
pub fn native_fine(h: &Harness, label: &str, m: &HashMap<String, f64>, seed: u64, style: u32) -> Option<Vec<(String, f64)>> {
    let def = label.starts_with("defined:");
    let (cl, used) = native_run(h.nat, m, seed, style, 1e-9, false)?;
    if !fails(&cl, label, def) {
        return None;
    }
    let m: HashMap<String, f64> = used.iter().cloned().collect();
    let (cl, _) = native_run(h.nat32?, &m, 1, 0, 1e-2, true)?;
    if cl.iter().any(|(l, c)| *c == Cond::F && (def || l == label)) || !cl.iter().any(|(l, _)| l == label) {
        return None;
    }
    Some(used)
}

/// try to turn a refuted / unproved obligation into a concrete failing run of the real code
fn reproduce(h: &Harness, label: &str, models: &[HashMap<String, f64>], sat: bool, cfg: &Cfg, spent: &Instant) -> Option<Vec<(String, f64)>> {
    let def = label.starts_with("defined:");
    let t = spent.elapsed();
    let r = reproduce_wide(h, label, models, def, cfg, spent, t.as_secs_f64() + if sat { 3.0 } else { 60.0 });
    if r.is_some() || !sat {
        return r;
    }
    for (i, m) in models.iter().enumerate() {
        for s in 0..12u64 {
            let r = native_fine(h, label, m, cfg.seed + 77 * i as u64 + s, s as u32);
            if r.is_some() {
                return r;
            }
        }
    }
    reproduce_wide(h, label, models, def, cfg, spent, 60.0)
}
fn reproduce_wide(h: &Harness, label: &str, models: &[HashMap<String, f64>], def: bool, cfg: &Cfg, spent: &Instant, limit: f64) -> Option<Vec<(String, f64)>> {
    for (i, m) in models.iter().enumerate() {
        for s in 0..12u64 {
            if let Some((cl, used)) = native_run(h.nat, m, cfg.seed + 77 * i as u64 + s, s as u32, 1e-6, false) {
                if fails(&cl, label, def) {
                    return Some(used);
                }
            }
        }
    }
    // neighbourhood of the models, then anywhere
    let base = HashMap::new();
    for s in 0..20000u64 {
        if s > 200 && spent.elapsed().as_secs_f64() > limit {
            break;
        }
        let mut m = base.clone();
        if !models.is_empty() && s % 3 == 0 {
            let src = &models[(s / 3) as usize % models.len()];
            let drop = (s / 3) % 4;
            for (i, (k, v)) in src.iter().enumerate() {
                if drop == 0 || (i as u64 + s) % (drop + 1) != 0 {
                    m.insert(k.clone(), *v);
                }
            }
        }
        if let Some((cl, used)) = native_run(h.nat, &m, cfg.seed + 1000 + s, s as u32, 1e-6, false) {
            if fails(&cl, label, def) {
                return Some(used);
            }
        }
    }
    None
}

/// Inputs worth asking the solver about: runs of the real code on which a claim
/// fails far beyond rounding.
fn candidates(h: &Harness, cfg: &Cfg) -> HashMap<String, Vec<(u32, HashMap<String, f64>)>> {
    let t = Instant::now();
    let mut r: HashMap<String, Vec<(u32, HashMap<String, f64>)>> = HashMap::new();
    let none = HashMap::new();
    for s in 0..3000u64 {
        if s > 50 && t.elapsed().as_secs_f64() > 3.0 {
            break;
        }
        if let Some((cl, used)) = native_run(h.nat, &none, cfg.seed + 500_000 + s, s as u32, 1e-2, false) {
            for (l, c) in &cl {
                if *c == Cond::F {
                    let e = r.entry(l.clone()).or_default();
                    if e.len() < 40 {
                        e.push((s as u32 % 4, used.iter().cloned().collect()));
                    }
                }
            }
        }
    }
    r
}

/// Is a claim that fails on such a run refuted by the solver with the inputs held
/// at (or, failing that, close to) the run's values?
fn refute_at(e: &mut Enc, st: &mut Stats, assume: &[F], g: &F, cand: &HashMap<String, f64>) -> bool {
    for near in [false, true] {
        let mut a = assume.to_vec();
        a.push(g.clone().not());
        for i in 0..e.atoms.len() {
            let Some(v) = e.atoms[i].var.clone() else { continue };
            let Some(x) = cand.get(&v) else { continue };
            let Some(q) = num::BigRational::from_float(*x) else { return false };
            let t = e.t(crate::enc::Term::Atom(i as u32));
            let k = e.con(q);
            let d = e.sub(t, k);
            if near {
                let w = e.con(num::BigRational::new(1.into(), 1000.into()));
                let lo = e.sub(d, w);
                let hi = e.add(d, w);
                let hi = e.neg(hi);
                a.push(F::Le0(lo));
                a.push(F::Le0(hi));
            } else {
                a.push(F::Eq0(d));
            }
        }
        if let Res::Sat(_) = e.race(st, BOTH, &a, 2000, true) {
            return true;
        }
    }
    false
}

struct State {
    /// concrete runs of the real code on which a claim fails by a wide margin
    bank: Option<HashMap<String, Vec<(u32, HashMap<String, f64>)>>>,
    done: HashSet<u64>,
    failed_labels: HashMap<String, u32>,
    merge_cache: HashMap<u64, bool>,
}

fn discharge(h: &Harness, c: &mut Ctx, o: &mut Outcome, stt: &mut State, cfg: &Cfg) {
    let claims = std::mem::take(&mut c.claims);
    // a panic is claimed away with the whole path condition
    let mut groups: BTreeMap<(usize, usize, bool, bool), Vec<(String, Cond)>> = BTreeMap::new();
    for cl in claims {
        o.labels.insert(cl.label.clone());
        *o.label_counts.entry(cl.label.clone()).or_insert(0) += 1;
        if cl.cond == Cond::T {
            o.obligations += 1;
            o.discharged += 1;
            o.concrete += 1;
            continue;
        }
        groups.entry((cl.pc_len, cl.cut_len, cl.no_defs, cl.label == "no panic")).or_default().push((cl.label, cl.cond));
    }
    for ((len, cut_len, no_defs, strong), cls) in groups {
        let pc: Vec<Cond> = c.pc[..len]
            .iter()
            .zip(c.pc_decision.iter())
            .filter(|(x, d)| {
                if !c.weak_pc || strong || !**d {
                    return true;
                }
                match x {
                    Cond::Rel(sym::Rel::Eq, _, _) => true,
                    Cond::Not(b) => matches!(**b, Cond::Rel(sym::Rel::Eq, _, _)),
                    _ => false,
                }
            })
            .map(|x| x.0.clone())
            .collect();
        let pch = hash_of(&(&pc, cut_len, if cut_len > 0 { format!("{:?}", c.cuts) } else { String::new() }));
        let mut todo = vec![];
        for (l, cd) in cls {
            o.obligations += 1;
            if stt.done.contains(&hash_of(&(pch, &cd, no_defs))) {
                o.discharged += 1;
                o.cached += 1;
                continue;
            }
            if todo.iter().any(|(_, x)| *x == cd) {
                o.discharged += 1;
                o.cached += 1;
                continue;
            }
            todo.push((l, cd));
        }
        if todo.is_empty() {
            continue;
        }
        if expired() {
            o.late = true;
            return;
        }
        let mut st = Stats::default();
        let mut conds: Vec<&Cond> = pc.iter().collect();
        conds.extend(todo.iter().map(|x| &x.1));
        sym::set_cuts(c, cut_len, &conds);
        let asm: Vec<Cond> = c.pc[..len].iter().zip(c.pc_decision.iter()).filter(|x| !*x.1).map(|x| x.0.clone()).collect();
        if cut_len == 0 {
            find_merges(c, &pc, &asm, &conds, &mut stt.merge_cache, &mut st, cfg);
        }
        if cut_len == 0 && !c.merge.is_empty() && !no_defs {
            // with the merged angles the path may turn out to be impossible
            let pcs: Vec<&Cond> = pc.iter().collect();
            let mut e = Enc::new(c, &pcs);
            let f: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
            e.finalize();
            let mut r = Res::Unknown;
            for sub in e.projections(&f, 8) {
                r = e.race(&mut st, BOTH, &sub, 800, false);
                if r == Res::Unsat {
                    break;
                }
            }
            if r != Res::Unsat {
                r = e.race(&mut st, BOTH, &f, 3000, false);
            }
            if std::env::var("SYM_DEBUG").is_ok() {
                eprintln!("dead check: unsat {} merged {} pc {:?}", r == Res::Unsat, e.c.merge.len(), pc);
            }
            if r == Res::Unsat {
                o.discharged += todo.len() as u64;
                o.merged_dead += 1;
                drop(e);
                c.stats.merge(&st);
                for (_, cd) in &todo {
                    stt.done.insert(hash_of(&(pch, cd, no_defs)));
                }
                continue;
            }
        }
        // products taken as opaque often suffice (elimination, substitution)
        if c.merge.is_empty() || cut_len > 0 {
            let pcr: Vec<&Cond> = pc.iter().collect();
            let gr: Vec<&Cond> = todo.iter().map(|x| &x.1).collect();
            if let Some((s, n)) = crate::raw::on_path(c, &pcr, &gr, !no_defs) {
                if crate::solver::race(&mut st, &[Which::Z3New], &s, &[], 2500) == Res::Unsat {
                    if o.sample.is_empty() {
                        o.sample = s.chars().take(1500).collect();
                    }
                    o.defs += n;
                    o.obligations += n;
                    o.discharged += n + todo.len() as u64;
                    o.linear += todo.len() as u64;
                    c.stats.merge(&st);
                    for (_, cd) in &todo {
                        stt.done.insert(hash_of(&(pch, cd, no_defs)));
                    }
                    continue;
                }
            }
        }
        let mut e = Enc::new(c, &conds);
        let mut pcf: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
        pcf.extend(e.known_forms(cut_len));
        let goals: Vec<F> = todo.iter().map(|x| e.cond(&x.1)).collect();
        // claims settled by normal form alone: the solver confirms them from
        // the un-normalised rendering
        let triv: Vec<&Cond> = todo.iter().zip(goals.iter()).filter(|(_, g)| **g == F::True).map(|(t, _)| &t.1).collect();
        if !triv.is_empty() {
            let n = triv.len() as u64;
            match raw_confirm(e.c, &triv, &mut st) {
                Res::Unsat => o.nf_confirmed += n,
                Res::Sat(_) => o.errors.push("normal form and solver disagree".into()),
                Res::Unknown => o.nf_only += n,
            }
        }
        e.finalize();
        e.pc_forms = pcf.clone();
        if o.sample.is_empty() {
            let mut a = pcf.clone();
            a.push(F::and(goals.clone()).not());
            let (s, _) = e.script(&a, true, "", &[]);
            o.sample = s.chars().take(1500).collect();
        }
        let mut assume = pcf.clone();
        let mut fails_here: Vec<(String, Vec<HashMap<String, f64>>, String)> = vec![];
        if !no_defs && !e.defs.is_empty() {
            // values are well defined on this path (no zero divisors, no NaN)
            let defs = e.defs.clone();
            o.defs += defs.len() as u64;
            o.obligations += defs.len() as u64;
            let mut a = pcf.clone();
            a.push(F::or(defs.iter().map(|d| d.f.clone().not()).collect()));
            if e.race(&mut st, BOTH, &a, 3000, false) == Res::Unsat {
                o.discharged += defs.len() as u64;
                assume.extend(defs.iter().map(|d| d.f.clone()));
            } else {
                for d in &defs {
                    // earlier definedness obligations may be assumed
                    match prove(&mut e, &mut st, &assume, &d.f, cfg, 3000) {
                        Verdict::Proved(_) => {
                            o.discharged += 1;
                        }
                        Verdict::Refuted(m) => {
                            let mi = model_to_inputs(&e, &m);
                            let mut ms = vec![mi];
                            let mut a = assume.clone();
                            a.push(d.f.clone().not());
                            a.extend(boxed(&mut e, &d.f, 4, 0));
                            if let Res::Sat(m) = e.solve(&mut st, Which::Z3New, &a, 4000, true) {
                                ms.insert(0, model_to_inputs(&e, &m));
                            }
                            fails_here.push((format!("defined: {}", d.desc), ms, "sat".into()));
                        }
                        Verdict::Unknown if expired() => {
                            o.late = true;
                            break;
                        }
                        Verdict::Unknown => {
                            fails_here.push((format!("defined: {}", d.desc), vec![], "unknown".into()));
                        }
                    }
                    assume.push(d.f.clone());
                }
            }
        }
        // all claims of this path together
        let mut batch_ok = false;
        if e.c.cut.is_empty() && (goals.len() > 1 || !matches!(goals[0], F::Eq0(_))) {
            let mut a = assume.clone();
            a.push(F::or(goals.iter().map(|g| g.clone().not()).collect()));
            let ms = if cfg.thorough { 8000 } else { 3000 };
            if e.race(&mut st, BOTH, &a, ms, false) == Res::Unsat {
                batch_ok = true;
                if cfg.thorough {
                    cross(&e, &mut st, &a, o);
                }
            }
        }
        let mut proved = vec![];
        if batch_ok {
            for (_, cd) in &todo {
                proved.push(cd.clone());
                o.discharged += 1;
            }
        } else {
            for ((l, cd), g) in todo.iter().zip(goals.iter()) {
                let n = stt.failed_labels.get(l).copied().unwrap_or(0);
                if n >= 2 || o.failures.iter().any(|f| f.label == *l && f.reproduced.is_some()) {
                    // already reported for this harness
                    o.obligations -= 1;
                    continue;
                }
                if expired() {
                    o.late = true;
                    break;
                }
                let bank = stt.bank.get_or_insert_with(|| candidates(h, cfg));
                if let Some(cs) = bank.get(l) {
                    let cut = !e.c.cut.is_empty();
                    let cs: Vec<_> = cs.iter().filter(|c| !cut || c.0 == 0).take(3).cloned().collect();
                    if let Some(cand) = cs.iter().find(|c| refute_at(&mut e, &mut st, &assume, g, &c.1)) {
                        fails_here.push((l.clone(), vec![cand.1.clone()], "sat".into()));
                        continue;
                    }
                }
                let tp = Instant::now();
                let verdict = prove(&mut e, &mut st, &assume, g, cfg, 4000);
                if std::env::var("SYM_SLOW").is_ok() && tp.elapsed().as_secs_f64() > 1.5 {
                    eprintln!("[{}] {:.1}s '{}' proved {} goal {:?} pc {}", h.name, tp.elapsed().as_secs_f64(), l, matches!(verdict, Verdict::Proved(_)), g, pc.len());
                }
                match verdict {
                    Verdict::Proved(cert) => {
                        o.discharged += 1;
                        if cert {
                            o.certs += 1;
                        }
                        proved.push(cd.clone());
                        if cfg.thorough && !cert {
                            let mut a = assume.clone();
                            a.push(g.clone().not());
                            cross(&e, &mut st, &a, o);
                        }
                    }
                    Verdict::Unknown if expired() => {
                        o.late = true;
                        break;
                    }
                    v => {
                        let (mut ms, how) = match v {
                            Verdict::Refuted(m) => (vec![model_to_inputs(&e, &m)], "sat"),
                            _ => (vec![], "unknown"),
                        };
                        for (lim, mar) in [(4, 50), (4, 50_000), (4, 0), (100, 50)] {
                            let mut a = assume.clone();
                            a.push(g.clone().not());
                            a.extend(boxed(&mut e, g, lim, mar));
                            if let Res::Sat(m) = e.solve(&mut st, Which::Z3New, &a, 4000, true) {
                                ms.insert(0, model_to_inputs(&e, &m));
                                if ms.len() >= 3 {
                                    break;
                                }
                            }
                        }
                        fails_here.push((l.clone(), ms, how.into()));
                    }
                }
            }
        }
        drop(e);
        c.stats.merge(&st);
        for cd in proved {
            stt.done.insert(hash_of(&(pch, &cd, no_defs)));
        }
        for (label, models, how) in fails_here {
            let n = stt.failed_labels.entry(label.clone()).or_insert(0);
            *n += 1;
            if *n > 3 || o.failures.iter().any(|f| f.label == label && f.reproduced.is_some()) {
                continue;
            }
            let t = Instant::now();
            let rep = reproduce(h, &label, &models, how == "sat", cfg, &t);
            let mut f32_too = false;
            if let (Some(r), Some(f)) = (&rep, h.nat32) {
                let m: HashMap<String, f64> = r.iter().cloned().collect();
                if let Some((cl, _)) = native_run(f, &m, 1, 0, 1e-3, true) {
                    f32_too = fails(&cl, &label, label.starts_with("defined:"));
                }
            }
            if rep.is_some() && !(cfg.known)(h.prop, h.name, &label) {
                // found what was looked for: the rest is given a little longer
                crate::solver::stop_within(45.0);
                FOUND.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            o.failures.push(Failure {
                label,
                model: models.first().cloned(),
                reproduced: rep,
                solver: how,
                f32_too,
            });
        }
    }
}

/// Square roots used as angles are often a multiple of an angle already in
/// play (the norm of a logarithm).  Candidates come from a numeric probe; each
/// one is proved by the solver under the path condition before it is used.
fn find_merges(c: &mut Ctx, pc: &[Cond], asm: &[Cond], conds: &[&Cond], cache: &mut HashMap<u64, bool>, st: &mut Stats, cfg: &Cfg) {
    use crate::sym::Node;
    let mut roots = vec![];
    for x in conds {
        x.nodes(&mut roots);
    }
    let all = crate::sym::reach(c, &roots);
    let mut sq: BTreeSet<u32> = BTreeSet::new();
    let mut th: BTreeSet<u32> = BTreeSet::new();
    // whole arguments that are not sums of atoms, and what they may equal
    let mut whole: BTreeSet<u32> = BTreeSet::new();
    let mut simple: BTreeSet<u32> = BTreeSet::new();
    for n in &all {
        match c.nodes[*n as usize].clone() {
            Node::Sin(a) | Node::Cos(a) | Node::Exp(a) => {
                if let Some(p) = c.nf(a) {
                    for (m, _) in p.0.iter() {
                        match c.mono_is_single_atom(m) {
                            Some(x) => {
                                simple.insert(x);
                            }
                            None if m.is_empty() => {}
                            None => {
                                whole.insert(a);
                            }
                        }
                        if let Some(x) = c.mono_is_single_atom(m) {
                            match c.nodes[x as usize] {
                                Node::Sqrt(_) => {
                                    sq.insert(x);
                                }
                                Node::Var(_) => {
                                    th.insert(x);
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            Node::Acos(_) | Node::Atan2(..) | Node::Asin(_) => {
                th.insert(*n);
            }
            _ => {}
        }
    }
    simple.extend(th.iter().copied());
    let inverse = all.iter().any(|n| matches!(c.nodes[*n as usize], Node::Acos(_) | Node::Atan2(..) | Node::Asin(_)));
    if !inverse && (sq.is_empty() || th.is_empty()) && (whole.is_empty() || simple.is_empty()) {
        return;
    }
    // probe points
    let mut rng = 0x1234567u64;
    let mut unif = || {
        rng ^= rng << 13;
        rng ^= rng >> 7;
        rng ^= rng << 17;
        (rng >> 11) as f64 / (1u64 << 53) as f64 * 4.0 - 2.0
    };
    let mut pts: Vec<HashMap<String, f64>> = vec![];
    for _ in 0..8 {
        let mut env: HashMap<String, f64> = c.vars.iter().map(|v| (v.clone(), unif())).collect();
        for g in &c.unit_groups {
            let names: Vec<String> = g
                .iter()
                .filter_map(|n| match &c.nodes[*n as usize] {
                    Node::Var(v) => Some(v.clone()),
                    _ => None,
                })
                .collect();
            let s: f64 = names.iter().map(|n| env[n] * env[n]).sum::<f64>().sqrt();
            for n in names {
                *env.get_mut(&n).unwrap() /= s;
            }
        }
        pts.push(env);
    }
    // points on the path, and points that satisfy the assumptions
    let mut on_path = vec![];
    let mut assumed = vec![];
    if inverse {
        let rs: Vec<(u32, (f64, f64))> = c.ranges.iter().map(|(n, (a, b))| (*n, (a.to_f64().unwrap(), b.to_f64().unwrap()))).collect();
        for _ in 0..1500 {
            let mut env: HashMap<String, f64> = c.vars.iter().map(|v| (v.clone(), unif())).collect();
            for (n, (lo, hi)) in &rs {
                if let Node::Var(v) = &c.nodes[*n as usize] {
                    let x = (unif() + 2.0) / 4.0;
                    env.insert(v.clone(), (lo + (hi - lo) * x) * std::f64::consts::PI);
                }
            }
            for g in &c.unit_groups {
                let names: Vec<String> = g
                    .iter()
                    .filter_map(|n| match &c.nodes[*n as usize] {
                        Node::Var(v) => Some(v.clone()),
                        _ => None,
                    })
                    .collect();
                let s: f64 = names.iter().map(|n| env[n] * env[n]).sum::<f64>().sqrt();
                for n in names {
                    *env.get_mut(&n).unwrap() /= s;
                }
            }
            let mut memo = HashMap::new();
            if on_path.len() < 8 && pc.iter().all(|x| crate::concolic::eval_cond(c, x, &env, &mut memo) == Cond::T) {
                on_path.push(env.clone());
            }
            if assumed.len() < 8 && asm.iter().all(|x| crate::concolic::eval_cond(c, x, &env, &mut memo) == Cond::T) {
                assumed.push(env);
            }
            if on_path.len() >= 8 {
                break;
            }
        }
        if assumed.len() >= 3 {
            merge_known(c, asm, &all, &assumed, cache, st, cfg);
        }
        if on_path.len() >= 3 {
            merge_known(c, pc, &all, &on_path, cache, st, cfg);
        }
    }
    for a in whole {
        for &t in &simple {
            if crate::sym::reach(c, &[t]).binary_search(&a).is_ok() {
                continue;
            }
            let mut k: Option<f64> = None;
            let mut ok = 0;
            for env in &pts {
                let mut memo = HashMap::new();
                let va = crate::concolic::eval(c, a, env, &mut memo);
                let vt = crate::concolic::eval(c, t, env, &mut memo);
                if !va.is_finite() || !vt.is_finite() || vt == 0.0 {
                    continue;
                }
                let q = va / vt * 12.0;
                let good = match k {
                    None => {
                        k = Some(q.round());
                        (q - q.round()).abs() < 1e-6 && q.abs() > 0.5 && q.abs() < 200.0
                    }
                    Some(k) => (q - k).abs() < 1e-5,
                };
                if !good {
                    ok = -1;
                    break;
                }
                ok += 1;
            }
            if ok < 2 {
                continue;
            }
            let kq = num::BigRational::new((k.unwrap() as i64).into(), 12.into());
            let kk = c.con(kq.clone());
            let kt = c.mul(kk, t);
            let eq = Cond::Rel(sym::Rel::Eq, a, kt);
            let mut cs: Vec<&Cond> = pc.iter().collect();
            cs.push(&eq);
            let mut e = Enc::new(c, &cs);
            let pcf: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
            let fe = e.cond(&eq);
            e.finalize();
            e.pc_forms = pcf.clone();
            let defs: Vec<F> = e.defs.iter().map(|d| d.f.clone()).collect();
            let mut asm = pcf;
            let mut good = true;
            for d in defs {
                if !matches!(prove(&mut e, st, &asm, &d, cfg, 2000), Verdict::Proved(_)) {
                    good = false;
                    break;
                }
                asm.push(d);
            }
            good = good && matches!(prove(&mut e, st, &asm, &fe, cfg, 4000), Verdict::Proved(_));
            drop(e);
            if good {
                c.merge.insert(a, (t, kq));
                break;
            }
        }
    }
    for s in sq {
        let Node::Sqrt(a) = c.nodes[s as usize] else { continue };
        for &t in &th {
            let mut k: Option<f64> = None;
            let mut ok = 0;
            for env in &pts {
                let mut memo = HashMap::new();
                let va = crate::concolic::eval(c, a, env, &mut memo);
                let vt = crate::concolic::eval(c, t, env, &mut memo);
                if !va.is_finite() || !vt.is_finite() || vt == 0.0 || va < 0.0 {
                    continue;
                }
                let r = va.sqrt() / vt.abs();
                let good = match k {
                    None => {
                        let q = r * 12.0;
                        k = Some(q.round() / 12.0);
                        (q - q.round()).abs() < 1e-6 && q > 0.5 && q < 200.0
                    }
                    Some(k) => (r - k).abs() < 1e-6,
                };
                if !good {
                    ok = -1;
                    break;
                }
                ok += 1;
            }
            if ok < 2 {
                continue;
            }
            let kq = num::BigRational::new(((k.unwrap() * 12.0).round() as i64).into(), 12.into());
            let kk = c.con(kq.clone());
            let kt = c.mul(kk, t);
            let sqr = c.mul(kt, kt);
            let zero = c.int(0);
            let eq = Cond::Rel(sym::Rel::Eq, a, sqr);
            let pos = Cond::Rel(sym::Rel::Le, zero, kt);
            let neg = Cond::Rel(sym::Rel::Le, kt, zero);
            let mut cs: Vec<&Cond> = pc.iter().collect();
            cs.push(&eq);
            cs.push(&pos);
            cs.push(&neg);
            // (injectivity of the angle on (-pi, pi] is available to these proofs)
            let lemmas = c.lemmas.clone();
            let l = sym::Lemma::AngleInj(s, t);
            if !lemmas.contains(&l) {
                c.lemmas.push(l);
            }
            let mut e = Enc::new(c, &cs);
            let pcf: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
            let (fe, fp, fnn) = (e.cond(&eq), e.cond(&pos), e.cond(&neg));
            e.finalize();
            e.pc_forms = pcf.clone();
            let defs: Vec<F> = e.defs.iter().map(|d| d.f.clone()).collect();
            let mut asm = pcf;
            let mut good = true;
            e.c.lemmas = lemmas;
            for d in defs {
                if !matches!(prove(&mut e, st, &asm, &d, cfg, 2000), Verdict::Proved(_)) {
                    good = false;
                    break;
                }
                asm.push(d);
            }
            let dbg = std::env::var("SYM_DEBUG").is_ok();
            if !good || !matches!(prove(&mut e, st, &asm, &fe, cfg, 4000), Verdict::Proved(_)) {
                if dbg {
                    eprintln!("merge of node {} with {} x node {} not proved ({})", s, kq, t, good);
                }
                continue;
            }
            let sign = if matches!(prove(&mut e, st, &asm, &fp, cfg, 2000), Verdict::Proved(_)) {
                1
            } else if matches!(prove(&mut e, st, &asm, &fnn, cfg, 2000), Verdict::Proved(_)) {
                -1
            } else {
                if dbg {
                    eprintln!("merge: sign unknown");
                }
                continue;
            };
            drop(e);
            let q = if sign > 0 { kq } else { -kq };
            if dbg {
                eprintln!("merged node {} = {} x node {}", s, q, t);
            }
            let below_t = crate::sym::reach(c, &[t]);
            if below_t.binary_search(&s).is_err() {
                c.merge.insert(s, (t, q));
                break;
            } else if !c.merge.contains_key(&t) && !matches!(c.nodes[t as usize], Node::Var(_)) {
                c.merge.insert(t, (s, q.recip()));
            }
        }
    }
}

/// the goals hold on the path (with the values in them well defined)
fn proved_on_path(c: &mut Ctx, pc: &[Cond], goals: &[Cond], lemma: Option<sym::Lemma>, st: &mut Stats, cfg: &Cfg) -> bool {
    let saved = c.lemmas.clone();
    if let Some(l) = lemma {
        if !c.lemmas.contains(&l) {
            c.lemmas.push(l);
        }
    }
    let mut cs: Vec<&Cond> = pc.iter().collect();
    cs.extend(goals.iter());
    let mut e = Enc::new(c, &cs);
    let pcf: Vec<F> = pc.iter().map(|x| e.cond(x)).collect();
    let gf: Vec<F> = goals.iter().map(|x| e.cond(x)).collect();
    e.finalize();
    e.pc_forms = pcf.clone();
    let mut asm = pcf;
    let defs: Vec<F> = e.defs.iter().map(|d| d.f.clone()).collect();
    let mut ok = true;
    for d in defs {
        if !matches!(prove(&mut e, st, &asm, &d, cfg, 1500), Verdict::Proved(_)) {
            ok = false;
            break;
        }
        asm.push(d);
    }
    for g in gf {
        ok = ok && matches!(prove(&mut e, st, &asm, &g, cfg, 3000), Verdict::Proved(_));
        asm.push(g);
    }
    drop(e);
    c.lemmas = saved;
    ok
}
/// Square roots that are (up to sign) a sine, cosine, input or one, and inverse
/// functions that give an input angle back: found numerically, used once proved.
fn merge_known(c: &mut Ctx, pc: &[Cond], all: &[u32], pts: &[HashMap<String, f64>], cache: &mut HashMap<u64, bool>, st: &mut Stats, cfg: &Cfg) {
    let pch = hash_of(&pc);
    use crate::sym::Node;
    let dbg = std::env::var("SYM_DEBUG").is_ok();
    let inv: Vec<u32> = all.iter().copied().filter(|n| matches!(c.nodes[*n as usize], Node::Acos(_) | Node::Atan2(..) | Node::Asin(_))).collect();
    if inv.is_empty() {
        return;
    }
    let mut roots: Vec<u32> = all.iter().copied().filter(|n| matches!(c.nodes[*n as usize], Node::Sqrt(_))).collect();
    for n in &inv {
        if let Node::Atan2(y, x) = c.nodes[*n as usize] {
            let yy = c.mul(y, y);
            let xx = c.mul(x, x);
            let ss = c.add(xx, yy);
            roots.push(c.sqrt(ss));
        }
    }
    roots.sort_unstable();
    roots.dedup();
    let one = c.int(1);
    let zero = c.int(0);
    let mut cand: Vec<u32> = vec![one];
    cand.extend(all.iter().copied().filter(|n| matches!(c.nodes[*n as usize], Node::Sin(_) | Node::Cos(_) | Node::Var(_))));
    let val = |c: &Ctx, n: u32| -> Vec<f64> { pts.iter().map(|e| crate::concolic::eval(c, n, e, &mut HashMap::new())).collect() };
    let close = |a: &[f64], b: &[f64], k: f64| a.iter().zip(b).all(|(x, y)| (x - k * y).abs() < 1e-9 * (1.0 + x.abs()));
    let cv: Vec<(u32, Vec<f64>)> = cand.iter().map(|n| (*n, val(c, *n))).collect();
    for s in roots {
        let Node::Sqrt(a) = c.nodes[s as usize] else { continue };
        if c.merge.contains_key(&s) {
            continue;
        }
        let vs = val(c, s);
        for (t, vt) in &cv {
            let k = if close(&vs, vt, 1.0) {
                1
            } else if close(&vs, vt, -1.0) {
                -1
            } else {
                continue;
            };
            if *t >= s {
                continue;
            }
            let tt = c.mul(*t, *t);
            let sign = if k > 0 { Cond::Rel(sym::Rel::Le, zero, *t) } else { Cond::Rel(sym::Rel::Le, *t, zero) };
            let key = hash_of(&(pch, s, *t));
            let ok = match cache.get(&key) {
                Some(x) => *x,
                None => proved_on_path(c, pc, &[Cond::Rel(sym::Rel::Eq, a, tt), sign], None, st, cfg),
            };
            cache.insert(key, ok);
            if dbg {
                eprintln!("root {} = {} x node {:?}: proved {}", s, k, c.nodes[*t as usize], ok);
            }
            if ok {
                c.merge.insert(s, (*t, num::BigRational::from_integer(k.into())));
                break;
            }
        }
    }
    let others = inv.clone();
    for a in inv {
        if c.merge.contains_key(&a) {
            continue;
        }
        let va = val(c, a);
        // an input, a quarter or half turn, or another inverse function
        let mut targets: Vec<(u32, u32, num::BigRational)> = vec![];
        for (t, vt) in &cv {
            if matches!(c.nodes[*t as usize], Node::Var(_)) && close(&va, vt, 1.0) {
                targets.push((*t, *t, num::BigRational::from_integer(1.into())));
            }
        }
        let pi = c.mk(Node::Pi);
        for k in [1i64, -1, 2] {
            let q = num::BigRational::new(k.into(), 2.into());
            if va.iter().all(|x| (x - k as f64 * std::f64::consts::FRAC_PI_2).abs() < 1e-9) {
                let kq = c.con(q.clone());
                let t = c.mul(kq, pi);
                targets.push((pi, t, q));
            }
        }
        for t in &others {
            if *t < a && !c.merge.contains_key(t) && close(&va, &val(c, *t), 1.0) && crate::sym::reach(c, &[*t]).binary_search(&a).is_err() {
                targets.push((*t, *t, num::BigRational::from_integer(1.into())));
            }
        }
        for (t, whole, q) in targets {
            let key = hash_of(&(pch, a, whole));
            let ok = match cache.get(&key) {
                Some(x) => *x,
                None => proved_on_path(c, pc, &[Cond::Rel(sym::Rel::Eq, a, whole)], Some(sym::Lemma::AngleInj(a, whole)), st, cfg),
            };
            cache.insert(key, ok);
            if dbg {
                eprintln!("inverse function node {} = {} {:?}: proved {}", a, q, c.nodes[t as usize], ok);
            }
            if ok {
                c.merge.insert(a, (t, q));
                break;
            }
        }
    }
}

fn raw_confirm(c: &Ctx, cs: &[&Cond], st: &mut Stats) -> Res {
    if let Some(s) = crate::raw::script(c, cs, true) {
        if crate::solver::race(st, &[Which::Z3New], &s, &[], 3000) == Res::Unsat {
            return Res::Unsat;
        }
    }
    let Some(s) = crate::raw::script(c, cs, false) else { return Res::Unknown };
    crate::solver::race(st, BOTH, &s, &[], 5000)
}

fn cross(e: &Enc, st: &mut Stats, a: &[F], o: &mut Outcome) {
    // second opinion from an independent solver
    let r = e.solve(st, Which::Cvc5, a, 5000, false);
    if r != Res::Unknown {
        st.cross += 1;
    }
    if let Res::Sat(_) = r {
        st.cross_disagree += 1;
        o.errors.push("solvers disagree".into());
    }
}

pub fn run_harness(h: &Harness, cfg: &Cfg) -> Outcome {
    let t0 = Instant::now();
    let mut o = Outcome { name: h.name.to_string(), ..Default::default() };
    sym::CTX.with(|c| *c.borrow_mut() = Ctx::new());
    let mut pending: Vec<Vec<bool>> = vec![vec![]];
    let mut stt = State { bank: None, done: HashSet::new(), failed_labels: HashMap::new(), merge_cache: HashMap::new() };
    while let Some(prefix) = pending.pop() {
        o.late |= expired();
        if o.late {
            break;
        }
        if o.paths >= cfg.path_cap {
            o.errors.push(format!("more than {} paths", cfg.path_cap));
            break;
        }
        with(|c| c.reset_path(prefix));
        let r = catch_unwind(AssertUnwindSafe(h.sym));
        o.paths += 1;
        with(|c| {
            o.decisions += c.trace.len() as u64;
            pending.append(&mut c.pending);
        });
        if let Err(p) = r {
            if p.is::<Discard>() {
                o.dead += 1;
            } else if let Some(u) = p.downcast_ref::<Unsupported>() {
                // fine on a path that turns out to be impossible, a problem otherwise
                let l = format!("unsupported operation: {}", u.0);
                with(|c| {
                    let pc_len = c.pc.len();
                    c.claims.push(sym::Claim { label: l, cond: Cond::F, pc_len, no_defs: false, cut_len: 0 });
                });
            } else if let Some(u) = p.downcast_ref::<Incomplete>() {
                o.errors.push(u.0.clone());
                break;
            } else {
                let m = panic_msg(&p);
                if std::env::var("SYM_DEBUG").is_ok() {
                    eprintln!("[{}] panic on a path: {}", h.name, m);
                }
                with(|c| {
                    let pc_len = c.pc.len();
                    c.claims.push(sym::Claim { label: "no panic".to_string(), cond: Cond::F, pc_len, no_defs: true, cut_len: 0 });
                });
            }
        }
        // take the context out so that discharge can own it
        let mut c = sym::CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), Ctx::new()));
        let rr = catch_unwind(AssertUnwindSafe(|| discharge(h, &mut c, &mut o, &mut stt, cfg)));
        sym::CTX.with(|x| *x.borrow_mut() = c);
        if let Err(p) = rr {
            if let Some(u) = p.downcast_ref::<Unsupported>() {
                o.errors.push(format!("unsupported in encoding: {}", u.0));
            } else {
                o.errors.push(format!("internal error: {}", panic_msg(&p)));
            }
            break;
        }
    }
    with(|c| {
        o.nodes = c.nodes.len() as u64;
        o.stats.merge(&c.stats);
        o.bounds = c.bounds.clone();
    });
    if o.late && !FOUND.load(std::sync::atomic::Ordering::SeqCst) {
        o.errors.push("stopped at the time limit".into());
    }
    // non-vacuity: concrete runs of the real code that satisfy the assumptions
    for s in 0..256u64 {
        o.native_runs += 1;
        if let Some((cl, used)) = native_run(h.nat, &HashMap::new(), cfg.seed + s, s as u32, 1e-6, false) {
            o.native_ok += 1;
            for (l, _) in &cl {
                o.native_labels.insert(l.clone());
            }
            if o.concolic < 48 && !NAT.with(|n| n.borrow().discarded) {
                o.concolic += 1;
                if let Some(m) = crate::concolic::compare(h, &used, &cl) {
                    o.concolic_mismatch += 1;
                    if std::env::var("SYM_DEBUG").is_ok() {
                        eprintln!("[{}] concolic mismatch: {}", h.name, m);
                    }
                }
            }
        }
    }
    o.wall = t0.elapsed().as_secs_f64();
    o
}
