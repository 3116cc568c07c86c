//! Encoder validation: the symbolic run is steered by concrete inputs and its
//! claims, evaluated numerically over the DAG, must agree with the native run.
use crate::engine::Harness;
use crate::sym::{self, Cond, Ctx, Node, Rel};
use num::ToPrimitive;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn eval(c: &Ctx, n: u32, env: &HashMap<String, f64>, memo: &mut HashMap<u32, f64>) -> f64 {
    if let Some(v) = memo.get(&n) {
        return *v;
    }
    let v = match &c.nodes[n as usize] {
        Node::Const(r) => r.to_f64().unwrap_or(f64::NAN),
        Node::Inf(s) => {
            if *s {
                f64::NEG_INFINITY
            } else {
                f64::INFINITY
            }
        }
        Node::NaN => f64::NAN,
        Node::Pi => std::f64::consts::PI,
        Node::Var(v) => *env.get(v).unwrap_or(&0.0),
        Node::Add(a, b) => eval(c, *a, env, memo) + eval(c, *b, env, memo),
        Node::Sub(a, b) => eval(c, *a, env, memo) - eval(c, *b, env, memo),
        Node::Mul(a, b) => eval(c, *a, env, memo) * eval(c, *b, env, memo),
        Node::Div(a, b) => eval(c, *a, env, memo) / eval(c, *b, env, memo),
        Node::Neg(a) => -eval(c, *a, env, memo),
        Node::Abs(a) => eval(c, *a, env, memo).abs(),
        Node::Sqrt(a) => eval(c, *a, env, memo).sqrt(),
        Node::Sin(a) => eval(c, *a, env, memo).sin(),
        Node::Cos(a) => eval(c, *a, env, memo).cos(),
        Node::Acos(a) => eval(c, *a, env, memo).acos(),
        Node::Asin(a) => eval(c, *a, env, memo).asin(),
        Node::Atan2(a, b) => eval(c, *a, env, memo).atan2(eval(c, *b, env, memo)),
        Node::Exp(a) => eval(c, *a, env, memo).exp(),
        Node::Ln(a) => eval(c, *a, env, memo).ln(),
    };
    memo.insert(n, v);
    v
}
fn rel(r: Rel, a: f64, b: f64) -> Cond {
    if a.is_nan() || b.is_nan() {
        return Cond::Unsure;
    }
    if a != b && (a - b).abs() < 1e-7 * (1.0 + a.abs() + b.abs()) {
        return Cond::Unsure;
    }
    Cond::from(match r {
        Rel::Lt => a < b,
        Rel::Le => a <= b,
        Rel::Eq => a == b,
    })
}
pub fn eval_cond(c: &Ctx, x: &Cond, env: &HashMap<String, f64>, memo: &mut HashMap<u32, f64>) -> Cond {
    match x {
        Cond::Rel(r, a, b) => {
            let (a, b) = (eval(c, *a, env, memo), eval(c, *b, env, memo));
            rel(*r, a, b)
        }
        Cond::And(v) => Cond::and(v.iter().map(|y| eval_cond(c, y, env, memo)).collect()),
        Cond::Or(v) => Cond::or(v.iter().map(|y| eval_cond(c, y, env, memo)).collect()),
        Cond::Not(y) => eval_cond(c, y, env, memo).not(),
        y => y.clone(),
    }
}

/// None: agreement.  Some(description) otherwise.
pub fn compare(h: &Harness, used: &[(String, f64)], native: &[(String, Cond)]) -> Option<String> {
    let env: HashMap<String, f64> = used.iter().cloned().collect();
    let saved = sym::CTX.with(|c| {
        let mut n = Ctx::new();
        n.oracle = Some(env.clone());
        std::mem::replace(&mut *c.borrow_mut(), n)
    });
    let r = catch_unwind(AssertUnwindSafe(h.sym));
    let ctx = sym::CTX.with(|c| std::mem::replace(&mut *c.borrow_mut(), saved));
    let mut cl: Vec<(String, Cond)> = vec![];
    let mut memo = HashMap::new();
    for k in &ctx.claims {
        let v = eval_cond(&ctx, &k.cond, &env, &mut memo);
        cl.push((k.label.clone(), v));
    }
    if ctx.close_call {
        return None; // a branch was decided by a rounding-level difference
    }
    if let Err(p) = r {
        if p.is::<sym::Discard>() || p.is::<sym::Unsupported>() || p.is::<sym::Incomplete>() {
            return None;
        }
        cl.push(("no panic".into(), Cond::F));
    }
    if cl.len() != native.len() {
        return Some(format!("{} claims symbolically, {} natively", cl.len(), native.len()));
    }
    for (a, b) in cl.iter().zip(native.iter()) {
        if a.0 != b.0 {
            return Some(format!("claim order differs: {} / {}", a.0, b.0));
        }
        match (&a.1, &b.1) {
            (Cond::T, Cond::F) | (Cond::F, Cond::T) => return Some(format!("{}: {:?} vs native {:?} at {:?}", a.0, a.1, b.1, used)),
            _ => {}
        }
    }
    None
}
