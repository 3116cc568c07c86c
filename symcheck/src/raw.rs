//! Direct, un-normalised SMT-LIB rendering of claims.  Used to have the solver
//! itself confirm the claims that the encoder's polynomial normal form already
//! settles: nothing of that normal form is involved here.  Functions other
//! than + - * / are opaque constants (an identity that holds for every value
//! of them holds for theirs); divisors are asserted non-zero (their
//! definedness is a separate obligation).
use crate::sym::{Cond, Ctx, Node, Rel};
use std::collections::HashSet;
use std::fmt::Write;

fn rat(r: &num::BigRational) -> String {
    use num::Signed;
    let n = r.numer().abs();
    let s = if r.denom() == &num::BigInt::from(1) { format!("{}.0", n) } else { format!("(/ {}.0 {}.0)", n, r.denom()) };
    if r.is_negative() {
        format!("(- {})", s)
    } else {
        s
    }
}
pub fn cond(c: &Cond) -> String {
    match c {
        Cond::T => "true".into(),
        Cond::F => "false".into(),
        Cond::Unsure => "false".into(),
        Cond::Rel(r, a, b) => {
            let op = match r {
                Rel::Lt => "<",
                Rel::Le => "<=",
                Rel::Eq => "=",
            };
            format!("({} n{} n{})", op, a, b)
        }
        Cond::And(v) => format!("(and {})", v.iter().map(cond).collect::<Vec<_>>().join(" ")),
        Cond::Or(v) => format!("(or {})", v.iter().map(cond).collect::<Vec<_>>().join(" ")),
        Cond::Not(x) => format!("(not {})", cond(x)),
    }
}
/// None when a claim mentions a non-finite constant.  `linear`: products of two
/// non-constant nodes are opaque constants too, one per pair of nodes, and a
/// quotient q = a/b is the number whose product with b is a (weaker than the
/// truth, so that only unsat counts; linear arithmetic)
pub fn script(c: &Ctx, conds: &[&Cond], linear: bool) -> Option<String> {
    render(c, &[], conds, linear, false).map(|x| x.0)
}
fn unsure(c: &Cond) -> bool {
    match c {
        Cond::Unsure => true,
        Cond::And(v) | Cond::Or(v) => v.iter().any(unsure),
        Cond::Not(x) => unsure(x),
        _ => false,
    }
}
/// the goals, and that no divisor is zero, from the path condition with
/// opaque products (None when a function with a partial domain is involved);
/// also the number of divisors
pub fn on_path(c: &Ctx, pc: &[&Cond], goals: &[&Cond], defs: bool) -> Option<(String, u64)> {
    render(c, pc, goals, true, defs)
}
fn render(c: &Ctx, pc: &[&Cond], conds: &[&Cond], linear: bool, defs: bool) -> Option<(String, u64)> {
    if pc.iter().any(|x| unsure(x)) {
        return None;
    }
    let mut divs: Vec<u32> = vec![];
    let mut roots = vec![];
    for x in pc.iter().chain(conds) {
        x.nodes(&mut roots);
    }
    let mut seen = HashSet::new();
    let mut order = vec![];
    let mut stack: Vec<(u32, bool)> = roots.iter().map(|r| (*r, false)).collect();
    while let Some((n, done)) = stack.pop() {
        if done {
            order.push(n);
            continue;
        }
        if !seen.insert(n) {
            continue;
        }
        stack.push((n, true));
        if c.cut.contains(&n) {
            continue;
        }
        if let Some((t, _)) = c.merge.get(&n) {
            stack.push((*t, false));
            continue;
        }
        match &c.nodes[n as usize] {
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => {
                stack.push((*a, false));
                stack.push((*b, false));
            }
            Node::Neg(a) => stack.push((*a, false)),
            Node::Inf(_) | Node::NaN => return None,
            Node::Const(_) | Node::Var(_) | Node::Abs(_) => {}
            _ if defs => return None,
            _ => {}
        }
        if let Node::Div(_, b) = &c.nodes[n as usize] {
            divs.push(*b);
        }
    }
    divs.sort_unstable();
    divs.dedup();
    let mut s = String::new();
    let mut prods: HashSet<(u32, u32)> = HashSet::new();
    let mut prod = |s: &mut String, a: u32, b: u32| {
        let (a, b) = (a.min(b), a.max(b));
        if prods.insert((a, b)) {
            let _ = writeln!(s, "(declare-const p{}_{} Real)", a, b);
        }
        format!("p{}_{}", a, b)
    };
    let konst = |n: u32| matches!(c.nodes[n as usize], Node::Const(_));
    for n in order {
        if c.cut.contains(&n) {
            let _ = writeln!(s, "(declare-const n{} Real)", n);
            continue;
        }
        if let Some((t, q)) = c.merge.get(&n) {
            let _ = writeln!(s, "(define-fun n{} () Real (* {} n{}))", n, rat(q), t);
            continue;
        }
        let e = match &c.nodes[n as usize] {
            Node::Const(r) => rat(r),
            Node::Add(a, b) => format!("(+ n{} n{})", a, b),
            Node::Sub(a, b) => format!("(- n{} n{})", a, b),
            Node::Mul(a, b) if linear && !konst(*a) && !konst(*b) => prod(&mut s, *a, *b),
            Node::Div(a, b) if linear => {
                let _ = writeln!(s, "(declare-const n{} Real)", n);
                let p = prod(&mut s, n, *b);
                let _ = writeln!(s, "(assert (= {} n{}))", p, a);
                continue;
            }
            Node::Mul(a, b) => format!("(* n{} n{})", a, b),
            Node::Div(a, b) => {
                let _ = writeln!(s, "(assert (not (= n{} 0.0)))", b);
                format!("(/ n{} n{})", a, b)
            }
            Node::Neg(a) => format!("(- n{})", a),
            _ => {
                let _ = writeln!(s, "(declare-const n{} Real)", n);
                continue;
            }
        };
        let _ = writeln!(s, "(define-fun n{} () Real {})", n, e);
    }
    for x in pc {
        let _ = writeln!(s, "(assert {})", cond(x));
    }
    let mut goals: Vec<String> = conds.iter().map(|x| cond(x)).collect();
    let n = if defs { divs.len() as u64 } else { 0 };
    if defs {
        goals.extend(divs.iter().map(|b| format!("(not (= n{} 0.0))", b)));
    }
    let _ = writeln!(s, "(assert (not (and {})))", goals.join(" "));
    Some((s, n))
}
