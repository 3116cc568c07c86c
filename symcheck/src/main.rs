//! symcheck <PROPERTY> [--tier quick|thorough]   decide one property
//! symcheck --replay FILE                         re-run a reported violation natively
//! symcheck --list                                harnesses
mod api;
mod concolic;
mod enc;
mod engine;
mod h;
mod json;
mod poly;
mod raw;
mod solver;
mod sym;

use engine::{Cfg, Harness, Outcome};
use json::J;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

fn root() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Known {
    prop: String,
    harness: String,
    label: String,
    what: String,
}
/// lines `known: property=<id> harness=<name> label="<label>" <what fails>`
fn known() -> Vec<Known> {
    let s = std::fs::read_to_string(root().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("known: property=") {
            let (p, r) = r.split_once(" harness=").unwrap_or((r, ""));
            let (h, r) = r.split_once(" label=\"").unwrap_or((r, ""));
            let (lb, w) = r.split_once("\" ").unwrap_or((r, ""));
            v.push(Known { prop: p.into(), harness: h.into(), label: lb.into(), what: w.into() });
        }
    }
    v
}

fn is_known(prop: &str, harness: &str, label: &str) -> bool {
    static K: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();
    K.get_or_init(known).iter().any(|k| k.prop == prop && k.harness == harness && k.label == label)
}

fn run_all(hs: &[Harness], cfg: Cfg) -> Vec<(Harness, Outcome)> {
    let next = Mutex::new(0usize);
    let out: Mutex<Vec<(usize, Outcome)>> = Mutex::new(vec![]);
    let nt = std::env::var("SYM_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|s| {
        for _ in 0..nt.min(hs.len()) {
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn_scoped(s, || loop {
                    let i = {
                        let mut n = next.lock().unwrap();
                        let i = *n;
                        *n += 1;
                        i
                    };
                    if i >= hs.len() {
                        break;
                    }
                    let o = engine::run_harness(&hs[i], &cfg);
                    if std::env::var("SYM_PROGRESS").is_ok() {
                        eprintln!(
                            "{:40} {:7.2}s paths {:4} obl {:5} ok {:5} cert {:4} nf {}/{} q {:5} fail {} err {:?} nat {}/{} conc {}/{}",
                            o.name, o.wall, o.paths, o.obligations, o.discharged, o.certs, o.nf_confirmed, o.nf_only, o.stats.queries, o.failures.len(), o.errors, o.native_ok, o.native_runs,
                            o.concolic_mismatch, o.concolic
                        );
                        for f in &o.failures {
                            eprintln!("      FAIL {} [{}] reproduced={:?}", f.label, f.solver, f.reproduced.as_ref().map(|r| fmt_in(r)));
                        }
                    }
                    out.lock().unwrap().push((i, o));
                })
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    o.into_iter().map(|(i, o)| (hs[i].clone(), o)).collect()
}

fn fmt_in(r: &[(String, f64)]) -> String {
    r.iter().map(|(k, v)| format!("{}={:e}", k, v)).collect::<Vec<_>>().join(" ")
}

fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| -> String {
        s.lines().find_map(|l| l.strip_prefix(&format!("{}: ", k)).map(|x| x.to_string())).unwrap_or_default()
    };
    let (name, label) = (get("harness"), get("claim"));
    let mut m = std::collections::HashMap::new();
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("input ") {
            if let Some((k, v)) = r.split_once(" = ") {
                if let Ok(x) = v.trim().parse::<f64>() {
                    m.insert(k.to_string(), x);
                }
            }
        }
    }
    let Some(h) = h::registry().into_iter().find(|h| h.name == name) else {
        println!("unknown harness {}", name);
        return 2;
    };
    match engine::native_run(h.nat, &m, 1, 0, 1e-6, false) {
        None => {
            println!("inputs outside the property's preconditions");
            2
        }
        Some((cl, _)) => {
            let mut bad = false;
            for (l, c) in cl {
                if l == label || c == sym::Cond::F {
                    println!("{:?}  {}", c, l);
                    bad |= c == sym::Cond::F;
                }
            }
            if !bad {
                if engine::native_fine(&h, &label, &m, 1, 0).is_some() {
                    println!("F (beyond rounding)  {}", label);
                    bad = true;
                }
            }
            bad as i32
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SYM_PANIC").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(|s| s.as_str()) == Some("--replay") {
        std::process::exit(replay(&args[1]));
    }
    if args.first().map(|s| s.as_str()) == Some("--list") {
        for h in h::registry() {
            println!("{} {} :: {}", h.prop, h.name, h.funcs);
        }
        return;
    }
    let prop = args.first().cloned().unwrap_or_default();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1;
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1;
            }
            _ => {}
        }
        i += 1;
    }
    let thorough = tier == "thorough";
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cfg = Cfg { thorough, seed, path_cap: 60000, known: is_known };
    let limit = std::env::var("SYM_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 14400.0 } else { 720.0 });
    solver::stop_within(limit);
    let t0 = Instant::now();
    let hs: Vec<Harness> = h::registry()
        .into_iter()
        .filter(|h| (prop == "all" || h.prop == prop) && (thorough || !h.thorough))
        .filter(|h| only.as_ref().map_or(true, |o| h.name.contains(o.as_str())))
        .collect();
    if hs.is_empty() {
        println!("no harness for {}", prop);
        std::process::exit(2);
    }
    let names: BTreeSet<&str> = hs.iter().map(|h| h.name).collect();
    assert!(names.len() == hs.len(), "duplicate harness names");
    let res = run_all(&hs, cfg);
    let code = report(&prop, &tier, seed, &res, t0, only.is_some());
    std::process::exit(code);
}

fn report(prop: &str, tier: &str, seed: u64, res: &[(Harness, Outcome)], t0: Instant, partial: bool) -> i32 {
    let kn = known();
    let outdir = root().join("out");
    let _ = std::fs::create_dir_all(&outdir);
    let mut violations = 0;
    let mut problems: Vec<String> = vec![];
    let mut st = solver::Stats::default();
    let mut obligations = 0;
    let mut discharged = 0;
    let mut hist: BTreeMap<String, u64> = BTreeMap::new();
    let mut harn = vec![];
    let mut bounds = BTreeSet::new();
    let mut funcs = BTreeSet::new();
    let mut printed = BTreeSet::new();
    let mut samples = vec![];
    let mut known_hits = 0u64;
    for (h, o) in res {
        st.merge(&o.stats);
        obligations += o.obligations;
        discharged += o.discharged;
        for f in h.funcs.split(", ") {
            funcs.insert(f.to_string());
        }
        for b in &o.bounds {
            bounds.insert(b.clone());
        }
        for e in &o.errors {
            problems.push(format!("{}: {}", h.name, e));
        }
        if o.labels.is_empty() && !o.late {
            problems.push(format!("{}: no path reached a claim (vacuous)", h.name));
        }
        if o.native_ok == 0 {
            problems.push(format!("{}: no concrete run satisfies the assumptions", h.name));
        }
        if o.concolic_mismatch > 0 {
            problems.push(format!("{}: encoding disagrees with the native run", h.name));
        }
        if samples.len() < 4 && !o.sample.is_empty() {
            samples.push(J::Obj(vec![("harness".into(), J::s(h.name)), ("query_head".into(), J::s(&o.sample))]));
        }
        for f in &o.failures {
            match &f.reproduced {
                Some(r) => {
                    if let Some(k) = kn.iter().find(|k| k.prop == h.prop && k.harness == h.name && k.label == f.label) {
                        known_hits += 1;
                        if printed.insert(format!("{}{}", k.harness, k.label)) {
                            println!("KNOWN-FINDING: property={} {} ({} / {})", h.prop, k.what, h.name, k.label);
                        }
                        continue;
                    }
                    violations += 1;
                    let file = outdir.join(format!("{}-{}-{}.txt", h.prop, h.name.replace(|c: char| !c.is_alphanumeric(), "_"), violations));
                    let mut s = format!(
                        "property: {}\nharness: {}\nfunctions: {}\nclaim: {}\nsolver: {}\nalso fails with f32: {}\n",
                        h.prop, h.name, h.funcs, f.label, f.solver, f.f32_too
                    );
                    for (k, v) in r {
                        s.push_str(&format!("input {} = {:?}\n", k, v));
                    }
                    s.push_str(&format!("# re-run: symcheck --replay {}\n", file.display()));
                    let _ = std::fs::write(&file, s);
                    println!("  {} [{}]: '{}' fails at {}", h.name, h.funcs, f.label, fmt_in(r));
                    println!("VIOLATION property={} replay={}", h.prop, file.display());
                }
                None => problems.push(format!("{}: '{}' neither proved nor reproduced ({}; model {:?})", h.name, f.label, f.solver, f.model)),
            }
        }
        *hist.entry("paths".into()).or_insert(0) += o.paths;
        *hist.entry("infeasible_paths".into()).or_insert(0) += o.dead;
        *hist.entry("branch_decisions".into()).or_insert(0) += o.decisions;
        *hist.entry("expression_nodes".into()).or_insert(0) += o.nodes;
        *hist.entry("claims_true_by_construction".into()).or_insert(0) += o.concrete;
        *hist.entry("claims_repeating_a_discharged_query".into()).or_insert(0) += o.cached;
        *hist.entry("normal_form_claims_confirmed_by_solver".into()).or_insert(0) += o.nf_confirmed;
        *hist.entry("normal_form_claims_not_confirmed".into()).or_insert(0) += o.nf_only;
        *hist.entry("definedness_obligations".into()).or_insert(0) += o.defs;
        *hist.entry("discharged_by_certificate".into()).or_insert(0) += o.certs;
        *hist.entry("encoder_validation_runs".into()).or_insert(0) += o.concolic;
        *hist.entry("native_witness_runs".into()).or_insert(0) += o.native_ok;
        harn.push(J::Obj(vec![
            ("name".into(), J::s(h.name)),
            ("functions".into(), J::s(h.funcs)),
            ("paths".into(), J::n(o.paths)),
            ("obligations".into(), J::n(o.obligations)),
            ("discharged".into(), J::n(o.discharged)),
            ("queries".into(), J::n(o.stats.queries)),
            ("solver_s".into(), J::F(o.stats.time)),
            ("wall_s".into(), J::F(o.wall)),
            ("claims".into(), J::Obj(o.label_counts.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect())),
        ]));
    }
    let wall = t0.elapsed().as_secs_f64();
    let by = J::Obj(st.by.iter().map(|(k, v)| (k.clone(), J::n(*v))).collect());
    let mut cov: Vec<(String, J)> = vec![
        ("explanation".into(), J::s("Symbolic execution of the compiled library code of /repo (type parameter instantiated with a symbolic scalar); every claim on every path becomes an SMT query over the reals, discharged for all values of the inputs within the listed bounds. Rounding of f32/f64 is outside these queries.")),
        ("functions_encoded".into(), J::Arr(funcs.iter().map(|x| J::s(x)).collect())),
        ("bounds".into(), J::Arr(bounds.iter().map(|x| J::s(x)).collect())),
        ("obligations".into(), J::n(obligations)),
        ("discharged".into(), J::n(discharged)),
        ("solver_queries".into(), J::n(st.queries)),
        ("solver_unsat".into(), J::n(st.unsat)),
        ("solver_sat".into(), J::n(st.sat)),
        ("solver_unknown".into(), J::n(st.unknown)),
        ("solver_seconds".into(), J::F(st.time)),
        ("solver_slowest_query_s".into(), J::F(st.max_time)),
        ("queries_by_solver".into(), by),
        ("cross_checked_by_second_solver".into(), J::n(st.cross)),
        ("known_finding_hits".into(), J::n(known_hits)),
    ];
    for (k, v) in &hist {
        cov.push((k.clone(), J::n(*v)));
    }
    cov.push(("samples".into(), J::Arr(samples)));
    cov.push(("harnesses".into(), J::Arr(harn)));
    if let Ok(extra) = std::env::var("SYM_EXTRA") {
        // result lines of the bit-precise leg of the same check
        cov.push(("bit_precise_leg".into(), J::Arr(extra.lines().map(J::s).collect())));
    }
    let ev = J::Obj(vec![
        ("property".into(), J::s(prop)),
        ("tier".into(), J::s(tier)),
        ("seed".into(), J::n(seed)),
        ("level".into(), J::s("other")),
        ("coverage".into(), J::Obj(cov)),
        (
            "assumptions".into(),
            J::Arr(
                [
                    "scalars are exact reals (field/ordered-field semantics of Num/Float); floating-point rounding, overflow and signed zeros are outside",
                    "library constants (epsilon, tolerances) take their f64 values",
                    "sin, cos, acos, asin, atan2, exp, ln, sqrt satisfy the axioms listed in DESIGN.md",
                    "rustc compiles the generic code for the symbolic scalar as it does for f64",
                    "the SMT solvers (z3 5.x, z3 4.8, cvc5) answer unsat only when unsat",
                ]
                .iter()
                .map(|x| J::s(x))
                .collect(),
            ),
        ),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::n(violations)),
    ]);
    if !partial && prop != "all" {
        let d = root().join("evidence");
        let _ = std::fs::create_dir_all(&d);
        if std::fs::write(d.join(format!("{}.json", prop)), ev.to_string() + "\n").is_err() {
            problems.push("cannot write evidence".into());
        }
    }
    println!(
        "{}: {} harnesses, {} obligations, {} discharged, {} queries, {:.1}s solver, {:.1}s wall, {} violations, {} problems",
        prop,
        res.len(),
        obligations,
        discharged,
        st.queries,
        st.time,
        wall,
        violations,
        problems.len()
    );
    for p in &problems {
        println!("  PROBLEM {}", p);
    }
    if violations > 0 {
        1
    } else if !problems.is_empty() {
        2
    } else {
        0
    }
}
