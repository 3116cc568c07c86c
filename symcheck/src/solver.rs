//! Running SMT solvers as child processes.
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub unsat: u64,
    pub sat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub cross: u64,
    pub cross_disagree: u64,
    pub by: HashMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.unsat += o.unsat;
        self.sat += o.sat;
        self.unknown += o.unknown;
        self.time += o.time;
        self.cross += o.cross;
        self.cross_disagree += o.cross_disagree;
        if o.max_time > self.max_time {
            self.max_time = o.max_time;
        }
        for (k, v) in &o.by {
            *self.by.entry(k.clone()).or_insert(0) += v;
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unsat,
    Sat(HashMap<String, f64>),
    Unknown,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Which {
    Z3New,
    Z3NewNlsat,
    Z3Old,
    Cvc5,
}
impl Which {
    pub fn name(self) -> &'static str {
        match self {
            Which::Z3New => "z3-5",
            Which::Z3NewNlsat => "z3-5/nlsat",
            Which::Z3Old => "z3-4.8",
            Which::Cvc5 => "cvc5",
        }
    }
}

/// the whole run's time limit, in milliseconds since the first use
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static START: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    START.get_or_init(Instant::now).elapsed().as_millis() as u64
}
pub fn stop_within(secs: f64) {
    LIMIT.fetch_min(now_ms() + (secs * 1e3) as u64, Ordering::SeqCst);
}
pub fn expired() -> bool {
    now_ms() >= LIMIT.load(Ordering::SeqCst)
}
fn left_ms() -> u64 {
    LIMIT.load(Ordering::SeqCst).saturating_sub(now_ms())
}

struct Proc {
    child: std::process::Child,
    rd: std::thread::JoinHandle<String>,
}
fn start(which: Which, script: &str, timeout_ms: u64) -> Option<Proc> {
    let mut cmd;
    match which {
        Which::Z3New | Which::Z3NewNlsat => {
            cmd = Command::new("z3-new");
            cmd.arg("-in").arg(format!("-t:{}", timeout_ms)).arg("-memory:2500");
        }
        Which::Z3Old => {
            cmd = Command::new("/usr/bin/z3");
            cmd.arg("-in").arg(format!("-t:{}", timeout_ms)).arg("-memory:2500");
        }
        Which::Cvc5 => {
            cmd = Command::new("cvc5");
            cmd.arg("--lang=smt2").arg(format!("--tlimit={}", timeout_ms)).arg("--produce-models");
        }
    }
    let mut child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut stdin = child.stdin.take().unwrap();
    let s = script.to_string();
    std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            let _ = stdin.write_all(s.as_bytes());
        })
        .ok()?;
    let mut out = child.stdout.take().unwrap();
    let rd = std::thread::Builder::new()
        .stack_size(256 << 10)
        .spawn(move || {
            let mut b = String::new();
            let _ = out.read_to_string(&mut b);
            b
        })
        .ok()?;
    Some(Proc { child, rd })
}

fn full_script(which: Which, body: &str, vars: &[String]) -> String {
    let mut s = String::new();
    s.push_str("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n");
    if which == Which::Cvc5 {
        s.clear();
        s.push_str("(set-option :produce-models true)\n(set-logic QF_NRA)\n");
    }
    s.push_str(body);
    if which == Which::Z3NewNlsat {
        s.push_str("(check-sat-using (then simplify purify-arith solve-eqs qfnra-nlsat))\n");
    } else {
        s.push_str("(check-sat)\n");
    }
    if !vars.is_empty() {
        s.push_str("(get-value (");
        for v in vars {
            s.push_str(v);
            s.push(' ');
        }
        s.push_str("))\n");
    }
    s
}

static DUMP: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn verdict(st: &mut Stats, which: Which, out: &str) -> Res {
    let _ = &st;
    let first = out.trim_start();
    if first.starts_with("unsat") {
        *st.by.entry(which.name().to_string()).or_insert(0) += 1;
        Res::Unsat
    } else if first.starts_with("sat") {
        *st.by.entry(which.name().to_string()).or_insert(0) += 1;
        Res::Sat(parse_model(&first[3..]))
    } else {
        if first.starts_with("(error") && std::env::var("SYM_DEBUG").is_ok() {
            eprintln!("solver error: {}", first.lines().next().unwrap_or(""));
        }
        Res::Unknown
    }
}

/// the solvers run side by side (the first has a short head start); the first
/// definite answer counts
pub fn race(st: &mut Stats, which: &[Which], body: &str, vars: &[String], timeout_ms: u64) -> Res {
    race_with(st, which, body, None, vars, timeout_ms)
}
/// `weaker`: a relaxation of the query; only its `unsat` counts
pub fn race_with(st: &mut Stats, which: &[Which], body: &str, weaker: Option<&str>, vars: &[String], timeout_ms: u64) -> Res {
    if expired() {
        return Res::Unknown;
    }
    let timeout_ms = timeout_ms.min(left_ms().max(200));
    let t0 = Instant::now();
    let mut running: Vec<(Which, Proc)> = vec![];
    let mut relaxed: Vec<Proc> = vec![];
    let mut weaker = weaker;
    let mut next = 0;
    let mut res = Res::Unknown;
    let mut nap = 1u64;
    let mut who = "";
    loop {
        let el = t0.elapsed().as_millis() as u64;
        if next < which.len() && (running.is_empty() || el >= 120) {
            let w = which[next];
            next += 1;
            if let Some(p) = start(w, &full_script(w, body, vars), timeout_ms.saturating_sub(el).max(100)) {
                running.push((w, p));
            }
            continue;
        }
        if el >= 120 {
            if let Some(b) = weaker.take() {
                for w in [Which::Z3New, Which::Cvc5] {
                    if let Some(p) = start(w, &full_script(w, b, &[]), timeout_ms.saturating_sub(el).max(100)) {
                        relaxed.push(p);
                    }
                }
            }
        }
        let mut i = 0;
        while i < relaxed.len() {
            if !matches!(relaxed[i].child.try_wait(), Ok(None)) {
                let mut p = relaxed.remove(i);
                let _ = p.child.wait();
                let out = p.rd.join().unwrap_or_default();
                if out.trim_start().starts_with("unsat") {
                    *st.by.entry("relaxed query".to_string()).or_insert(0) += 1;
                    res = Res::Unsat;
                    who = "relaxed";
                    break;
                }
                continue;
            }
            i += 1;
        }
        if res != Res::Unknown {
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let done = !matches!(running[i].1.child.try_wait(), Ok(None));
            let late = el > timeout_ms + 2000;
            if done || late {
                let (w, mut p) = running.remove(i);
                if late {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
                let out = p.rd.join().unwrap_or_default();
                if done {
                    let r = verdict(st, w, &out);
                    if r != Res::Unknown {
                        res = r;
                        who = w.name();
                        break;
                    }
                }
                continue;
            }
            i += 1;
        }
        if res != Res::Unknown || (running.is_empty() && next >= which.len()) {
            break;
        }
        if running.is_empty() {
            continue;
        }
        std::thread::sleep(Duration::from_millis(nap));
        if nap < 8 {
            nap += 1
        }
    }
    for mut p in running.into_iter().map(|x| x.1).chain(relaxed) {
        let _ = p.child.kill();
        let _ = p.child.wait();
        let _ = p.rd.join();
    }
    let t = t0.elapsed().as_secs_f64();
    st.queries += 1;
    st.time += t;
    if t > st.max_time {
        st.max_time = t;
    }
    match &res {
        Res::Unsat => st.unsat += 1,
        Res::Sat(_) => st.sat += 1,
        Res::Unknown => st.unknown += 1,
    }
    if std::env::var("SYM_DUMP").is_ok() {
        let n = DUMP.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let _ = std::fs::create_dir_all("/tmp/symdump");
        let _ = std::fs::write(
            format!("/tmp/symdump/{:05}.smt2", n),
            format!("{}\n; {} by {} {:.2}s asked {:?}", full_script(which[0], body, vars), match res { Res::Unsat => "unsat", Res::Sat(_) => "sat", _ => "unknown" }, who, t, which),
        );
    }
    res
}

pub fn check(st: &mut Stats, which: Which, body: &str, vars: &[String], timeout_ms: u64) -> Res {
    race(st, &[which], body, vars, timeout_ms)
}

fn tokenize(s: &str) -> Vec<String> {
    let mut v = vec![];
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                v.push(ch.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}
fn parse_num(t: &[String], i: &mut usize) -> Option<f64> {
    if t.get(*i)? == "(" {
        *i += 1;
        let op = t.get(*i)?.clone();
        *i += 1;
        let mut args = vec![];
        while t.get(*i)? != ")" {
            args.push(parse_num(t, i)?);
        }
        *i += 1;
        return match (op.as_str(), args.len()) {
            ("-", 1) => Some(-args[0]),
            ("-", 2) => Some(args[0] - args[1]),
            ("/", 2) => Some(args[0] / args[1]),
            ("+", _) => Some(args.iter().sum()),
            ("*", _) => Some(args.iter().product()),
            _ => None,
        };
    }
    let x = t[*i].trim_end_matches('?').parse::<f64>().ok();
    *i += 1;
    x
}
fn skip(t: &[String], i: &mut usize) {
    let mut d = 0;
    while *i < t.len() {
        if t[*i] == "(" {
            d += 1
        } else if t[*i] == ")" {
            d -= 1
        }
        *i += 1;
        if d <= 0 {
            return;
        }
    }
}
fn parse_model(s: &str) -> HashMap<String, f64> {
    let t = tokenize(s);
    let mut m = HashMap::new();
    let mut i = 1;
    while i + 2 < t.len() {
        if t[i] == "(" {
            let name = t[i + 1].clone();
            let mut j = i + 2;
            if let Some(x) = parse_num(&t, &mut j) {
                m.insert(name, x);
                i = j + 1;
                continue;
            }
            skip(&t, &mut i);
        } else {
            i += 1;
        }
    }
    m
}
