//! Replays the bytes of a counterexample on the compiled library.
//! bitcheck NAME FILE: exit 1 if a claim fails (or the code panics), 0 if none does, 2 if
//! the bytes do not satisfy the assumptions.
use bitcheck::{table, Src};

struct Bytes {
    vals: Vec<Vec<u8>>,
    at: usize,
    failed: Option<&'static str>,
}
struct Skip;
impl Bytes {
    fn take(&mut self, n: usize) -> u64 {
        let v = self.vals.get(self.at).cloned().unwrap_or_default();
        self.at += 1;
        v.iter().take(n).enumerate().map(|(i, b)| (*b as u64) << (8 * i)).sum()
    }
}
impl Src for Bytes {
    fn b(&mut self) -> bool {
        self.take(1) & 1 == 1
    }
    fn u32(&mut self) -> u32 {
        self.take(4) as u32
    }
    fn u64(&mut self) -> u64 {
        self.take(8)
    }
    fn assume(&mut self, c: bool) {
        if !c {
            std::panic::panic_any(Skip)
        }
    }
    fn claim(&mut self, c: bool, what: &'static str) {
        if !c && self.failed.is_none() {
            self.failed = Some(what)
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    // one value per line, bytes separated by blanks
    let vals = text.lines().filter(|l| !l.starts_with('#')).map(|l| l.split_whitespace().filter_map(|x| x.parse().ok()).collect()).collect();
    let t = table::<Bytes>();
    let h = t.iter().find(|x| x.1 == a[1]).expect("harness");
    let mut s = Bytes { vals, at: 0, failed: None };
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (h.2)(&mut s)));
    if let Some(w) = s.failed {
        println!("fails: {}", w);
        std::process::exit(1);
    }
    match r {
        Ok(()) => std::process::exit(0),
        Err(e) if e.is::<Skip>() => std::process::exit(2),
        Err(_) => {
            println!("fails: no panic");
            std::process::exit(1)
        }
    }
}
