//! Worker shared by the monitor crates: runs monitored cases of one property.
//!   mon run <prop> --seed S --tier T --start K --stride N --cases C --secs X --out FILE
//!   mon known <prop> --name <finding>
//!   mon case <prop> --seed S --tier T --index I
use crate::rng::{fnv, Rng};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

pub struct Fail {
    pub msg: String,
}

pub type Res = Result<(), Fail>;

pub fn fail<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into() })
}

pub struct Ctx {
    pub rng: Rng,
    pub index: u64,
    pub thorough: bool,
    pub n: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// what the current case is, for the report of a failure
    pub what: Vec<(&'static str, String)>,
    pub max_used: u64,
    pub verbose: bool,
}

impl Ctx {
    pub fn count(&mut self, k: &'static str, by: u64) {
        *self.n.entry(k).or_insert(0) += by;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
    /// One evaluation the monitor actually judged; `h` identifies it.
    pub fn judged(&mut self, h: u64, nontrivial: bool) {
        self.count("evaluations", 1);
        if nontrivial {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut x = s();
            if x.len() > 600 {
                let mut i = 600;
                while !x.is_char_boundary(i) {
                    i -= 1;
                }
                x.truncate(i);
                x.push_str(" ...");
            }
            self.samples.push(x);
        }
    }
    pub fn on(&mut self, k: &'static str, v: String) {
        if self.verbose {
            println!("{k}: {v}");
        }
        if let Some(e) = self.what.iter_mut().find(|e| e.0 == k) {
            e.1 = v;
        } else {
            self.what.push((k, v));
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Verdict {
    Held,
    Violated(String),
    Harness(String),
}

fn one(k: &Kit, f: CaseFn, ctx: &mut Ctx) -> Verdict {
    ctx.what.clear();
    (k.set_budget)(k.budget);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
    ctx.max_used = ctx.max_used.max((k.used)());
    (k.set_budget)(u64::MAX);
    match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) => Verdict::Violated(e.msg),
        Err(p) => {
            if (k.is_budget)(p.as_ref()) {
                return Verdict::Violated(format!(
                    "no result within {} symbol operations (the largest case of the unchanged tree needs far less): does not terminate",
                    k.budget
                ));
            }
            let (m, l) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // panics of the generators and the reference are errors of the check; one of the
            // judging code means the code under test left something no run of it can leave
            if k.judges.iter().any(|j| l.starts_with(j)) {
                Verdict::Violated(format!("what the code under test left cannot be judged: panic at {l}: {m}"))
            } else if l.starts_with("src/") || l.contains("mon/src/") {
                Verdict::Harness(format!("harness panicked at {l}: {m}"))
            } else {
                Verdict::Violated(format!("panicked at {l}: {m}"))
            }
        }
    }
}

pub type CaseFn = fn(&mut Ctx) -> Res;

/// Runs a part of a case in a thread with a stack of its own size; panics come through as they are.
#[allow(dead_code)]
pub fn on_stack(bytes: usize, ctx: &mut Ctx, f: CaseFn) -> Res {
    let r = std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(bytes).spawn_scoped(s, || {
            let r = catch_unwind(AssertUnwindSafe(|| f(ctx)));
            r.map_err(|p| (p, PANIC.with(|p| p.borrow_mut().take())))
        });
        t.expect("a thread").join().expect("panics are caught inside")
    });
    match r {
        Ok(r) => r,
        Err((p, what)) => {
            PANIC.with(|p| *p.borrow_mut() = what);
            std::panic::resume_unwind(p)
        }
    }
}

/// What a monitor crate brings.
pub struct Kit {
    pub all: &'static [(&'static str, CaseFn)],
    pub known: fn(&str, &str) -> Option<String>,
    /// logical step budget of a case
    pub budget: u64,
    pub set_budget: fn(u64),
    pub used: fn() -> u64,
    pub is_budget: fn(&(dyn Any + Send)) -> bool,
    /// source files whose panics come from what the code under test left
    pub judges: &'static [&'static str],
}

pub fn main(k: &'static Kit) {
    // the trees of long inputs are dropped recursively
    let t = std::thread::Builder::new().stack_size(1 << 30).spawn(move || work(k)).expect("thread");
    if t.join().is_err() {
        std::process::exit(2);
    }
}

fn work(k: &Kit) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((m, l)));
    }));
    let prop = a.get(2).cloned().unwrap_or_default();
    let Some((_, f)) = k.all.iter().find(|p| p.0 == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    if a[1] == "known" {
        let name = arg(&a, "--name").expect("--name");
        match (k.known)(&prop, &name) {
            Some(l) => println!("{l}"),
            None => {
                println!("{name} does not fail as listed");
                std::process::exit(1);
            }
        }
        return;
    }
    let seed: u64 = arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = arg(&a, "--tier").as_deref() == Some("thorough");
    let mut ctx = Ctx {
        rng: Rng::new(0, 0),
        index: 0,
        thorough,
        n: BTreeMap::new(),
        distinct: HashSet::new(),
        samples: vec![],
        what: vec![],
        max_used: 0,
        verbose: a[1] == "case",
    };
    let stream = |i: u64| Rng::new(seed ^ fnv(prop.as_bytes()), i);
    if a[1] == "case" {
        let i: u64 = arg(&a, "--index").and_then(|s| s.parse().ok()).expect("--index");
        ctx.rng = stream(i);
        ctx.index = i;
        let v = one(k, *f, &mut ctx);
        println!("symbol operations: {}", ctx.max_used);
        match v {
            Verdict::Held => println!("held"),
            Verdict::Violated(m) => {
                println!("violated: {m}");
                std::process::exit(1);
            }
            Verdict::Harness(m) => {
                println!("harness error: {m}");
                std::process::exit(2);
            }
        }
        return;
    }
    let start: u64 = arg(&a, "--start").and_then(|s| s.parse().ok()).unwrap_or(0);
    let stride: u64 = arg(&a, "--stride").and_then(|s| s.parse().ok()).unwrap_or(1);
    let cases: u64 = arg(&a, "--cases").and_then(|s| s.parse().ok()).unwrap_or(1000);
    let secs: u64 = arg(&a, "--secs").and_then(|s| s.parse().ok()).unwrap_or(60);
    let out = arg(&a, "--out").expect("--out");
    let progress = format!("{out}.progress");
    let pf = std::fs::File::create(&progress).expect("progress file");
    let t0 = Instant::now();
    let mut bad: Vec<String> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut i = start;
    let mut slowest = (0u128, 0u64);
    while i < cases {
        if t0.elapsed().as_secs() >= secs {
            break;
        }
        {
            use std::os::unix::fs::FileExt;
            let _ = pf.write_at(format!("{i:<20}\n").as_bytes(), 0);
        }
        ctx.rng = stream(i);
        ctx.index = i;
        let c0 = Instant::now();
        let v = one(k, *f, &mut ctx);
        let d = c0.elapsed().as_micros();
        if d > slowest.0 {
            slowest = (d, i);
        }
        ctx.count("cases", 1);
        match v {
            Verdict::Held => {}
            Verdict::Violated(m) => {
                let what: Vec<String> = ctx.what.iter().map(|(k, w)| format!("{}: {}", esc(k), esc(w))).collect();
                bad.push(format!("{{\"index\": {i}, \"message\": {}, \"what\": {{{}}}}}", esc(&m), what.join(", ")));
            }
            Verdict::Harness(m) => harness.push(format!("{{\"index\": {i}, \"message\": {}}}", esc(&m))),
        }
        if bad.len() >= 3 || harness.len() >= 3 || ctx.max_used >= k.budget {
            break;
        }
        i += stride;
    }
    ctx.n.insert("max_symbol_operations_in_a_case", ctx.max_used);
    ctx.n.insert("max_case_micros", slowest.0 as u64);
    let mut o = std::fs::File::create(&out).expect("out file");
    let counters: Vec<String> = ctx.n.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    let samples: Vec<String> = ctx.samples.iter().map(|s| esc(s)).collect();
    let hashes: Vec<String> = ctx.distinct.iter().map(|h| format!("\"{h:x}\"")).collect();
    let _ = writeln!(
        o,
        "{{\"counters\": {{{}}}, \"violations\": [{}], \"harness\": [{}], \"samples\": [{}], \"slowest\": {}, \"next\": {i}, \"distinct\": [{}]}}",
        counters.join(", "),
        bad.join(", "),
        harness.join(", "),
        samples.join(", "),
        slowest.1,
        hashes.join(",")
    );
}
