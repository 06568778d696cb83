//! Case runner: one worker process executes a slice of a property's cases.

use crate::rng::Rng;
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::Write as _,
    os::unix::fs::FileExt,
    panic::{catch_unwind, AssertUnwindSafe},
    time::Instant,
};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken; `sig` names the kind of violation stably.
    Violation { sig: String, detail: String },
    /// The case decides nothing.
    Skip(&'static str),
}

pub type R<T = ()> = Result<T, Fail>;

pub fn violation<T>(sig: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Fail::Violation { sig: sig.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! check {
    ($c:expr, $sig:expr, $($t:tt)*) => {
        if !$c {
            return $crate::run::violation($sig, format!($($t)*));
        }
    };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Cx {
    pub rng: Rng,
    pub tier: Tier,
    /// counters of what the monitors observed
    pub ev: BTreeMap<String, u64>,
    keys: Vec<u64>,
    sample: Option<String>,
    pub want_sample: bool,
}

impl Cx {
    pub fn new(rng: Rng, tier: Tier) -> Cx {
        Cx { rng, tier, ev: BTreeMap::new(), keys: vec![], sample: None, want_sample: false }
    }
    pub fn count(&mut self, what: &str, n: u64) {
        alive();
        match self.ev.get_mut(what) {
            Some(x) if what.starts_with("max:") => *x = n.max(*x),
            Some(x) => *x += n,
            None => {
                self.ev.insert(what.to_string(), n);
            }
        }
    }
    /// Declare the case non-trivial; `key` identifies it up to equality.
    pub fn nontrivial(&mut self, key: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut h);
        self.keys.push(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}

pub type CaseFn = fn(&mut Cx) -> R;

pub struct Prop {
    pub id: &'static str,
    /// number of random cases per tier
    pub quick: u64,
    pub thorough: u64,
    /// fixed cases, run once each
    pub directed: Vec<(&'static str, CaseFn)>,
    pub case: CaseFn,
    pub rule: &'static str,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut msg = msg;
        if msg.len() > 400 {
            let mut i = 400;
            while !msg.is_char_boundary(i) {
                i -= 1;
            }
            msg.truncate(i);
        }
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "?".into())
}

/// Run library code; a panic in it is a violation.
pub fn lib<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    alive();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => violation(format!("panic:{}", what), format!("library panicked in {}: {}", what, last_panic())),
    }
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub worker: u64,
    pub workers: u64,
    pub count: Option<u64>,
    pub secs: f64,
    pub progress: Option<String>,
    pub out: Option<String>,
    pub only: Option<u64>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Directed cases are numbered from here.
pub const DIRECTED: u64 = 1 << 40;

struct Alive {
    file: std::fs::File,
    calls: u64,
    ticks: u64,
    last: Instant,
}

thread_local! {
    static ALIVE: std::cell::RefCell<Option<Alive>> = const { std::cell::RefCell::new(None) };
}

/// Tells who watches the worker that a long case is getting on (about once a second, at the calls that say so).
pub fn alive() {
    ALIVE.with(|a| {
        if let Some(a) = a.borrow_mut().as_mut() {
            a.calls += 1;
            if a.calls % 32 == 0 && a.last.elapsed().as_millis() > 1000 {
                a.last = Instant::now();
                a.ticks += 1;
                let _ = a.file.write_all_at(&a.ticks.to_le_bytes(), 16);
            }
        }
    });
}

/// Runs the worker's share and writes the result. Returns the exit code:
/// 0 done (see the result file for violations), 3 harness error.
pub fn work(p: &Prop, o: &Opts) -> i32 {
    install_hook();
    let start = Instant::now();
    let progress = o.progress.as_ref().map(|f| std::fs::File::create(f).expect("progress file"));
    if let Some(f) = &progress {
        let file = f.try_clone().expect("progress file");
        ALIVE.with(|a| *a.borrow_mut() = Some(Alive { file, calls: 0, ticks: 0, last: Instant::now() }));
    }
    let n = o.count.unwrap_or(if o.tier == Tier::Quick { p.quick } else { p.thorough });
    let mut cases: Vec<u64> = vec![];
    if let Some(c) = o.only {
        cases.push(c);
    } else {
        for i in 0..p.directed.len() as u64 {
            if i % o.workers == o.worker {
                cases.push(DIRECTED + i);
            }
        }
    }
    let mut ev: BTreeMap<String, u64> = BTreeMap::new();
    let mut skips: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<(u64, String, String)> = vec![];
    let mut evals = 0u64;
    let mut truncated = false;
    let mut next = o.worker;
    let mut q = cases.into_iter();
    let mut harness: Option<String> = None;
    loop {
        let idx = match q.next() {
            Some(i) => i,
            None => {
                if o.only.is_some() || next >= n {
                    break;
                }
                if start.elapsed().as_secs_f64() > o.secs {
                    truncated = true;
                    break;
                }
                let i = next;
                next += o.workers;
                i
            }
        };
        if let Some(f) = &progress {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&idx.to_le_bytes());
            b[8..].copy_from_slice(&evals.to_le_bytes());
            let _ = f.write_all_at(&b, 0);
        }
        let mut cx = Cx::new(Rng::for_case(o.seed, p.id, idx), o.tier);
        cx.want_sample = samples.len() < 3;
        let f: CaseFn = if idx >= DIRECTED {
            match p.directed.get((idx - DIRECTED) as usize) {
                Some(x) => x.1,
                None => {
                    eprintln!("no such directed case");
                    return 3;
                }
            }
        } else {
            p.case
        };
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
        evals += 1;
        for (k, v) in cx.ev {
            let x = ev.entry(k.clone()).or_insert(0);
            *x = if k.starts_with("max:") { v.max(*x) } else { *x + v };
        }
        // (enough to go by; the count of distinct cases is then a lower bound)
        if keys.len() < 600_000 {
            keys.extend(cx.keys);
        }
        if let Some(s) = cx.sample {
            samples.push(s);
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(Fail::Skip(w))) => *skips.entry(w).or_insert(0) += 1,
            Ok(Err(Fail::Violation { sig, detail })) => {
                viols.push((idx, sig, detail));
                if viols.len() >= 20 {
                    break;
                }
            }
            Err(_) => {
                harness = Some(format!("case {}: {}", idx, last_panic()));
                break;
            }
        }
        let (nf, what) = crate::alloc::faults();
        if nf > 0 {
            viols.push((idx, "memory".into(), format!("allocator monitor: {} ({} faults)", what, nf)));
            break;
        }
    }
    let mut s = String::new();
    s.push_str(&format!("{{\"evaluations\":{},\"truncated\":{},", evals, truncated));
    s.push_str(&format!("\"rule\":{},", esc(p.rule)));
    s.push_str("\"events\":{");
    s.push_str(&ev.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"skips\":{");
    s.push_str(&skips.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    s.push_str("},\"samples\":[");
    s.push_str(&samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"violations\":[");
    s.push_str(
        &viols
            .iter()
            .map(|(c, a, b)| format!("{{\"case\":{},\"sig\":{},\"detail\":{}}}", c, esc(a), esc(b)))
            .collect::<Vec<_>>()
            .join(","),
    );
    s.push_str(&format!("],\"harness_error\":{}}}", harness.as_deref().map(esc).unwrap_or("null".into())));
    if let Some(out) = &o.out {
        std::fs::write(out, &s).expect("result file");
        let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{}.keys", out)).expect("keys file"));
        for k in keys {
            f.write_all(&k.to_le_bytes()).unwrap();
        }
        f.flush().unwrap();
    } else {
        println!("{}", s);
    }
    if harness.is_some() { 3 } else { 0 }
}
