//! Case runner and verdict recorder. A property binary creates one `Mon`, runs cases through it and calls
//! `finish`, which prints one machine-readable result line; `/verif/check` turns it into evidence and verdicts.
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// The keys are already mixed hashes.
#[derive(Default)]
struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}

/// Panic payload of injected faults.
pub struct Injected;

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<Injected>() {
            "injected".to_string()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if msg.contains("unsafe precondition") || msg.contains("panic in a destructor") {
            eprintln!("{msg}{loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg + &loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// Runs `f`; Err(message) if it panicked.
pub fn catches<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

/// True when `f` panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catches(f).is_err()
}

pub struct Mon {
    pub prop: String,
    pub mode: String,
    pub seed: u64,
    pub thorough: bool,
    only: Option<String>,
    trace: bool,
    shard: (u64, u64),
    started: std::time::Instant,
    /// Cases run.
    pub evals: u64,
    seen: u64,
    pub counters: BTreeMap<String, u64>,
    distinct: HashSet<u64, BuildHasherDefault<Id>>,
    samples: Vec<String>,
    groups: BTreeMap<String, u64>,
    viol: Vec<(String, String)>,
    nviol: u64,
    /// Repetition of the whole workload; distinguishes labels and randomness.
    pub round: u64,
}

pub struct Case {
    pub rng: Rng,
    pub label: String,
    errs: Vec<String>,
    digest: u64,
    nontrivial: bool,
    counters: BTreeMap<String, u64>,
    sample: Option<String>,
    units: u64,
    digs: Vec<u64>,
    pub iter_events: u64,
}

impl Case {
    /// Registers one evaluation inside this case (a history, an input); `nontrivial` ones count as distinct by `h`.
    pub fn unit(&mut self, h: u64, nontrivial: bool) {
        self.units += 1;
        if nontrivial {
            self.digs.push(mix(h));
        }
    }
    /// Records a refuted expectation.
    pub fn fail(&mut self, msg: impl Into<String>) {
        if self.errs.len() < 5 {
            self.errs.push(msg.into());
        }
    }
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.count("oracle comparisons", 1);
        if !ok {
            let m = msg();
            self.fail(m);
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: &T, want: &T) {
        self.check(got == want, || {
            let mut s = format!("{what}: got {got:?}, expected {want:?}");
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) { n -= 1 }
                s.truncate(n);
                s.push_str("...");
            }
            s
        });
    }
    pub fn count(&mut self, what: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(what) {
            *c += n;
        } else {
            self.counters.insert(what.to_string(), n);
        }
    }
    /// Marks the case as non-trivial and folds `x` into its identity.
    pub fn distinct(&mut self, x: u64) {
        self.nontrivial = true;
        self.digest = mix(self.digest ^ x);
    }
    pub fn fold(&mut self, x: u64) {
        self.digest = mix(self.digest ^ x);
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(s());
        }
    }
    pub fn ok(&self) -> bool {
        self.errs.is_empty()
    }
}

fn arg(name: &str) -> Option<String> {
    let mut it = std::env::args();
    while let Some(a) = it.next() {
        if a == name {
            return it.next();
        }
    }
    None
}

impl Mon {
    pub fn new(prop: &str) -> Mon {
        install_hook();
        let seed = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
        let shard = arg("--shard")
            .map(|s| {
                let (a, b) = s.split_once('/').unwrap();
                (a.parse().unwrap(), b.parse().unwrap())
            })
            .unwrap_or((0, 1));
        Mon {
            prop: prop.to_string(),
            mode: arg("--mode").unwrap_or_else(|| "dbg".into()),
            seed,
            thorough: arg("--tier").as_deref() == Some("thorough"),
            only: arg("--only"),
            trace: std::env::args().any(|a| a == "--trace"),
            shard,
            started: std::time::Instant::now(),
            evals: 0,
            seen: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::default(),
            samples: Vec::new(),
            groups: BTreeMap::new(),
            viol: Vec::new(),
            nviol: 0,
            round: 0,
        }
    }

    pub fn slow(&self) -> bool {
        self.mode == "miri" || self.mode == "vg"
    }

    /// Pick a workload size: (under Miri/valgrind, quick, thorough).
    pub fn scale(&self, miri: u64, quick: u64, thorough: u64) -> u64 {
        if self.slow() {
            if self.thorough { miri * 4 } else { miri }
        } else if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Runs one case. The label identifies it; the case's randomness depends only on label and seed.
    pub fn case(&mut self, label: &str, f: impl FnOnce(&mut Case)) {
        if self.nviol >= 40 {
            return;
        }
        let long;
        let label = if self.round > 0 {
            long = format!("{label}@{}", self.round);
            &long
        } else {
            label
        };
        self.seen += 1;
        if let Some(o) = &self.only {
            if o != label {
                return;
            }
        } else if self.seen % self.shard.1 != self.shard.0 {
            return;
        }
        if self.trace {
            eprintln!("CASE {label}");
        }
        let group = label.split('#').next().unwrap_or("").split('/').next().unwrap_or("").to_string();
        let h = hash_str(label);
        let mut c = Case {
            rng: Rng::new(mix(self.seed) ^ h),
            label: label.to_string(),
            errs: Vec::new(),
            digest: hash_str(&group),
            nontrivial: false,
            counters: BTreeMap::new(),
            sample: None,
            units: 0,
            digs: Vec::new(),
            iter_events: 0,
        };
        if let Err(msg) = catches(|| f(&mut c)) {
            c.errs.push(format!("unexpected panic: {msg}"));
        }
        if c.iter_events > 0 {
            let n = c.iter_events;
            c.count("iterator calls checked", n);
        }
        let n = c.units.max(1);
        self.evals += n;
        *self.groups.entry(group).or_insert(0) += n;
        self.distinct.extend(c.digs.drain(..));
        for (k, v) in std::mem::take(&mut c.counters) {
            *self.counters.entry(k).or_insert(0) += v;
        }
        if c.nontrivial {
            self.distinct.insert(c.digest);
        }
        if let Some(s) = c.sample.take() {
            let n = self.samples.len() as u64;
            // first few, then sparse
            if n < 4 || (n < 12 && h % 17 == 0) {
                self.samples.push(format!("{}: {}", label, s));
            }
        }
        if !c.errs.is_empty() {
            self.nviol += c.errs.len() as u64;
            let e = c.errs.join(" | ");
            println!("VIOL\t{}\t{}", label, e.replace(['\n', '\t'], " "));
            self.viol.push((label.to_string(), e));
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.started.elapsed().as_secs_f64()
    }

    /// Prints the result line; the driver decides the exit status.
    pub fn finish(self) {
        let mut o = String::from("{");
        let esc = |s: &str| -> String {
            let mut r = String::from("\"");
            for ch in s.chars() {
                match ch {
                    '"' => r.push_str("\\\""),
                    '\\' => r.push_str("\\\\"),
                    c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
                    c => r.push(c),
                }
            }
            r.push('"');
            r
        };
        o.push_str(&format!("\"prop\":{},\"mode\":{},", esc(&self.prop), esc(&self.mode)));
        o.push_str(&format!("\"evals\":{},\"violations\":{},", self.evals, self.nviol));
        let cs: Vec<String> = self.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&format!("\"counters\":{{{}}},", cs.join(",")));
        let gs: Vec<String> = self.groups.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        o.push_str(&format!("\"groups\":{{{}}},", gs.join(",")));
        let ss: Vec<String> = self.samples.iter().map(|s| esc(s)).collect();
        o.push_str(&format!("\"samples\":[{}],", ss.join(",")));
        o.push_str(&format!("\"distinct\":{}}}", self.distinct.len()));
        println!("RESULT\t{o}");
    }
}
