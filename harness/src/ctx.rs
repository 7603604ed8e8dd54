//! Run context: selected property, PRNG, statistics, trace digest, violations.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Viol {
    pub props: Vec<&'static str>,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    pub stats: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub digest: u64,
    pub digests: Vec<(usize, u64)>,
    pub trace: bool,
    pub log: Vec<String>,
    pub narch: usize,
    pub evals: u64,
    /// tiny workloads for the interpreter
    pub mini: bool,
}

impl Ctx {
    pub fn new(prop: &str, seed: u64) -> Self {
        Ctx {
            prop: prop.to_string(),
            rng: Rng::new(seed),
            stats: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            digest: 0,
            digests: Vec::new(),
            trace: false,
            log: Vec::new(),
            narch: crate::world::DRIVERS.len(),
            evals: 0,
            mini: false,
        }
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        if let Some(v) = self.stats.get_mut(k) {
            *v += n;
        } else {
            self.stats.insert(k.to_string(), n);
        }
    }
    pub fn viol(&mut self, props: &[&'static str], msg: String) {
        if self.trace {
            self.log.push(format!("!! {props:?} {msg}"));
        }
        if self.viols.len() < 200 {
            self.viols.push(Viol { props: props.to_vec(), msg });
        }
    }
    /// One monitor evaluation.
    pub fn check(&mut self, ok: bool, props: &[&'static str], msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            self.viol(props, msg());
        }
        ok
    }
    pub fn dig(&mut self, v: u64) {
        self.digest = mix(self.digest ^ mix(v));
    }
    pub fn dig_hash<T: Hash>(&mut self, v: &T) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        v.hash(&mut h);
        self.dig(h.finish());
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.trace {
            let s = f();
            eprintln!("  {s}");
            self.log.push(s);
        }
    }
    /// A non-trivial observation class, counted once.
    pub fn seen(&mut self, class: &str, detail: u64) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        class.hash(&mut h);
        detail.hash(&mut h);
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 12 {
            let s = f();
            self.samples.push(s);
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{msg}{loc}");
            }
        });
    }));
}

/// Runs `f`, returning the panic message if it unwinds.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
