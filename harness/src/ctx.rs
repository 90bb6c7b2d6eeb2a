//! The monitoring context of one worker thread: runs the code under test under
//! guard, records what the monitors saw, and collects violations.

use crate::rng::{fnv, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Fam {
    pub name: String,
    pub count: u64,
    pub run: Box<dyn Fn(&mut Ctx, u64) + Sync + Send>,
}

pub fn fam(
    name: &str,
    count: u64,
    run: impl Fn(&mut Ctx, u64) + Sync + Send + 'static,
) -> Fam {
    Fam { name: name.to_string(), count, run: Box::new(run) }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub index: u64,
    pub what: String,
    pub detail: String,
    pub input: Vec<u8>,
}

/// Keeps the fingerprints as they are: they are hashes already.
#[derive(Default, Clone)]
pub struct Ident(u64);
impl std::hash::Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = fnv(self.0, b);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
}
pub type FpSet = HashSet<u64, std::hash::BuildHasherDefault<Ident>>;

pub struct Ctx {
    pub seed: u64,
    pub family: String,
    pub index: u64,
    pub verbose: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub distinct: FpSet,
    pub samples: Vec<String>,
    pub want_sample: bool,
    pub violations: Vec<Violation>,
    pub suppressed: u64,
    pub known: BTreeMap<String, u64>,
    /// Digest of the outcomes of the current case (C14).
    pub digest: (u64, u64),
}

const MAX_DISTINCT: usize = 3_000_000;

thread_local! {
    static IN_CUT: Cell<bool> = const { Cell::new(false) };
    /// A worker notes a panic of the harness and reports what it saw before.
    pub static WORKER: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics of the code under test are observations; panics of the harness are
/// errors of the check and end the process.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        if IN_CUT.with(Cell::get) {
            PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            eprintln!("HARNESS-ERROR {msg} at {loc}");
            if !WORKER.with(Cell::get) {
                std::process::exit(3);
            }
        }
    }));
}

/// Runs the code under test; `Err` is the panic message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CUT.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CUT.with(|c| c.set(was));
    r.map_err(|_: Box<dyn Any + Send>| PANIC.with(|p| p.borrow().clone()))
}

impl Ctx {
    pub fn new(seed: u64) -> Ctx {
        Ctx {
            seed,
            family: String::new(),
            index: 0,
            verbose: false,
            counters: BTreeMap::new(),
            evals: 0,
            distinct: FpSet::default(),
            samples: Vec::new(),
            want_sample: false,
            violations: Vec::new(),
            suppressed: 0,
            known: BTreeMap::new(),
            digest: (0, 0),
        }
    }
    /// Generator of the current case: depends on nothing else.
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed, fnv(7, self.family.as_bytes()), self.index)
    }
    pub fn count(&mut self, k: &'static str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    /// One evaluation of the property on a case with this fingerprint.
    pub fn eval(&mut self, fp: u64) {
        self.evals += 1;
        if self.distinct.len() < MAX_DISTINCT {
            self.distinct.insert(fp);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.samples.len() < 400 {
            self.want_sample = false;
            let s = format!("{}#{}: {}", self.family, self.index, f());
            self.samples.push(s);
        }
    }
    pub fn fail(&mut self, what: &str, detail: String, input: &[u8]) {
        if self.violations.len() >= 40 {
            self.suppressed += 1;
            return;
        }
        if self.verbose {
            println!("  FAIL {what}: {detail}");
        }
        self.violations.push(Violation {
            family: self.family.clone(),
            index: self.index,
            what: what.to_string(),
            detail,
            input: input[..input.len().min(4096)].to_vec(),
        });
    }
    /// Runs the code under test; a panic is a violation and gives `None`.
    pub fn cut<T>(&mut self, what: &str, input: &[u8], f: impl FnOnce() -> T) -> Option<T> {
        match guarded(f) {
            Ok(v) => Some(v),
            Err(p) => {
                self.fail("panic", format!("{what}: {p}"), input);
                None
            }
        }
    }
    pub fn check(
        &mut self,
        ok: bool,
        what: &str,
        input: &[u8],
        detail: impl FnOnce() -> String,
    ) -> bool {
        if !ok {
            let d = detail();
            self.fail(what, d, input);
        }
        ok
    }
    pub fn merge(&mut self, o: Ctx) {
        for (k, n) in o.counters {
            if k.starts_with("max ") {
                self.max(k, n);
            } else {
                self.add(k, n);
            }
        }
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        self.suppressed += o.suppressed;
        for (k, n) in o.known {
            *self.known.entry(k).or_insert(0) += n;
        }
        for v in o.violations {
            if self.violations.len() < 60 {
                self.violations.push(v);
            } else {
                self.suppressed += 1;
            }
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for (i, x) in b.iter().enumerate() {
        if i == 200 {
            s += &format!("...({} bytes)", b.len());
            break;
        }
        s += &format!("{x:02x}");
    }
    s
}

pub fn hex_all(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7F => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
