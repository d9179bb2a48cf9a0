//! One simulated execution: its decisions, its event log, its counters.
use crate::source::{fnv, Source, FNV0};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A property violation. `class` is what minimisation must preserve.
#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}
pub type Res = Result<(), Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg: msg.into() })
}

#[derive(Default, Clone)]
pub struct Stats {
    /// how often each fault kind actually fired
    pub faults: BTreeMap<String, u64>,
    /// rare conditions that were hit
    pub probes: BTreeMap<String, u64>,
    /// simulated seconds covered by the workload
    pub sim_s: f64,
    /// library calls made
    pub calls: u64,
}

pub struct Ctx {
    pub src: Source,
    pub log: Vec<String>,
    pub keep_log: bool,
    digest: u64,
    pub stats: Stats,
    /// ingredients of this run's signature (what it reached)
    pub sig: BTreeSet<u64>,
    pub nontrivial: bool,
    pub tier_thorough: bool,
}

impl Ctx {
    pub fn new(src: Source, keep_log: bool, thorough: bool) -> Self {
        Ctx {
            src,
            log: Vec::new(),
            keep_log,
            digest: FNV0,
            stats: Stats::default(),
            sig: BTreeSet::new(),
            nontrivial: false,
            tier_thorough: thorough,
        }
    }
    /// event log: never draws decisions, never reads a clock
    pub fn ev(&mut self, s: impl AsRef<str>) {
        self.digest = fnv(s.as_ref().as_bytes(), self.digest);
        self.digest = fnv(b"\n", self.digest);
        if self.keep_log {
            self.log.push(s.as_ref().to_string());
        }
    }
    pub fn ev_bytes(&mut self, what: &str, b: &[u8]) {
        let h = fnv(b, FNV0);
        self.ev(format!("{what}: {} bytes, fnv {h:016x}", b.len()));
    }
    pub fn digest(&self) -> u64 {
        self.digest
    }
    pub fn fault(&mut self, k: &str) {
        *self.stats.faults.entry(k.to_string()).or_default() += 1;
        self.nontrivial = true;
        self.reach(&format!("fault:{k}"));
    }
    pub fn fault_n(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.stats.faults.entry(k.to_string()).or_default() += n;
            self.nontrivial = true;
            self.reach(&format!("fault:{k}:{}", bucket(n)));
        }
    }
    pub fn probe(&mut self, k: &str) {
        *self.stats.probes.entry(k.to_string()).or_default() += 1;
    }
    pub fn reach(&mut self, k: &str) {
        self.sig.insert(fnv(k.as_bytes(), FNV0));
    }
    pub fn signature(&self) -> u64 {
        let mut h = FNV0;
        for s in &self.sig {
            h = fnv(&s.to_le_bytes(), h);
        }
        h
    }
    /// Runs library code; a panic in it becomes a violation of class
    /// "panic@file:line" unless it is the simulator's own step budget.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
        self.stats.calls += 1;
        guarded(what, f)
    }
}

pub fn bucket(n: u64) -> u64 {
    match n {
        0..=3 => n,
        4..=7 => 4,
        8..=15 => 8,
        16..=63 => 16,
        _ => 64,
    }
}

/// payload used by simulated devices to stop a caller that never ends
pub struct StepBudget;
/// payload used by the simulator for its own faults: not a violation
pub struct HarnessError(pub String);

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload_str(info.payload());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}
fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "(no message)".into()
    }
}

pub fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<StepBudget>() {
                return fail(&format!("no-termination:{what}"), format!("{what}: still asking for more after its step budget"));
            }
            if p.is::<HarnessError>() {
                std::panic::resume_unwind(p);
            }
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // paths inside toolchain sources vary; keep file name and the message kind
            let file = loc.rsplit("src/").next().unwrap_or(&loc).to_string();
            let mut m: String = msg.chars().take(300).collect();
            m = m.replace('\n', " ");
            Err(Violation { class: format!("panic:{what}@{file}"), msg: format!("{what} panicked at {loc}: {m}") })
        },
    }
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).map(|(l, m)| format!("{l}: {m}")).unwrap_or_default()
}
