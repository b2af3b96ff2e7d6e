use crate::Panicked;
use std::collections::{BTreeMap, HashSet};
use std::fmt::{self, Write};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub signature: String,
    pub message: String,
}

/// Why a run ended early.
#[derive(Debug)]
pub enum Stop {
    /// An oracle of the checked property failed (recorded in the context).
    Violated,
    /// The run cannot go on for a reason that belongs to another property
    /// (that property's own check reports it).
    Foreign(String),
}

struct FnvWriter(u64);
impl Write for FnvWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for b in s.bytes() {
            self.0 ^= b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

/// Everything a run records. Recording draws no random numbers and reads no clock.
pub struct Ctx {
    pub prop: String,
    pub trace: Option<Vec<String>>,
    /// Hash over the full event log.
    pub log_hash: u64,
    pub events: u64,
    /// Hash over the schedule as executed (which party acted, which fault hit).
    pub sched_hash: u64,
    /// Simulated time in microseconds.
    pub now_us: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub violation: Option<Violation>,
    /// Signatures listed as known findings: recorded, not reported.
    pub known: Vec<String>,
    pub known_hit: BTreeMap<String, u64>,
    /// Set by the world when the run did something worth counting.
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(prop: &str, known: &[String], record: bool) -> Self {
        Ctx {
            prop: prop.to_string(),
            trace: record.then(Vec::new),
            log_hash: 0xcbf29ce484222325,
            events: 0,
            sched_hash: 0,
            now_us: 0,
            counters: BTreeMap::new(),
            states: HashSet::new(),
            violation: None,
            known: known.to_vec(),
            known_hit: BTreeMap::new(),
            nontrivial: false,
        }
    }
    pub fn is(&self, prop: &str) -> bool {
        self.prop == prop
    }
    pub fn event(&mut self, args: fmt::Arguments<'_>) {
        let mut w = FnvWriter(self.log_hash);
        let _ = write!(w, "{}\n", args);
        self.log_hash = w.0;
        self.events += 1;
        if let Some(t) = &mut self.trace {
            t.push(format!("t={}us {}", self.now_us, args));
        }
    }
    pub fn sched(&mut self, decision: &str, who: u64) {
        self.sched_hash =
            crate::rng::mix(&[self.sched_hash, crate::rng::hash_str(decision), who]);
    }
    pub fn count(&mut self, key: &'static str) {
        *self.counters.entry(key).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, key: &'static str, n: u64) {
        *self.counters.entry(key).or_insert(0) += n;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 20000 {
            self.states.insert(h);
        }
    }
    /// Records a violation of the property being checked. Returns Ok when the
    /// signature is a listed known finding (the caller carries on without the
    /// affected observer), Err otherwise.
    pub fn fail(&mut self, signature: &str, message: String) -> Result<(), Stop> {
        let signature = format!("{}/{}", self.prop, signature);
        if self.known.contains(&signature) {
            *self.known_hit.entry(signature).or_insert(0) += 1;
            return Ok(());
        }
        self.event(format_args!("VIOLATION {signature}: {message}"));
        self.violation = Some(Violation { signature, message });
        Err(Stop::Violated)
    }
    /// Like `fail` but only when `prop` is the one being checked; otherwise
    /// the run ends without a verdict.
    pub fn fail_for(&mut self, props: &[&str], signature: &str, message: String) -> Result<(), Stop> {
        if props.contains(&self.prop.as_str()) {
            self.fail(signature, message)
        } else {
            self.count("run.ended_by_other_property");
            Err(Stop::Foreign(format!("{signature}: {message}")))
        }
    }
    pub fn unexpected_panic(
        &mut self,
        props: &[&str],
        what: &str,
        p: &Panicked,
    ) -> Result<(), Stop> {
        self.fail_for(
            props,
            &format!("panic-{what}"),
            format!("{what} failed: {} ({})", p.message, p.location),
        )
    }
}
