//! What a run records: its event log (as a hash, or as lines), its statistics and its violations.

use std::collections::{BTreeMap, HashSet};

use crate::rng::Hasher64;

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Violation {
    /// What kind of thing went wrong. Decides which properties it speaks about.
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Cx {
    hash: Hasher64,
    pub events: u64,
    pub lines: Option<Vec<String>>,
    pub violations: Vec<Violation>,
    /// Known findings met in this run.
    pub findings: Vec<Violation>,
    pub counts: BTreeMap<String, u64>,
    /// Hashes of the abstract situations this run went through.
    pub states: HashSet<u64>,
    /// Hash over the order of scheduling decisions only.
    sched: Hasher64,
    pub sim_us: u64,
    pub fault_count: u64,
    pub checks: u64,
    /// Violation classes to stop at (those the running check owns); others are only noted.
    pub owned: Option<Vec<String>>,
}

impl Cx {
    pub fn new(verbose: bool) -> Self {
        Cx {
            lines: verbose.then(Vec::new),
            ..Default::default()
        }
    }
    pub fn log(&mut self, s: impl AsRef<str>) {
        let s = s.as_ref();
        self.events += 1;
        self.hash.str(s);
        if let Some(l) = &mut self.lines {
            l.push(s.to_string());
        }
    }
    pub fn sched(&mut self, s: &str) {
        self.sched.str(s);
    }
    pub fn sched_hash(&self) -> u64 {
        self.sched.finish()
    }
    pub fn state(&mut self, s: &str) {
        self.states.insert(crate::rng::hash_str(s));
    }
    pub fn log_hash(&self) -> u64 {
        self.hash.finish()
    }
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn fault(&mut self, k: &str) {
        self.fault_count += 1;
        self.count(&format!("fault:{k}"));
    }
    pub fn violate(&mut self, class: &str, msg: impl Into<String>) {
        let msg = msg.into();
        self.log(format!("VIOLATION {class}: {msg}"));
        if self.violations.len() < 50 {
            self.violations.push(Violation {
                class: class.to_string(),
                msg,
            });
        }
    }
    /// Whether this run can stop early.
    pub fn stop(&self) -> bool {
        match &self.owned {
            None => false,
            Some(o) => self.violations.iter().any(|v| o.iter().any(|c| *c == v.class)),
        }
    }
    pub fn finding(&mut self, class: &str, msg: impl Into<String>) {
        let msg = msg.into();
        self.log(format!("finding {class}: {msg}"));
        self.findings.push(Violation {
            class: class.to_string(),
            msg,
        });
    }
}
