//! Verdict and coverage bookkeeping of one shard.
#![allow(dead_code)]
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;

pub struct Ctx {
    pub prop: String,
    pub scratch: PathBuf,
    pub cur: u64,
    /// monitored executions / oracle decisions
    pub evals: u64,
    pub cases: u64,
    pub classes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub distinct: BTreeMap<String, BTreeSet<u64>>,
    pub samples: Vec<String>,
    pub viols: Vec<(u64, String, String)>,
    pub discarded: u64,
    pub runaways: Vec<u64>,
    pub harness: Vec<(u64, String)>,
    pub thorough: bool,
    pub verbose: bool,
    /// Path of this program, for monitors that need a process of their own to kill
    pub me: Option<String>,
    /// Set by a monitor whose case must end: endless calls are then a violation, not a dropped case
    pub runaway_is_violation: bool,
}
impl Ctx {
    pub fn new(prop: &str, scratch: PathBuf, thorough: bool) -> Self {
        Ctx {
            prop: prop.into(),
            scratch,
            cur: 0,
            evals: 0,
            cases: 0,
            classes: HashSet::new(),
            counters: BTreeMap::new(),
            distinct: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            discarded: 0,
            runaways: vec![],
            harness: vec![],
            thorough,
            verbose: false,
            me: None,
            runaway_is_violation: false,
        }
    }
    pub fn n(&mut self, k: &str, by: u64) {
        *self.counters.entry(k.into()).or_insert(0) += by;
    }
    pub fn d(&mut self, k: &str, v: u64) {
        let s = self.distinct.entry(k.into()).or_default();
        if s.len() < 20000 {
            s.insert(v);
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let v = s();
            self.samples.push(v);
        }
    }
    pub fn fail(&mut self, kind: &str, detail: String) {
        let mut d = detail;
        if d.len() > 1500 {
            let mut k = 1500;
            while !d.is_char_boundary(k) {
                k -= 1;
            }
            d.truncate(k);
        }
        self.viols.push((self.cur, kind.into(), d));
    }
    /// Assert one oracle decision.
    pub fn check(&mut self, ok: bool, kind: &str, detail: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok {
            let d = detail();
            self.fail(kind, d);
        }
        ok
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn json(&self) -> String {
        let mut o = String::from("{");
        o.push_str(&format!(
            "\"evals\":{},\"cases\":{},\"discarded\":{},",
            self.evals, self.cases, self.discarded
        ));
        o.push_str(&format!(
            "\"runaways\":[{}],\"harness\":[{}],",
            self.runaways.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(","),
            self.harness
                .iter()
                .map(|(s, t)| format!("{{\"case\":\"{s}\",\"text\":{}}}", json_str(t)))
                .collect::<Vec<_>>()
                .join(",")
        ));
        let mut cl: Vec<_> = self.classes.iter().collect();
        cl.sort();
        o.push_str(&format!(
            "\"classes\":[{}],",
            cl.iter().map(|c| format!("\"{c:016x}\"")).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!(
            "\"counters\":{{{}}},",
            self.counters.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!(
            "\"distinct\":{{{}}},",
            self.distinct
                .iter()
                .map(|(k, v)| format!(
                    "{}:[{}]",
                    json_str(k),
                    v.iter().map(|c| format!("\"{c:x}\"")).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push_str(&format!(
            "\"samples\":[{}],",
            self.samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
        ));
        o.push_str(&format!(
            "\"viols\":[{}]",
            self.viols
                .iter()
                .map(|(s, k, d)| format!(
                    "{{\"case\":\"{s}\",\"kind\":{},\"detail\":{}}}",
                    json_str(k),
                    json_str(d)
                ))
                .collect::<Vec<_>>()
                .join(",")
        ));
        o.push('}');
        o
    }
}
