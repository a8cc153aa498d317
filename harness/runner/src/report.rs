//! Evidence, replay files, violations.

use crate::env::{Env, Tier};
use oracle::json::{n, obj, s, J};
use std::path::PathBuf;
use std::time::Instant;

pub struct Violation {
    pub msg: String,
    /// Everything `replay` needs beside the property.
    pub replay: J,
}

#[derive(Default)]
pub struct Coverage {
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<J>,
    pub extra: Vec<(String, J)>,
}

pub struct Report {
    pub prop: String,
    pub level: &'static str,
    pub rule: String,
    pub start: Instant,
    pub cov: Coverage,
    pub known: Vec<String>,
    pub violations: Vec<Violation>,
}

impl Report {
    pub fn new(prop: &str, rule: &str) -> Report {
        Report { prop: prop.into(), level: level(prop), rule: rule.into(), start: Instant::now(), cov: Coverage::default(), known: vec![], violations: vec![] }
    }

    pub fn violation(&mut self, msg: impl Into<String>, replay: J) {
        self.violations.push(Violation { msg: msg.into(), replay });
    }

    /// Counts a case; `key` identifies it when it is not trivial.
    pub fn sample(&mut self, v: J) {
        if self.cov.samples.len() < 12 {
            self.cov.samples.push(v);
        }
    }

    /// Writes the evidence and prints the verdict; the exit code of the check.
    pub fn finish(mut self, env: &Env) -> i32 {
        if self.cov.samples.is_empty() {
            self.cov.samples.push(s("no non-trivial case was sampled"));
        }
        let mut cov = vec![
            ("evaluations".to_string(), n(self.cov.evaluations)),
            ("distinct_nontrivial".to_string(), n(self.cov.distinct)),
            ("rule".to_string(), s(&*self.rule)),
            ("samples".to_string(), J::Arr(self.cov.samples.clone())),
        ];
        cov.extend(self.cov.extra.clone());
        let ev = obj(vec![
            ("property", s(&*self.prop)),
            ("tier", s(if env.tier == Tier::Quick { "quick" } else { "thorough" })),
            ("seed", n(env.seed)),
            ("level", s(self.level)),
            ("coverage", J::Obj(cov)),
            ("wall_s", n(format!("{:.3}", self.start.elapsed().as_secs_f64()))),
            ("violations", n(self.violations.len())),
        ]);
        let dir = env.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.prop)), ev.text() + "\n") {
            eprintln!("cannot write the evidence: {}", e);
            return 2;
        }
        for k in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        if self.violations.is_empty() {
            println!("{}: held on {} cases ({} distinct and non-trivial) in {:.1}s", self.prop, self.cov.evaluations, self.cov.distinct, self.start.elapsed().as_secs_f64());
            return 0;
        }
        let dir = env.verif.join("evidence").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        for (i, v) in self.violations.iter().enumerate().take(4) {
            let path: PathBuf = dir.join(format!("{}-{}.json", self.prop, i));
            let mut j = obj(vec![("property", s(&*self.prop)), ("message", s(&*v.msg))]);
            if let (J::Obj(a), J::Obj(b)) = (&mut j, &v.replay) {
                a.extend(b.clone());
            }
            if let Err(e) = std::fs::write(&path, j.text() + "\n") {
                eprintln!("cannot write the replay file: {}", e);
                return 2;
            }
            println!("{}", v.msg);
            println!("VIOLATION property={} replay={}", self.prop, path.display());
        }
        1
    }
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        "M07" | "C07" => "fault_enumeration",
        _ => "exploration",
    }
}
