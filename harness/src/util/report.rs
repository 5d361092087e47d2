//! Per-shard result: counters, distinct non-trivial cases, samples, violations, known findings; written as one
//! JSON file (plus a raw file of 64-bit hashes) that check.py merges into the evidence file.
use super::json::J;
use std::collections::{BTreeMap, HashSet};

pub struct Violation {
    pub case: u64,
    pub what: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<J>,
    pub violations: Vec<Violation>,
    pub rule: String,
    /// description of the case being evaluated, for the replay file
    pub current: String,
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl Obs {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxima.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// one evaluated case; `key` identifies it if it is non-trivial by the property's rule
    pub fn case(&mut self, key: Option<u64>) {
        self.evaluations += 1;
        if let Some(k) = key {
            if self.distinct.len() < 400_000 {
                self.distinct.insert(k);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        if self.samples.len() < 6 {
            self.samples.push(f());
        }
    }
    pub fn json(&self, shard: u64, wall: f64) -> J {
        J::Obj(vec![
            ("shard".into(), J::Int(shard as i64)),
            ("evaluations".into(), J::Int(self.evaluations as i64)),
            ("distinct_shard".into(), J::Int(self.distinct.len() as i64)),
            ("rule".into(), J::s(self.rule.clone())),
            ("counters".into(), J::Obj(self.counters.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())),
            ("maxima".into(), J::Obj(self.maxima.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect())),
            ("samples".into(), J::Arr(self.samples.clone())),
            (
                "violations".into(),
                J::Arr(
                    self.violations
                        .iter()
                        .map(|v| {
                            J::Obj(vec![
                                ("case".into(), J::s(v.case.to_string())),
                                ("what".into(), J::s(v.what.clone())),
                                ("detail".into(), J::s(v.detail.clone())),
                            ])
                        })
                        .collect(),
                ),
            ),
            ("wall_s".into(), J::Num(wall)),
        ])
    }
}
