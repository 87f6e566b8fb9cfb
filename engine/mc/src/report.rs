//! Counting and reporting. Everything the driver reads is written to stdout as one JSON object per line.
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
pub fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

#[derive(Default)]
pub struct Report {
    pub counts: BTreeMap<&'static str, u64>,
    pub outcomes: HashSet<u64>,
    pub samples: Vec<String>,
    pub sampled: u64,
    pub violations: u64,
    pub bad_progs: HashSet<usize>,
}
impl Report {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counts.entry(k).or_default() += n;
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(h(t));
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        self.sampled += 1;
        if [1, 40, 700, 4000, 30000].contains(&self.sampled) {
            let s = s();
            self.samples.push(s);
        }
    }
    pub fn violation(&mut self, idx: usize, source: &str, what: &str, input: &str, expected: &str, actual: &str) {
        self.violations += 1;
        self.bad_progs.insert(idx);
        if self.violations <= 20 {
            println!(
                "{{\"violation\":true,\"idx\":{idx},\"source\":{},\"what\":{},\"input\":{},\"expected\":{},\"actual\":{}}}",
                js(source),
                js(what),
                js(input),
                js(expected),
                js(actual)
            );
        }
    }
    pub fn finish(mut self) {
        let v = self.violations;
        let o = self.outcomes.len() as u64;
        self.add("violations", v);
        self.add("distinct_outcomes", o);
        let c: Vec<_> = self.counts.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
        let s: Vec<_> = self.samples.iter().map(|s| js(s)).collect();
        println!("{{\"summary\":true,\"counts\":{{{}}},\"samples\":[{}]}}", c.join(","), s.join(","));
    }
}
