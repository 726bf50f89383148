//! Cases, coverage counters and verdicts.

use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};

/// A property violation. The key identifies what failed, the message has all
/// the details of the failing input.
#[derive(Clone, Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Fail>;

#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub judged: u64,
    pub cases: u64,
    pub events: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}

impl Cov {
    pub fn merge(&mut self, o: Cov) {
        self.evals += o.evals;
        self.cases += o.cases;
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub cov: &'a mut Cov,
    pub index: u64,
    pub thorough: bool,
    pub sample: bool,
    pub workload: &'static str,
}

impl Case<'_> {
    /// Counts an observed event.
    pub fn ev(&mut self, name: &str) {
        self.ev_n(name, 1);
    }

    pub fn ev_n(&mut self, name: &str, n: u64) {
        match self.cov.events.get_mut(name) {
            Some(v) => *v += n,
            None => {
                self.cov.events.insert(name.into(), n);
            }
        }
    }

    /// Registers a non-trivial case by its content; counted once per content.
    pub fn nontrivial(&mut self, content: &[u8]) {
        self.cov.judged += 1;
        self.cov.distinct.insert(hash_bytes(hash_bytes(7, self.workload.as_bytes()), content));
    }

    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample {
            let mut s = format!("{}#{}: {}", self.workload, self.index, f());
            if s.len() > 600 {
                let mut n = 600;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.cov.samples.push(s);
            self.sample = false;
        }
    }
}

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($arg:tt)*) => {
        if !$c {
            return Err($crate::case::Fail { key: String::from($key), msg: format!($($arg)*) });
        }
    };
}

pub fn case_seed(seed: u64, prop: &str, workload: &str, index: u64) -> u64 {
    let h = hash_bytes(mix(seed), prop.as_bytes());
    mix(hash_bytes(h, workload.as_bytes()) ^ mix(index))
}

pub struct Workload {
    pub name: &'static str,
    /// cases in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    /// whether the number of cases grows with the scale
    pub scaled: bool,
    pub f: fn(&mut Case<'_>) -> R,
}

/// A readable form of bytes.
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("\"");
    for &c in b.iter().take(4000) {
        match c {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\t' => s.push_str("\\t"),
            b'"' | b'\\' => {
                s.push('\\');
                s.push(c as char);
            }
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{c:02x}")),
        }
    }
    s.push('"');
    if b.len() > 4000 {
        s.push_str(&format!("… ({} bytes)", b.len()));
    }
    s
}

pub fn show_headers(h: &[(String, Vec<u8>)]) -> String {
    let mut s = String::new();
    for (n, v) in h.iter().take(60) {
        s.push_str(&format!("\n    {}: {}", n, show(v)));
    }
    if h.len() > 60 {
        s.push_str(&format!("\n    … ({} fields)", h.len()));
    }
    s
}

pub fn show_chunks(c: &[&[u8]]) -> String {
    let l: Vec<usize> = c.iter().map(|c| c.len()).collect();
    let t: Vec<u8> = c.concat();
    format!("body {} cut into {:?}", show(&t), &l[..l.len().min(200)])
}
