//! The properties and their workloads.

mod body;
mod mutate;
mod parse;
pub mod robust;
mod sign;
mod verify;
mod watch;

use crate::{
    case::Workload,
    gen::{self, Bl, Spec, Ts},
    model::{self, Hdr},
    rng::Rng,
    world::{self, Dns, Entry, SignResults},
};
use std::collections::{BTreeSet, HashMap};
use viadkim::{
    header::HeaderFields,
    signer::{RequestError, SigningError, SigningOutput},
    verifier::Config,
};

pub fn workloads(prop: &str) -> Option<Vec<Workload>> {
    Some(match prop {
        "C01" => sign::c01(),
        "C02" => mutate::c02(),
        "C03" => mutate::c03(),
        "C04" => body::c04(),
        "C05" => body::c05(),
        "C06" => sign::c06(),
        "C07" => body::c07(),
        "C08" => parse::c08(),
        "C09" => parse::c09(),
        "C10" => sign::c10(),
        "C11" => sign::c11(),
        "C12" => sign::c12(),
        "C13" => verify::c13(),
        "C14" => verify::c14(),
        "C15" => verify::c15(),
        "C16" => verify::c16(),
        "C17" => verify::c17(),
        "C18" => verify::c18(),
        "C19" => verify::c19(),
        "C20" => verify::c20(),
        "C21" => parse::c21(),
        "C22" => parse::c22(),
        "C23" => robust::c23(),
        "C24" => robust::c24(),
        "C25" => parse::c25(),
        "C26" => robust::c26(),
        "C27" => robust::c27(),
        "C28" => verify::c28(),
        "C29" => verify::c29(),
        "C30" => watch::c30(),
        "C31" => watch::c31(),
        _ => return None,
    })
}

pub fn wl(name: &'static str, quick: u64, thorough: u64, f: fn(&mut crate::case::Case<'_>) -> crate::case::R) -> Workload {
    Workload { name, quick, thorough, scaled: true, f }
}

/// A workload of few, but expensive cases.
pub fn wl_fixed(name: &'static str, n: u64, f: fn(&mut crate::case::Case<'_>) -> crate::case::R) -> Workload {
    Workload { name, quick: n, thorough: n, scaled: false, f }
}

pub fn mk(h: &[Hdr]) -> HeaderFields {
    world::to_headers(h).expect("headers made by the harness must be valid")
}

pub fn sign_all(h: &[Hdr], specs: &[Spec], chunks: &[&[u8]], stop: bool) -> Result<SignResults, RequestError> {
    world::sign(mk(h), specs.iter().map(|s| s.request()).collect(), chunks, stop)
}

/// Puts signatures on top of the message, the last one topmost.
pub fn stack(outs: &[&SigningOutput], h: &[Hdr]) -> Vec<Hdr> {
    let mut v: Vec<Hdr> = outs
        .iter()
        .rev()
        .map(|o| (o.header_name.clone(), o.header_value.as_bytes().to_vec()))
        .collect();
    v.extend(h.iter().cloned());
    v
}

/// A verifier configuration that accepts anything.
pub fn permissive() -> Config {
    Config {
        headers_forbidden_to_be_unsigned: vec![],
        min_key_bits: 0,
        allow_sha1: true,
        allow_expired: true,
        allow_timestamp_in_future: true,
        max_signatures: 1000,
        ..Config::default()
    }
}

pub fn records(r: &mut Rng, specs: &[Spec], odd: usize) -> HashMap<String, Entry> {
    let mut m = HashMap::new();
    for s in specs {
        let rec = if odd > 0 { gen::record_any(r, s.key, odd) } else { s.key.record() };
        m.insert(s.query_name(), Entry::txt(rec));
    }
    m
}

pub fn dns(m: &HashMap<String, Entry>) -> Dns {
    Dns::new(m.iter().map(|(k, v)| (k.clone(), v.clone())))
}

/// The permitted outcomes of one accepted signing request: "" is success.
pub fn sign_outcomes(s: &Spec, body: &[u8]) -> BTreeSet<&'static str> {
    let mut out = BTreeSet::new();
    let late = match s.ts {
        Ts::Exact(t) => s.valid.is_some_and(|d| t.checked_add(d.as_secs()).unwrap_or(u64::MAX) <= t),
        _ => false,
    };
    for c in model::body_canon(s.bc, body) {
        let mut any = false;
        if let Bl::Exact(n) = s.bl {
            if n > c.len() as u64 {
                out.insert("InsufficientContent");
                any = true;
            }
        }
        if late {
            out.insert("Overflow");
            any = true;
        }
        if !any {
            out.insert("");
        }
    }
    out
}

pub fn sign_outcome(o: &Result<SigningOutput, SigningError>) -> String {
    match o {
        Ok(_) => String::new(),
        Err(e) => format!("{e:?}"),
    }
}

/// The canonical body that was signed, as told by the reported body hash.
pub fn signed_canon(s: &Spec, body: &[u8], out: &SigningOutput) -> Option<Vec<u8>> {
    model::body_canon(s.bc, body).into_iter().find(|c| {
        let n = match s.bl {
            Bl::Exact(n) => n as usize,
            _ => c.len(),
        };
        n <= c.len() && model::hash(s.sha1, &c[..n])[..] == out.signature.body_hash[..]
    })
}

pub fn canon_len(body: &[u8]) -> impl Fn(bool) -> usize {
    let (a, b) = (model::body_simple(body).len(), model::body_relaxed(body).len());
    move |relaxed| if relaxed { b } else { a }
}

pub fn statuses(v: &[viadkim::verifier::VerificationResult]) -> Vec<String> {
    v.iter().map(|r| crate::refv::status(&r.status)).collect()
}
