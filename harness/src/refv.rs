//! A reference verifier: which outcomes are right for each signature of a
//! message, given the configuration, the key records and the clock.

use crate::{
    model::{self, Hdr, KeyM, Parse, SigM},
    world::{self, Answer, Entry},
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    io::ErrorKind,
    sync::{Mutex, OnceLock},
    time::SystemTime,
};
use viadkim::{
    record::DkimKeyRecord,
    signature::{CanonicalizationAlgorithm, DkimSignature},
    verifier::{Config, VerificationError, VerificationResult, VerificationStatus},
};

pub fn status(s: &VerificationStatus) -> String {
    match s {
        VerificationStatus::Success => "Success".into(),
        VerificationStatus::Failure(VerificationError::DkimSignatureFormat(e)) => {
            format!("DkimSignatureFormat({:?})", e.kind)
        }
        VerificationStatus::Failure(e) => format!("{e:?}"),
    }
}

#[derive(Debug)]
pub struct Exp {
    pub index: usize,
    /// permitted outcomes; None when the specification leaves the input open
    pub allowed: Option<BTreeSet<String>>,
    pub sig: Option<SigM>,
    /// the name that must be queried
    pub lookup: Option<String>,
    /// permitted key records; None when any
    pub records: Option<Vec<Option<KeyM>>>,
}

impl Exp {
    pub fn success(&self) -> bool {
        self.allowed.as_ref().map_or(false, |a| a.contains("Success"))
    }
}

fn one(s: impl Into<String>) -> Option<BTreeSet<String>> {
    Some([s.into()].into())
}

pub struct Scene<'a> {
    pub headers: &'a [Hdr],
    pub body: &'a [u8],
    pub config: &'a Config,
    pub dns: &'a HashMap<String, Entry>,
}

/// The test key with the given public key data.
pub fn key_of(ed: bool, data: &[u8]) -> Option<&'static world::TestKey> {
    static M: OnceLock<Mutex<HashMap<Vec<u8>, usize>>> = OnceLock::new();
    let m = M.get_or_init(|| {
        let mut m = HashMap::new();
        for (i, k) in world::keys().iter().enumerate() {
            m.insert(k.public(false), i);
            m.insert(k.public(true), i);
        }
        Mutex::new(m)
    });
    let i = *m.lock().unwrap().get(data)?;
    let k = &world::keys()[i];
    (k.ed == ed).then_some(k)
}

/// The header fields other than the signature at hand, which h= never means.
pub fn others(h: &[Hdr], sig: usize) -> Vec<Hdr> {
    let mut h = h.to_vec();
    h.remove(sig);
    h
}

pub fn is_sig(h: &Hdr) -> bool {
    h.0.eq_ignore_ascii_case("DKIM-Signature")
}

pub fn now(config: &Config) -> u64 {
    config
        .fixed_system_time
        .unwrap_or_else(SystemTime::now)
        .duration_since(SystemTime::UNIX_EPOCH)
        .map_or(0, |d| d.as_secs())
}

pub fn count(list: impl Iterator<Item = impl AsRef<str>>, name: &str) -> usize {
    list.filter(|n| n.as_ref().eq_ignore_ascii_case(name)).count()
}

/// The policy defects decided from the header alone.
pub fn header_policy(m: &SigM, headers: &[Hdr], config: &Config) -> BTreeSet<String> {
    let mut bad = BTreeSet::new();
    for n in &config.headers_required_in_signature {
        if count(m.h.iter(), n.as_ref()) == 0 {
            bad.insert("Policy(RequiredHeaderNotSigned)".to_string());
        }
    }
    for n in &config.headers_forbidden_to_be_unsigned {
        if count(m.h.iter(), n.as_ref()) < count(headers.iter().map(|h| &h.0), n.as_ref()) {
            bad.insert("Policy(UnsignedHeaderOccurrence)".into());
        }
    }
    let (now, tol) = (now(config) as u128, config.time_tolerance.as_secs() as u128);
    if let (false, Some(x)) = (config.allow_expired, m.x) {
        // The sum saturates: at the end of time everything has expired.
        if now >= (x as u128 + tol).min(u64::MAX as u128) {
            bad.insert("Policy(SignatureExpired)".into());
        }
    }
    if let (false, Some(t)) = (config.allow_timestamp_in_future, m.t) {
        if t as u128 > now + tol {
            bad.insert("Policy(TimestampInFuture)".into());
        }
    }
    if m.alg == "rsa-sha1" && !config.allow_sha1 {
        bad.insert("Policy(Sha1HashAlgorithm)".into());
    }
    bad
}

/// What is wrong with verifying the signature using a record.
fn record_defects(m: &SigM, index: usize, value: &str, sc: &Scene, k: &KeyM) -> Option<BTreeSet<String>> {
    let mut bad = BTreeSet::new();
    let (ed, sha1) = (m.alg.starts_with("ed"), m.alg.ends_with("sha1"));
    if (k.k == "ed25519") != ed {
        bad.insert("WrongKeyType".to_string());
    }
    if k.p.is_empty() {
        bad.insert("KeyRevoked".into());
    }
    if !k.h.contains(&if sha1 { "sha1" } else { "sha256" }) {
        bad.insert("DisallowedHashAlgorithm".into());
    }
    if let (true, Some(i)) = (k.t.contains(&"s"), &m.i) {
        if model::a_label(&i.1) != model::a_label(&m.d) {
            bad.insert("DomainMismatch".into());
        }
    }
    if !bad.is_empty() {
        return Some(bad);
    }
    let Some(key) = key_of(ed, &k.p) else {
        // Unknown key data: certainly no success.
        return if k.p.len() < 20 {
            one("VerificationFailure(InvalidKey)")
        } else {
            None
        };
    };
    if !ed && key.bits < if world::SHA1 { 512 } else { 1024 } {
        bad.insert("VerificationFailure(InsufficientKeySize)".into());
    }
    if !ed && key.bits < sc.config.min_key_bits {
        bad.insert("Policy(KeyTooSmall)".into());
    }
    let data = model::signed_data(m.hc, &others(sc.headers, index), &m.h, &sc.headers[index].0, value);
    if !key.check(sha1, &model::hash(sha1, &data), &m.b) {
        bad.insert("VerificationFailure(VerificationFailure)".into());
    }
    Some(bad)
}

fn body_outcome(m: &SigM, sc: &Scene) -> BTreeSet<String> {
    let sha1 = m.alg.ends_with("sha1");
    let mut out = BTreeSet::new();
    for canon in model::body_canon(m.bc, sc.body) {
        let mut bad = BTreeSet::new();
        let len = canon.len() as u64;
        match m.l {
            Some(l) if l > len => {
                bad.insert("InsufficientContent".to_string());
            }
            l => {
                let l = l.unwrap_or(len);
                if sc.config.forbid_unsigned_content && l < len {
                    bad.insert("Policy(UnsignedContent)".into());
                }
                if model::hash(sha1, &canon[..l as usize]) != m.bh {
                    bad.insert("BodyHashMismatch".into());
                }
            }
        }
        if bad.is_empty() {
            bad.insert("Success".into());
        }
        out.extend(bad);
    }
    out
}

pub fn predict(sc: &Scene) -> Vec<Exp> {
    let mut v = vec![];
    let sigs = sc.headers.iter().enumerate().filter(|(_, h)| is_sig(h)).take(sc.config.max_signatures);
    for (index, (_, value)) in sigs {
        let mut e = Exp { index, allowed: None, sig: None, lookup: None, records: Some(vec![None]) };
        v.push({
            predict_one(&mut e, value, sc);
            e
        });
    }
    v
}

fn predict_one(e: &mut Exp, value: &[u8], sc: &Scene) {
    let Ok(value) = std::str::from_utf8(value) else {
        e.allowed = one("DkimSignatureFormat(Utf8Encoding)");
        return;
    };
    let m = match model::signature(value, world::SHA1) {
        Parse::Ok(m) => m,
        Parse::Err(k, _) => {
            e.allowed = Some(k.iter().map(|k| format!("DkimSignatureFormat({k})")).collect());
            return;
        }
        Parse::Unspec => {
            e.records = None;
            return;
        }
    };
    e.sig = Some(m.clone());
    let index = e.index;
    let bad = header_policy(&m, sc.headers, sc.config);
    if !bad.is_empty() {
        e.allowed = Some(bad);
        return;
    }
    let q = world::query_name(&m.s, &m.d);
    e.lookup = Some(q.clone());
    let txts = match sc.dns.get(&q) {
        None => {
            e.allowed = one("NoKeyFound");
            return;
        }
        Some(en) if en.never || en.delay.map_or(false, |d| d > sc.config.lookup_timeout) => {
            e.allowed = one("Timeout");
            return;
        }
        Some(en) => match &en.answer {
            Answer::Err(k) => {
                e.allowed = one(match k {
                    ErrorKind::NotFound => "NoKeyFound",
                    ErrorKind::InvalidInput => "InvalidKeyDomain",
                    ErrorKind::TimedOut => "Timeout",
                    _ => "KeyLookup",
                });
                return;
            }
            Answer::Txt(t) if t.is_empty() => {
                e.allowed = one("NoKeyFound");
                return;
            }
            Answer::Txt(t) => t,
        },
    };
    // Outcome of each record: defects (none: verifies), and the record.
    type O = (Option<BTreeSet<String>>, Option<Option<KeyM>>);
    let outcomes: Vec<O> = txts
        .iter()
        .map(|t| {
            let s = match t {
                Ok(b) => std::str::from_utf8(b).ok(),
                Err(_) => None,
            };
            let Some(s) = s else { return (one("KeyRecordFormat(RecordFormat)"), Some(None)) };
            match model::key_record(s, world::SHA1) {
                Parse::Err(k, _) => {
                    (Some(k.iter().map(|k| format!("KeyRecordFormat({k})")).collect()), Some(None))
                }
                Parse::Unspec => (None, None),
                Parse::Ok(k) => (record_defects(&m, index, value, sc, &k), Some(Some(k))),
            }
        })
        .collect();
    let passes = |o: &O| o.0.as_ref().map_or(false, |b| b.is_empty());
    if outcomes.iter().any(|o| o.0.is_none()) {
        e.records = None;
        return; // open
    }
    // Of four and more records some three are tried.
    let n = outcomes.len();
    let must = &outcomes[..if n <= 3 { n } else { 2 }];
    let first = must.iter().position(passes);
    let mut allowed = BTreeSet::new();
    let mut records = vec![];
    let ok: Vec<&O> = match first {
        Some(i) => vec![&outcomes[i]],
        None => outcomes.iter().filter(|o| passes(o)).collect(),
    };
    for o in &ok {
        allowed.extend(body_outcome(&m, sc));
        records.push(o.1.clone().unwrap());
    }
    if first.is_none() {
        // all tried ones fail: the last of them
        let tail = if n <= 3 { &outcomes[n - 1..] } else { &outcomes[2..] };
        for o in tail.iter().filter(|o| !passes(o)) {
            allowed.extend(o.0.clone().unwrap());
            records.push(o.1.clone().unwrap());
        }
    }
    e.allowed = Some(allowed);
    e.records = Some(records);
}

// ---------------------------------------------------------------- comparison

/// Differences between a parsed signature and the model.
pub fn diff_sig(s: &DkimSignature, m: &SigM) -> Option<String> {
    let mut d = vec![];
    let alg = format!("{}", s.algorithm);
    let mut cmp = |n: &str, ok: bool, got: String, want: String| {
        if !ok {
            d.push(format!("{n} is {got} but should be {want}"));
        }
    };
    macro_rules! c {
        ($n:literal, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            cmp($n, a == b, format!("{a:?}"), format!("{b:?}"));
        }};
    }
    let rel = |c: CanonicalizationAlgorithm| c == CanonicalizationAlgorithm::Relaxed;
    c!("algorithm", alg.as_str(), m.alg.as_str());
    c!("signature data", &s.signature_data[..], &m.b[..]);
    c!("body hash", &s.body_hash[..], &m.bh[..]);
    c!("header canonicalization relaxed", rel(s.canonicalization.header), m.hc);
    c!("body canonicalization relaxed", rel(s.canonicalization.body), m.bc);
    c!("domain", s.domain.as_ref(), m.d.as_str());
    c!(
        "signed headers",
        s.signed_headers.iter().map(|n| n.as_ref()).collect::<Vec<&str>>(),
        m.h.iter().map(|n| n.as_str()).collect::<Vec<&str>>()
    );
    c!(
        "identity",
        s.identity
            .as_ref()
            .map(|i| (i.local_part.as_ref().map(|s| s.to_string()), i.domain.as_ref().to_string())),
        m.i.clone()
    );
    c!("body length", s.body_length, m.l);
    c!("selector", s.selector.as_ref(), m.s.as_str());
    c!("timestamp", s.timestamp, m.t);
    c!("expiration", s.expiration, m.x);
    c!(
        "copied headers",
        s.copied_headers
            .iter()
            .map(|(n, v)| (n.as_ref().to_string(), v.to_vec()))
            .collect::<Vec<_>>(),
        m.z.clone()
    );
    c!(
        "extension tags",
        s.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect::<Vec<_>>(),
        m.ext.clone()
    );
    (!d.is_empty()).then(|| d.join("; "))
}

pub fn diff_key(k: &DkimKeyRecord, m: &KeyM) -> Option<String> {
    let mut d = vec![];
    macro_rules! c {
        ($n:literal, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                d.push(format!("{} is {a:?} but should be {b:?}", $n));
            }
        }};
    }
    let strs = |v: &[&'static str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let sorted = |mut v: Vec<String>| {
        v.sort();
        v
    };
    let got: Vec<String> = k.hash_algorithms.iter().map(|a| a.to_string()).collect();
    if m.h.len() == 2 && got.len() == 2 {
        // the order of the defaults is no matter
        c!("hash algorithms", sorted(got), sorted(strs(&m.h)));
    } else {
        c!("hash algorithms", got, strs(&m.h));
    }
    c!("key type", k.key_type.to_string(), m.k.to_string());
    c!("notes", k.notes.as_ref().map(|s| s.to_string()), m.n.clone());
    c!("key data", k.key_data.to_vec(), m.p.clone());
    c!(
        "service types",
        k.service_types.iter().map(|a| a.to_string()).collect::<Vec<_>>(),
        strs(&m.s)
    );
    c!("flags", k.flags.iter().map(|a| a.to_string()).collect::<Vec<_>>(), strs(&m.t));
    c!(
        "extension tags",
        k.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect::<Vec<_>>(),
        m.ext.clone()
    );
    (!d.is_empty()).then(|| d.join("; "))
}

/// Compares actual results with the predicted ones: (key, message) on difference.
pub fn diff_results(
    got: Option<&[VerificationResult]>,
    exp: &[Exp],
) -> Option<(String, String)> {
    diff_focused(got, exp, &[""])
}

/// The same, but with regard to statuses that begin like one of those in focus
/// only. The empty status stands for everything, attachments included.
pub fn diff_focused(
    got: Option<&[VerificationResult]>,
    exp: &[Exp],
    focus: &[&str],
) -> Option<(String, String)> {
    let all = focus.contains(&"");
    let matters = |s: &String| focus.iter().any(|f| s.starts_with(f));
    if !all && got.map_or(0, |g| g.len()) != exp.len() {
        return None; // another property's business
    }
    let Some(got) = got else {
        return (!exp.is_empty()).then(|| ("no verifier".into(), format!("no verifier, but expected {exp:?}")));
    };
    if exp.is_empty() {
        return Some(("verifier without signatures".into(), format!("{got:?}")));
    }
    if got.len() != exp.len() {
        return Some((
            "number of results".into(),
            format!("{} results instead of {}", got.len(), exp.len()),
        ));
    }
    for (i, (g, e)) in got.iter().zip(exp).enumerate() {
        if all && g.index != e.index {
            return Some(("index".into(), format!("result {i} has index {} instead of {}", g.index, e.index)));
        }
        let s = status(&g.status);
        if let Some(a) = &e.allowed {
            if !a.contains(&s) && (matters(&s) || a.iter().any(matters)) {
                let a: Vec<&String> = a.iter().collect();
                return Some((
                    format!("status {}", if a.len() == 1 { a[0].as_str() } else { "of several" }),
                    format!("result {i} is {s} instead of {a:?} (of all: {:?})", got.iter().map(|g| status(&g.status)).collect::<Vec<_>>()),
                ));
            }
            match (&g.signature, &e.sig) {
                _ if !all => {}
                (None, None) => {}
                (Some(g), Some(m)) => {
                    if let Some(d) = diff_sig(g, m) {
                        return Some(("attached signature".into(), format!("result {i}: {d}")));
                    }
                }
                (g, _) => {
                    return Some((
                        "attached signature".into(),
                        format!("result {i} ({s}): signature attached: {}", g.is_some()),
                    ))
                }
            }
        }
        if let (Some(rs), true) = (&e.records, all) {
            let ok = rs.iter().any(|r| match (&g.key_record, r) {
                (None, None) => true,
                (Some(k), Some(m)) => diff_key(k, m).is_none(),
                _ => false,
            });
            if !ok {
                return Some((
                    "attached key record".into(),
                    format!("result {i} ({s}): key record {:?} instead of one of {rs:?}", g.key_record),
                ));
            }
        }
    }
    None
}

/// Counts for evidence.
pub fn tally(got: &[VerificationResult]) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for g in got {
        *m.entry(format!("result {}", status(&g.status))).or_default() += 1;
    }
    m
}
