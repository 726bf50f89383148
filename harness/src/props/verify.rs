//! Verification policy, key records, lookups and results: C13 to C20, C28.

use super::*;
use crate::{
    case::{fail, show, show_headers, Case, R},
    ensure,
    gen::{ForeignSpec, BIG_TIMES},
    refv::{self, Exp, Scene},
    world::{Answer, Call},
};
use std::{
    io::ErrorKind,
    time::{Duration, SystemTime},
};
use viadkim::{
    crypto,
    header::FieldName,
    record::DkimKeyRecordError,
    signature::{DkimSignatureError, DkimSignatureErrorKind},
    verifier::{
        DkimResult, PolicyError, VerificationError, VerificationResult, VerificationStatus,
        Verifier,
    },
};

struct Seen {
    results: Vec<VerificationResult>,
    exp: Vec<Exp>,
    calls: Vec<Call>,
    elapsed: Duration,
}

pub fn describe(h: &[Hdr], body: &[u8], cfg: &Config, recs: &HashMap<String, Entry>) -> String {
    let mut r: Vec<_> = recs.iter().collect();
    r.sort_by_key(|e| e.0);
    let mut s = format!("headers:{}\n  body {}\n  config {cfg:?}\n  records:", show_headers(h), show(body));
    for (n, e) in r {
        let a = match &e.answer {
            Answer::Err(k) => format!("{k:?}"),
            Answer::Txt(t) => t
                .iter()
                .map(|t| match t {
                    Ok(b) => show(b),
                    Err(k) => format!("{k:?}"),
                })
                .collect::<Vec<_>>()
                .join(", "),
        };
        s.push_str(&format!("\n    {n} [{a}] delay {:?} never {} yields {}", e.delay, e.never, e.yields));
    }
    s
}

/// Verifies the message and compares all results with the reference.
fn judged(c: &mut Case<'_>, h: &[Hdr], body: &[u8], cfg: &Config, recs: &HashMap<String, Entry>) -> R<Seen> {
    judged_as(c, h, body, cfg, cfg, recs)
}

/// The same, but the reference goes by a configuration of its own.
fn judged_as(c: &mut Case<'_>, h: &[Hdr], body: &[u8], cfg: &Config, meant: &Config, recs: &HashMap<String, Entry>) -> R<Seen> {
    let exp = refv::predict(&Scene { headers: h, body, config: meant, dns: recs });
    let d = dns(recs);
    let hf = mk(h);
    let ch = gen::chunks(&mut c.rng, body);
    let stop = c.rng.coin();
    let out = world::block_on(async {
        let t0 = tokio::time::Instant::now();
        let v = Verifier::verify_header(&d, &hf, cfg).await;
        (v, t0.elapsed())
    });
    let Ok((v, elapsed)) = out else {
        return fail("never completed", format!("verify_header never completed\n  {}", describe(h, body, cfg, recs)));
    };
    let res = v.map(|mut v| {
        for x in &ch {
            if v.process_body_chunk(x) == viadkim::message_hash::BodyHasherStance::Done && stop {
                break;
            }
        }
        v.finish()
    });
    if let Some((k, m)) = refv::diff_results(res.as_deref(), &exp) {
        return fail(k, format!("{m}\n  {}", describe(h, body, cfg, recs)));
    }
    let results = res.unwrap_or_default();
    for (k, n) in refv::tally(&results) {
        c.ev_n(&k, n);
    }
    Ok(Seen { results, exp, calls: d.calls(), elapsed })
}

/// Adds the signature on top, as signers do, or (half the time) anywhere above
/// the last field. The position comes from the value itself.
fn put(h: &mut Vec<Hdr>, f: &gen::Foreign) {
    let n = f.value.bytes().fold(17usize, |n, b| n.wrapping_mul(31).wrapping_add(b as usize)) >> 7;
    let i = if n % 2 == 0 { 0 } else { (n / 2) % h.len().max(1) };
    h.insert(i, (f.name.clone(), f.value.clone().into_bytes()));
}

fn publish(recs: &mut HashMap<String, Entry>, f: &ForeignSpec) {
    recs.insert(world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record()));
}

const FAST: &[&str] = &["ed_a", "ed_b", "ed_c", "rsa1024", "rsa1024b"];

fn plain(r: &mut Rng) -> ForeignSpec {
    let k = if r.one_in(4) { r.pick(FAST) } else { r.pick(&FAST[..3]) };
    let mut f = ForeignSpec::plain(world::key(k));
    f.hc = r.coin();
    f.bc = r.coin();
    f
}

// ---------------------------------------------------------------- everything at once

/// What a property says about statuses: a wrong verdict breaks it when either
/// the verdict reported or one of those due is among these.
struct Focus(&'static [&'static str]);

const TIMES: Focus = Focus(&["Policy(SignatureExpired)", "Policy(TimestampInFuture)"]);
const HEADERS: Focus = Focus(&["Policy(RequiredHeaderNotSigned)", "Policy(UnsignedHeaderOccurrence)"]);
const STRENGTH: Focus =
    Focus(&["Policy(KeyTooSmall)", "VerificationFailure(InsufficientKeySize)", "Policy(Sha1HashAlgorithm)"]);
const CONTENT: Focus = Focus(&["Policy(UnsignedContent)", "InsufficientContent", "BodyHashMismatch"]);
const RECORDS: Focus =
    Focus(&["KeyRevoked", "WrongKeyType", "DisallowedHashAlgorithm", "DomainMismatch", "KeyRecordFormat"]);
const ANY: Focus = Focus(&[""]);

/// Every setting at its default or any other value.
fn any_config(r: &mut Rng, now: u64) -> Config {
    let names = |r: &mut Rng| {
        let n = r.below(3);
        (0..n)
            .map(|_| {
                let n = *r.pick(&["From", "Subject", "To", "Cc", "X-A", "DKIM-Signature"]);
                FieldName::new(gen::recase(r, n)).unwrap()
            })
            .collect::<Vec<_>>()
    };
    let mut c = Config { fixed_system_time: Some(at(now, 0)), ..Config::default() };
    if r.one_in(5) {
        c.max_signatures = 1 + r.below(3);
    }
    if r.one_in(3) {
        c.headers_required_in_signature = names(r);
    }
    if r.one_in(3) {
        c.headers_forbidden_to_be_unsigned = names(r);
    }
    if r.coin() {
        c.min_key_bits = *r.pick(&[0, 512, 1023, 1024, 1025, 2047, 2048, 2049]);
    }
    c.allow_sha1 = r.coin();
    c.forbid_unsigned_content = r.coin();
    c.allow_expired = r.coin();
    c.allow_timestamp_in_future = r.coin();
    if r.coin() {
        c.time_tolerance = Duration::from_secs(*r.pick(&[0, 1, 5, 300, 100_000, u64::MAX]));
    }
    c
}

/// Signatures using every option at once, verified with any configuration and
/// any key records.
fn everything(c: &mut Case<'_>, focus: &Focus) -> R {
    let r = &mut c.rng;
    let now = 1_700_000_000u64;
    let cfg = any_config(r, now);
    let tol = cfg.time_tolerance.as_secs();
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    for _ in 0..r.below(4) {
        let n = *r.pick(&["Subject", "To", "Cc", "X-A", "x-a", "from", "From"]);
        let i = r.below(h.len() + 1);
        h.insert(i, (gen::recase(r, n), gen::field_value(r)));
    }
    let base = h.clone();
    let body = gen::body(r, 60);
    let mut recs = HashMap::new();
    let mut sigs = vec![];
    for i in 0..r.range(1, 3) {
        let mut f = plain(r);
        f.key = if r.coin() { f.key } else { any_key(r) };
        f.sha1 = !f.key.ed && r.one_in(3);
        f.selector = if r.one_in(4) { "sel".into() } else { format!("s{i}") };
        f.domain = (*r.pick(&["example.com", "example.com", "example.org", "EXAMPLE.com", "mail.example.com"])).into();
        f.h = vec!["From".into()];
        for x in base.iter().map(|h| h.0.clone()).chain(["To".into(), "X-B".into(), "From".into()]) {
            if r.coin() {
                let i = r.below(f.h.len() + 1);
                f.h.insert(i, gen::recase(r, &x));
            }
        }
        let len = model::body_canon(f.bc, &body).remove(0).len() as u64;
        if r.coin() {
            f.l = Some(match r.below(4) {
                0 => len,
                1 => r.below(len as usize + 1) as u64,
                2 => 0,
                _ => (len + r.below(5) as u64).saturating_sub(2),
            });
        }
        if r.coin() {
            let b = *r.pick(&[now, now.saturating_add(tol), now.saturating_sub(tol), 0]);
            f.t = Some(near(r, b));
        }
        if r.coin() {
            let b = *r.pick(&[now, now.saturating_sub(tol), now.saturating_add(tol), u64::MAX]);
            let x = near(r, b);
            if f.t.map_or(true, |t| t < x) {
                f.x = Some(x);
            }
        }
        if r.coin() {
            let d = if r.coin() { f.domain.clone() } else { gen::subdomain(r, &f.domain) };
            f.identity = Some(format!("{}@{d}", r.pick(&["", "", "me", "a+b"])));
        }
        if r.one_in(4) {
            f.extra.push(((*r.pick(&["y", "foo", "r", "atps"])).into(), (*r.pick(&["", "y", "a b", "example.com"])).into()));
        }
        if r.one_in(4) {
            f.extra.push(("z".into(), (*r.pick(&["From:a", "Subject:b|To:c", "X-A:=20d"])).into()));
        }
        f.odd = if r.one_in(4) { 15 } else { 0 };
        f.bad_bh = r.one_in(14);
        f.bad_data = r.one_in(14);
        f.bad_sig = r.one_in(30);
        let s = f.sign(r, &base, &body);
        if r.coin() {
            put(&mut h, &s);
        } else {
            h.insert(0, (s.name.clone(), s.value.clone().into_bytes()));
        }
        let e = match r.below(8) {
            0..=3 => Entry::txt(f.key.record()),
            4 => Entry::txt(gen::record_any(r, f.key, 15)),
            5 => Entry::txt(some_record(r, f.key)),
            6 => some_entry(r, f.key, 3),
            _ => {
                let mut a = vec![Ok(some_record(r, f.key)), Ok(f.key.record().into_bytes())];
                r.shuffle(&mut a);
                Entry::of(Answer::Txt(a))
            }
        };
        if !r.one_in(30) {
            recs.entry(world::query_name(&f.selector, &f.domain)).or_insert(e);
        }
        sigs.push(f);
    }
    // on its way, the message may change
    let mut body = body;
    match r.below(12) {
        0 => body.extend_from_slice(b"more\r\n"),
        1 => body.truncate(r.below(body.len() + 1)),
        2 if !body.is_empty() => {
            let i = r.below(body.len());
            body[i] = body[i].wrapping_add(1);
        }
        3 => h.insert(0, ("Subject".into(), b" other".to_vec())),
        4 => h.push(("X-A".into(), b" other".to_vec())),
        5 => h.insert(0, ("From".into(), b" me".to_vec())),
        _ => {}
    }
    let scene = Scene { headers: &h, body: &body, config: &cfg, dns: &recs };
    let exp = refv::predict(&scene);
    let d = dns(&recs);
    let ch = gen::chunks(r, &body);
    let stop = r.coin();
    let res = world::verify(&mk(&h), &d, &cfg, &ch, stop);
    if let Some((k, m)) = refv::diff_focused(res.as_deref(), &exp, focus.0) {
        return fail(k, format!("{m}\n  {}", describe(&h, &body, &cfg, &recs)));
    }
    let results = res.unwrap_or_default();
    for (k, n) in refv::tally(&results) {
        c.ev_n(&k, n);
    }
    c.nontrivial(describe(&h, &body, &cfg, &recs).as_bytes());
    c.sample(|| format!("{cfg:?}: {:?}", statuses(&results)));
    Ok(())
}

pub fn everything_headers(c: &mut Case<'_>) -> R {
    everything(c, &HEADERS)
}

fn everything_times(c: &mut Case<'_>) -> R {
    everything(c, &TIMES)
}

fn everything_strength(c: &mut Case<'_>) -> R {
    everything(c, &STRENGTH)
}

fn everything_content(c: &mut Case<'_>) -> R {
    everything(c, &CONTENT)
}

fn everything_records(c: &mut Case<'_>) -> R {
    everything(c, &RECORDS)
}

fn everything_any(c: &mut Case<'_>) -> R {
    everything(c, &ANY)
}

// ---------------------------------------------------------------- C13

pub fn c13() -> Vec<Workload> {
    vec![
        wl("edges", 120_000, 3_000_000, c13_edges),
        wl("real-clock", 8_000, 200_000, c13_real),
        wl("own-signatures", 8_000, 200_000, c13_own),
        wl("everything", 6_000, 200_000, everything_times),
    ]
}

fn near(r: &mut Rng, n: u64) -> u64 {
    let d = match r.below(3) {
        0 => 0,
        1 => r.below(3) as u64,
        _ => r.below(700) as u64,
    };
    if r.coin() {
        n.saturating_add(d)
    } else {
        n.saturating_sub(d)
    }
}

fn some_time(r: &mut Rng) -> u64 {
    if r.coin() {
        *r.pick(BIG_TIMES)
    } else {
        1_600_000_000 + r.below(300_000_000) as u64
    }
}

fn at(secs: u64, nanos: u32) -> SystemTime {
    SystemTime::UNIX_EPOCH
        .checked_add(Duration::new(secs, nanos))
        .unwrap_or_else(|| SystemTime::UNIX_EPOCH + Duration::from_secs(i64::MAX as u64))
}

fn c13_edges(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = plain(r);
    let tol = match r.below(4) {
        0 => 300,
        1 => 0,
        2 => *r.pick(BIG_TIMES),
        _ => r.below(1000) as u64,
    };
    let now = some_time(r);
    if !r.one_in(6) {
        let b = match r.below(4) {
            0 => some_time(r),
            1 => now,
            2 => now.saturating_add(tol),
            _ => now.saturating_sub(tol),
        };
        f.t = Some(near(r, b));
    }
    if !r.one_in(6) {
        let b = match r.below(5) {
            0 => some_time(r),
            1 => now,
            2 => now.saturating_add(tol),
            3 => f.t.unwrap_or(now),
            _ => now.saturating_sub(tol),
        };
        f.x = Some(near(r, b));
    }
    let now = near(r, now);
    let fixed = if r.one_in(20) {
        // before the epoch
        SystemTime::UNIX_EPOCH
            .checked_sub(Duration::new(*r.pick(&[0, 1, 300, 1 << 40]), *r.pick(&[1, 999_999_999])))
            .unwrap()
    } else {
        at(now, if r.coin() { 0 } else { r.below(1_000_000_000) as u32 })
    };
    f.odd = if r.one_in(3) { 20 } else { 0 };
    f.bad_data = r.one_in(10);
    f.bad_bh = r.one_in(10);
    let cfg = Config {
        allow_expired: r.one_in(4),
        allow_timestamp_in_future: r.one_in(4),
        time_tolerance: Duration::from_secs(tol),
        fixed_system_time: Some(fixed),
        ..permissive()
    };
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let s = f.sign(r, &h, b"hi\r\n");
    put(&mut h, &s);
    let mut recs = HashMap::new();
    publish(&mut recs, &f);
    let seen = judged(c, &h, b"hi\r\n", &cfg, &recs)?;
    if f.t.is_some() || f.x.is_some() {
        c.nontrivial(format!("{:?} {:?} {tol} {fixed:?} {}", f.t, f.x, cfg.allow_expired).as_bytes());
    }
    let now = refv::now(&cfg) as u128;
    if let Some(x) = f.x {
        let e = x as u128 + tol as u128;
        c.ev(if now == e { "exactly at expiration" } else if now + 1 == e { "a second before expiration" } else { "other expiration" });
    }
    if let Some(t) = f.t {
        let e = now + tol as u128;
        c.ev(if t as u128 == e { "exactly at timestamp limit" } else if t as u128 == e + 1 { "a second past timestamp limit" } else { "other timestamp" });
    }
    c.sample(|| format!("t={:?} x={:?} tolerance {tol} now {fixed:?}: {:?}", f.t, f.x, statuses(&seen.results)));
    Ok(())
}

/// The actual clock, far enough from the limits not to matter.
fn c13_real(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = plain(r);
    let now = refv::now(&Config::default());
    let far = |r: &mut Rng, n: u64| {
        let d = 1000 + r.below(100_000) as u64;
        if r.coin() { n + d } else { n - d }
    };
    let tol = *r.pick(&[0u64, 300, 86_400]);
    let close = r.coin();
    let step = |r: &mut Rng, b: u64| if close { b + r.below(7) as u64 - 3 } else { far(r, b) };
    if r.coin() {
        let b = if close || r.coin() { now + tol } else { now - tol };
        f.t = Some(step(r, b));
    }
    if r.coin() {
        let b = if !close && r.coin() { now + tol } else { now - tol };
        f.x = Some(step(r, b));
    }
    let cfg = Config {
        allow_expired: r.one_in(4),
        allow_timestamp_in_future: r.one_in(4),
        time_tolerance: Duration::from_secs(tol),
        ..permissive()
    };
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let s = f.sign(r, &h, b"");
    put(&mut h, &s);
    let mut recs = HashMap::new();
    publish(&mut recs, &f);
    if close {
        // As if the clock had been fixed at the second in which it was read.
        let before = refv::now(&Config::default());
        let res = world::verify(&mk(&h), &dns(&recs), &cfg, &[], false);
        let after = refv::now(&Config::default());
        if before != after {
            c.ev("clock ticked meanwhile");
            return Ok(());
        }
        let fixed = Config { fixed_system_time: Some(at(before, 0)), ..cfg.clone() };
        let exp = refv::predict(&Scene { headers: &h, body: b"", config: &fixed, dns: &recs });
        if let Some((k, m)) = refv::diff_results(res.as_deref(), &exp) {
            return fail(k, format!("actual clock {before}: {m}\n  {}", describe(&h, b"", &cfg, &recs)));
        }
        c.ev("actual clock within seconds of a limit");
        c.nontrivial(format!("{:?} {:?} {tol}", f.t.map(|t| t as i64 - before as i64), f.x.map(|t| t as i64 - before as i64)).as_bytes());
        return Ok(());
    }
    // stay off the limits themselves
    let near = |a: Option<u64>, b: u64| a.is_some_and(|a| a.abs_diff(b) < 600);
    if near(f.t, now + tol) || near(f.x, now - tol) {
        return Ok(());
    }
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    c.ev("actual clock");
    c.nontrivial(format!("{:?} {:?} {tol}", f.t.map(|t| t as i64 - now as i64), f.x.map(|t| t as i64 - now as i64)).as_bytes());
    c.sample(|| format!("{:?}", statuses(&seen.results)));
    Ok(())
}

/// Validity asked for when signing, observed at various times.
fn c13_own(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut s = Spec::plain(world::key(r.pick(&FAST[..3])));
    s.ts = match r.below(4) {
        0 => Ts::None,
        1 => Ts::Now,
        _ => Ts::Exact(some_time(r).min(u64::MAX - 10)),
    };
    s.valid = match r.below(4) {
        0 => None,
        1 => Some(Duration::from_millis(1000 + r.below(9000) as u64)),
        _ => Some(Duration::from_secs(1 + r.below(1_000_000) as u64)),
    };
    let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let before = refv::now(&Config::default());
    let Ok(Ok(out)) = sign_all(&h, std::slice::from_ref(&s), &[], false).map(|mut v| v.remove(0)) else {
        return fail("not signed", format!("valid request not signed: {s:?}"));
    };
    let after = refv::now(&Config::default());
    // What was asked for is what is in the signature.
    let t = match s.ts {
        Ts::Exact(t) => (t, t),
        _ => (before, after),
    };
    match (&s.ts, out.signature.timestamp) {
        (Ts::None, None) => {}
        (Ts::None, Some(_)) | (_, None) => return fail("timestamp presence", format!("{s:?} gives {:?}", out.header_value)),
        (_, Some(v)) => ensure!(t.0 <= v && v <= t.1, "timestamp value", "{v} for {s:?}"),
    }
    match (s.valid, out.signature.expiration) {
        (None, None) => {}
        (Some(d), Some(x)) => {
            let d = d.as_secs();
            ensure!(
                t.0.saturating_add(d) <= x && x <= t.1.saturating_add(d),
                "expiration value",
                "{x} for {s:?}"
            );
        }
        _ => return fail("expiration presence", format!("{s:?} gives {:?}", out.header_value)),
    }
    let signed = stack(&[&out], &h);
    let recs = records(r, std::slice::from_ref(&s), 0);
    let tol = *r.pick(&[0, 1, 300]);
    for _ in 0..3 {
        let r = &mut c.rng;
        let base = match (out.signature.expiration, out.signature.timestamp) {
            (Some(x), _) if r.coin() => x.saturating_add(tol),
            (_, Some(t)) => t.saturating_sub(tol),
            (Some(x), _) => x,
            _ => before,
        };
        let cfg = Config {
            fixed_system_time: Some(at(near(r, base), 0)),
            time_tolerance: Duration::from_secs(tol),
            allow_expired: r.one_in(6),
            allow_timestamp_in_future: r.one_in(6),
            ..Config::default()
        };
        let seen = judged(c, &signed, b"", &cfg, &recs)?;
        c.nontrivial(format!("{:?} {:?} {cfg:?}", out.signature.timestamp, out.signature.expiration).as_bytes());
        c.sample(|| format!("{:?} validity {:?} at {:?}: {:?}", s.ts, s.valid, cfg.fixed_system_time, statuses(&seen.results)));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

pub fn c14() -> Vec<Workload> {
    vec![
        wl("sizes", 20_000, 600_000, c14_sizes),
        wl("sha1", 10_000, 300_000, c14_sha1),
        wl("several", 1500, 60_000, c14_several),
        wl("everything", 6_000, 200_000, everything_strength),
    ]
}

fn some_min(r: &mut Rng, bits: usize) -> usize {
    match r.below(4) {
        0 => *r.pick(&[0, 1, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 4097, usize::MAX]),
        1 => bits,
        2 => bits + 1,
        _ => bits - 1,
    }
}

fn any_key(r: &mut Rng) -> &'static world::TestKey {
    loop {
        let k = &world::keys()[r.below(world::keys().len())];
        if k.bits <= 2048 || r.one_in(12) {
            return k;
        }
    }
}

fn c14_sizes(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = plain(r);
    f.key = any_key(r);
    f.sha1 = !f.key.ed && r.one_in(4);
    f.bad_data = r.one_in(15);
    f.bad_bh = r.one_in(15);
    let cfg = Config {
        min_key_bits: some_min(r, f.key.bits),
        allow_sha1: r.coin(),
        ..if r.coin() { permissive() } else { Config::default() }
    };
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let s = f.sign(r, &h, b"hi\r\n");
    put(&mut h, &s);
    let mut recs = HashMap::new();
    let odd = if r.coin() { 0 } else { 20 };
    let rec = gen::record_any(r, f.key, odd);
    recs.insert(world::query_name(&f.selector, &f.domain), Entry::txt(rec));
    let seen = judged(c, &h, b"hi\r\n", &cfg, &recs)?;
    c.ev(&format!("key {}", f.key.name));
    c.nontrivial(format!("{} {} {} {}", f.key.name, cfg.min_key_bits, f.sha1, cfg.allow_sha1).as_bytes());
    c.sample(|| format!("{} minimum {} sha1 {}: {:?}", f.key.name, cfg.min_key_bits, f.sha1, statuses(&seen.results)));
    Ok(())
}

fn c14_sha1(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = plain(r);
    f.key = world::key(r.pick(&["rsa1024", "rsa1024b", "rsa1024", "rsa2048", "rsa512", "rsa1023"]));
    f.sha1 = !r.one_in(4);
    f.odd = if r.coin() { 0 } else { 15 };
    let cfg = Config { allow_sha1: r.coin(), min_key_bits: *r.pick(&[0, 512, 1024]), ..permissive() };
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut s = f.sign(r, &h, b"");
    if r.one_in(4) {
        // a signature with one algorithm declared as another
        let to = *r.pick(&["rsa-sha256", "rsa-sha1", "ed25519-sha256", "ed25519-sha1", "sha1", "rsa-SHA1"]);
        if let Some(i) = s.value.to_ascii_lowercase().find("rsa-sha") {
            let n = if s.value[i..].to_ascii_lowercase().starts_with("rsa-sha256") { 10 } else { 8 };
            s.value.replace_range(i..i + n, to);
        }
    }
    put(&mut h, &s);
    let mut recs = HashMap::new();
    let rec = format!(
        "v=DKIM1; {}{}p={}",
        r.pick(&["", "h=sha1; ", "h=sha256; ", "h=sha1:sha256; ", "h=sha256:sha1; ", "h=SHA1; ", "h=x; "]),
        r.pick(&["", "k=rsa; "]),
        model::b64_encode(&f.key.public(r.coin()))
    );
    recs.insert(world::query_name(&f.selector, &f.domain), Entry::txt(rec.clone()));
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    if f.sha1 {
        for g in &seen.results {
            ensure!(
                g.status != VerificationStatus::Success || (world::SHA1 && cfg.allow_sha1),
                "SHA-1 accepted", "{}", describe(&h, b"", &cfg, &recs)
            );
        }
        c.ev("SHA-1 signature");
    }
    c.nontrivial(format!("{rec}{cfg:?}{h:?}").as_bytes());
    c.sample(|| format!("sha1 {} allowed {} record {rec:.60}: {:?}", f.sha1, cfg.allow_sha1, statuses(&seen.results)));
    Ok(())
}

/// Weak and strong keys in one message and in one record set.
fn c14_several(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut recs = HashMap::new();
    for i in 0..2 + r.below(3) {
        let mut f = plain(r);
        f.key = any_key(r);
        f.sha1 = !f.key.ed && r.one_in(4);
        f.selector = format!("s{i}");
        let s = f.sign(r, &h[h.len() - 1..], b"");
        put(&mut h, &s);
        let mut a: Vec<Result<Vec<u8>, ErrorKind>> = vec![Ok(f.key.record().into_bytes())];
        for _ in 0..r.below(3) {
            let i = r.below(a.len() + 1);
            a.insert(i, Ok(any_key(r).record().into_bytes()));
        }
        recs.insert(world::query_name(&f.selector, &f.domain), Entry::of(Answer::Txt(a)));
    }
    let cfg = Config { min_key_bits: *r.pick(&[0, 512, 1000, 1024, 1025, 2048]), allow_sha1: r.coin(), ..permissive() };
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    c.nontrivial(format!("{h:?}{}", cfg.min_key_bits).as_bytes());
    c.sample(|| format!("{:?}", statuses(&seen.results)));
    Ok(())
}

// ---------------------------------------------------------------- C15

pub fn c15() -> Vec<Workload> {
    vec![
        wl("limits", 15_000, 500_000, c15_limits),
        wl("small-bodies", 6_000, 200_000, c15_small),
        wl("large", 150, 5_000, c15_large),
        wl("own-signatures", 4_000, 150_000, c15_own),
        wl_fixed("huge", 1, c15_huge),
        wl("everything", 6_000, 200_000, everything_content),
    ]
}

fn some_limit(r: &mut Rng, len: u64) -> Option<u64> {
    match r.below(8) {
        0 => None,
        1 => Some(len),
        2 => Some(len + 1),
        3 => Some(len.saturating_sub(1)),
        4 => Some(*r.pick(&[0, 1, 2, 3, 4, len + 2, len.saturating_sub(2), len * 2 + 10])),
        5 => Some(*r.pick(BIG_TIMES)),
        _ => Some(r.below(len as usize + 3) as u64),
    }
}

/// A change of the body around the limit, in canonical form.
fn other_body(r: &mut Rng, b: &[u8], limit: usize) -> Vec<u8> {
    let mut b = b.to_vec();
    match r.below(8) {
        0 => {}
        1 => b.extend(gen::body(r, 50)),
        2 => b.extend(*r.pick(&[&b"x"[..], b" ", b"\r\n", b" \r\n", b"\r\n\r\n", b"\n", b"\r", b"x\r\n"])),
        3 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        4 if !b.is_empty() => {
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
        }
        5 if !b.is_empty() => {
            // right at the limit
            let i = match r.below(3) {
                0 => limit.saturating_sub(1),
                1 => limit,
                _ => limit + 1,
            };
            if i < b.len() {
                b[i] = b[i].wrapping_add(1);
            } else {
                b.push(b'x');
            }
        }
        6 => {
            let i = limit.min(b.len());
            let (tail, new) = (b.len() - i, gen::body(r, 20));
            if tail > 0 {
                b.truncate(i);
            }
            b.extend(new);
        }
        _ => {
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(b" \t\r\nx"));
        }
    }
    b
}

fn limit_case(c: &mut Case<'_>, body: &[u8], n: usize) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec()), ("To".into(), b" b".to_vec())];
    let mut recs = HashMap::new();
    let mut limit = 0;
    let base = h.clone();
    for i in 0..n {
        let mut f = plain(r);
        f.sha1 = world::SHA1 && !f.key.ed && r.coin();
        f.selector = format!("s{i}");
        f.bad_bh = r.one_in(12);
        f.l = some_limit(r, canon_len(body)(f.bc) as u64);
        limit = f.l.unwrap_or(0).min(1 << 40) as usize;
        let s = f.sign(r, &base, body);
        put(&mut h, &s);
        if !r.one_in(20) {
            publish(&mut recs, &f);
        }
    }
    let cfg = Config { forbid_unsigned_content: r.coin(), ..permissive() };
    let seen = judged(c, &h, body, &cfg, &recs)?;
    c.nontrivial(format!("{h:?}{:?}{}", crate::rng::hash_bytes(1, body), cfg.forbid_unsigned_content).as_bytes());
    c.sample(|| format!("forbid {} l={:?}: {:?}", cfg.forbid_unsigned_content, seen.exp.iter().map(|e| e.sig.as_ref().and_then(|s| s.l)).collect::<Vec<_>>(), statuses(&seen.results)));
    let first = statuses(&seen.results);
    for _ in 0..2 {
        let new = other_body(&mut c.rng, body, limit);
        let cfg = Config { forbid_unsigned_content: c.rng.coin(), ..permissive() };
        let seen = judged(c, &h, &new, &cfg, &recs)?;
        let now = statuses(&seen.results);
        for (a, b) in first.iter().zip(&now) {
            if a == "Success" {
                c.ev(&format!("changed body: {b}"));
            }
        }
        c.nontrivial(format!("{h:?}{:?}{}", crate::rng::hash_bytes(1, &new), cfg.forbid_unsigned_content).as_bytes());
    }
    Ok(())
}

fn c15_limits(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 400);
    let n = if c.rng.coin() { 1 } else { c.rng.range(2, 5) };
    limit_case(c, &b, n)
}

fn c15_small(c: &mut Case<'_>) -> R {
    let n = c.rng.below(6);
    let mut b = vec![];
    for _ in 0..n {
        b.extend(*c.rng.pick(&[&b"\r\n"[..], b" ", b"a", b"\t", b"\r", b"\n", b"bc"]));
    }
    let n = 1 + c.rng.below(2);
    limit_case(c, &b, n)
}

fn c15_large(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 1 << 18);
    let n = c.rng.range(1, 3);
    limit_case(c, &b, n)
}

/// Limits requested of the signer.
fn c15_own(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let body = gen::body(r, 300);
    let mut s = Spec::plain(world::key(r.pick(&FAST[..3])));
    s.bc = r.coin();
    let len = canon_len(&body)(s.bc) as u64;
    s.bl = match r.below(5) {
        0 => Bl::No,
        1 => Bl::All,
        _ => Bl::Exact(some_limit(r, len).unwrap_or(0)),
    };
    let ch = gen::chunks(r, &body);
    let out = match sign_all(&h, std::slice::from_ref(&s), &ch, r.coin()) {
        Ok(mut v) => v.remove(0),
        Err(e) => return fail("refused", format!("{e:?} for {s:?}")),
    };
    let want = sign_outcomes(&s, &body);
    let got = sign_outcome(&out);
    ensure!(want.contains(got.as_str()), "signing outcome", "{got:?} instead of {want:?} for {s:?} with body {}", show(&body));
    let Ok(out) = out else {
        c.ev("excessive length refused");
        return Ok(());
    };
    let Some(canon) = signed_canon(&s, &body, &out) else {
        return fail("body hash of the limited body", format!("{:?} for {s:?} with body {}", out.header_value, show(&body)));
    };
    let want = match s.bl {
        Bl::No => None,
        Bl::All => Some(canon.len() as u64),
        Bl::Exact(n) => Some(n),
    };
    ensure!(out.signature.body_length == want, "l= value", "{:?} instead of {want:?} for {s:?} with body {}", out.signature.body_length, show(&body));
    let signed = stack(&[&out], &h);
    let recs = records(&mut c.rng, std::slice::from_ref(&s), 0);
    let cfg = Config { forbid_unsigned_content: c.rng.coin(), ..Config::default() };
    let seen = judged(c, &signed, &body, &cfg, &recs)?;
    let new = other_body(&mut c.rng, &body, want.unwrap_or(0) as usize);
    judged(c, &signed, &new, &cfg, &recs)?;
    c.nontrivial(format!("{s:?}{body:?}{new:?}").as_bytes());
    c.sample(|| format!("{:?} of {} bytes: {:?}", s.bl, canon.len(), statuses(&seen.results)));
    Ok(())
}

/// More bytes than 32 bits count.
fn c15_huge(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let line = format!("{:077}\r\n", r.u64()).into_bytes();
    let chunk: Vec<u8> = line.iter().copied().cycle().take(line.len() * 200_000).collect();
    let n = (1usize << 32) / chunk.len() + 1;
    let len = (n * chunk.len()) as u64;
    let mut s = Spec::plain(world::key("ed_a"));
    let short = r.coin();
    s.bl = if short { Bl::Exact((1 << 32) + 77) } else { Bl::All };
    let ch = vec![&chunk[..]; n];
    let out = match sign_all(&h, std::slice::from_ref(&s), &ch, true).map(|mut v| v.remove(0)) {
        Ok(Ok(o)) => o,
        e => return fail("refused", format!("{e:?} for {s:?} and {len} bytes")),
    };
    let want = if short { (1 << 32) + 77 } else { len };
    ensure!(out.signature.body_length == Some(want), "l= value", "{:?} instead of {want} for {len} bytes", out.signature.body_length);
    let signed = stack(&[&out], &h);
    let recs = records(&mut c.rng, std::slice::from_ref(&s), 0);
    let cfg = Config { forbid_unsigned_content: c.rng.coin(), ..Config::default() };
    let res = world::verify(&mk(&signed), &dns(&recs), &cfg, &ch, true).unwrap();
    let want = if short && cfg.forbid_unsigned_content {
        VerificationStatus::Failure(VerificationError::Policy(PolicyError::UnsignedContent))
    } else {
        VerificationStatus::Success
    };
    ensure!(res.len() == 1 && res[0].status == want, "huge body", "{:?} instead of {want:?} for {:?} of {len} bytes", statuses(&res), s.bl);
    c.ev("results compared");
    c.ev_n("bytes", len);
    c.nontrivial(&line);
    Ok(())
}

// ---------------------------------------------------------------- C16

pub fn c16() -> Vec<Workload> {
    vec![
        wl("one-record", 40_000, 1_200_000, c16_one),
        wl("several-records", 30_000, 900_000, c16_many),
        wl("many-records", 400, 12_000, c16_crowd),
        wl("subdomain-flag", 20_000, 600_000, c16_flag),
        wl("everything", 6_000, 200_000, everything_records),
    ]
}

/// A record for the key, more or less usable for the signature.
fn some_record(r: &mut Rng, key: &world::TestKey) -> Vec<u8> {
    let p = |r: &mut Rng, k: &world::TestKey| model::b64_encode(&k.public(r.coin()));
    let good = p(r, key);
    let k = key.k();
    let s = match r.below(25) {
        0..=4 => gen::record_any(r, key, 15),
        5 => format!("k={k}; p="),
        6 => format!("v=DKIM1; k={k}; p= ;"),
        7 => format!("k={}; p={good}", if key.ed { "rsa" } else { "ed25519" }),
        8 => format!("p={good}"),
        9 => {
            let o = world::key(r.pick(FAST));
            o.record()
        }
        10 => format!("k={k}; h={}; p={good}", r.pick(&["sha1", "sha256", "x", "sha512", "sha1:x", "x:sha256", "SHA256", ""])),
        11 => format!("k={k}; t={}; p={good}", r.pick(&["s", "y", "s:y", "y:s", "S", "x", " s ", "y : s", ""])),
        12 => format!("k={k}; s={}; p={good}", r.pick(&["*", "email", "other", "other:*", "email:x", "", "tlsrpt"])),
        13 => format!("k={k}; t=s; h=sha1; p="),
        14 => format!("p={good}; v=DKIM1; k={k}"),
        15 => format!("v=DKIM2; k={k}; p={good}"),
        16 => format!("k=dsa; p={good}"),
        17 => format!("v=DKIM1; k={k}"),
        18 => format!("k={k}; p={}", model::b64_encode(&r.bytes(1 + (r.clone().below(19))))),
        19 => format!("k={k}; p={good}; p={good}"),
        21 => format!("k={k}; h={}; p={good}", gen::word_list(r, &["sha256", "sha256", "sha1"])),
        22 => format!("k={k}; t={}; p={good}", gen::word_list(r, &["s", "y"])),
        23 => format!("k={k}; s={}; p={good}", gen::word_list(r, &["*", "email"])),
        20 => (*r.pick(&["", "v=spf1 -all", ";", "hello", "p", "=", "k=rsa;;p=", "p=!"])).into(),
        _ => {
            let mut b = gen::record_any(r, key, 0).into_bytes();
            let i = r.below(b.len() + 1);
            b.insert(i, 0xff);
            return b;
        }
    };
    s.into_bytes()
}

fn some_entry(r: &mut Rng, key: &world::TestKey, max: usize) -> Entry {
    let n = r.range(1, max);
    let v = (0..n)
        .map(|_| {
            if r.one_in(12) {
                Err(*r.pick(&[ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::NotFound, ErrorKind::Other]))
            } else {
                Ok(some_record(r, key))
            }
        })
        .collect();
    Entry::of(Answer::Txt(v))
}

fn restricted(c: &mut Case<'_>, n: usize, maxrec: usize) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec()), ("Subject".into(), b" b".to_vec())];
    let base = h.clone();
    let mut recs = HashMap::new();
    let body = b"hi\r\n";
    for i in 0..n {
        let mut f = plain(r);
        f.sha1 = world::SHA1 && !f.key.ed && r.one_in(3);
        f.domain = gen::domain(r);
        f.selector = if r.one_in(3) { gen::selector(r) } else { format!("s{i}") };
        f.bad_bh = r.one_in(20);
        f.bad_data = r.one_in(12);
        if r.coin() {
            let d = gen::subdomain(r, &f.domain);
            f.identity = Some(if r.coin() { format!("@{d}") } else { format!("me@{d}") });
        }
        let s = f.sign(r, &base, body);
        put(&mut h, &s);
        let e = some_entry(r, f.key, maxrec);
        recs.entry(world::query_name(&f.selector, &f.domain)).or_insert(e);
    }
    let cfg = permissive();
    let seen = judged(c, &h, body, &cfg, &recs)?;
    for e in &seen.exp {
        let n = match e.lookup.as_ref().and_then(|l| recs.get(l)).map(|e| &e.answer) {
            Some(Answer::Txt(t)) => t.len(),
            _ => 0,
        };
        c.ev(&format!("{n} records{}", if e.success() { ", usable" } else { "" }));
    }
    c.nontrivial(describe(&h, body, &cfg, &recs).as_bytes());
    c.sample(|| format!("{:?} -> {:?}", recs.values().map(|e| format!("{e:?}").len()).collect::<Vec<_>>(), statuses(&seen.results)));
    Ok(())
}

fn c16_one(c: &mut Case<'_>) -> R {
    restricted(c, 1, 1)
}

fn c16_many(c: &mut Case<'_>) -> R {
    let n = if c.rng.coin() { 1 } else { 2 };
    restricted(c, n, 5)
}

/// An answer of hundreds of records of which few are of use.
fn c16_crowd(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut f = plain(r);
    if r.coin() {
        f.identity = Some(format!("@sub.{}", f.domain));
    }
    let s = f.sign(r, &h, b"");
    put(&mut h, &s);
    let n = gen::many(r, 3000);
    let (k, good) = (f.key.k(), f.key.record());
    let p = model::b64_encode(&f.key.public(false));
    let kinds = [
        format!("k={k}; p="),
        format!("k={k}; h=x; p={p}"),
        format!("k={k}; s=x; p={p}"),
        format!("k={k}; t=s; p={p}"),
        "v=spf1 -all".into(),
        String::new(),
        world::key(if f.key.name == "ed_a" { "ed_b" } else { "ed_a" }).record(),
    ];
    let mix = r.coin();
    let one = r.pick(&kinds).clone();
    let mut v: Vec<Result<Vec<u8>, ErrorKind>> = (0..n)
        .map(|_| {
            if mix && r.one_in(30) {
                Err(*r.pick(KINDS))
            } else {
                Ok((if mix { r.pick(&kinds) } else { &one }).clone().into_bytes())
            }
        })
        .collect();
    for _ in 0..r.below(3) {
        let at = *r.pick(&[v.len(), v.len() - 1, v.len() / 2, v.len().min(256)]);
        v.insert(at, Ok(good.clone().into_bytes()));
    }
    c.ev("answer of many records");
    let recs: HashMap<String, Entry> = [(world::query_name(&f.selector, &f.domain), Entry::of(Answer::Txt(v)))].into();
    let seen = judged(c, &h, b"", &permissive(), &recs)?;
    c.nontrivial(describe(&h, b"", &permissive(), &recs).as_bytes());
    c.sample(|| format!("{n} records: {:?}", statuses(&seen.results)));
    Ok(())
}

/// The flag t=s and spellings of the same domain and of subdomains.
fn c16_flag(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = plain(r);
    f.domain = gen::domain(r);
    f.selector = gen::selector(r);
    let d = gen::subdomain(r, &f.domain);
    f.identity = match r.below(6) {
        0 => None,
        1 => Some(format!("@{}", f.domain)),
        2 => Some(format!("{}@{d}", gen::local_part(r))),
        _ => Some(format!("@{d}")),
    };
    f.odd = if r.one_in(3) { 15 } else { 0 };
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let s = f.sign(r, &h, b"");
    put(&mut h, &s);
    let rec = format!(
        "k={}; t={}; p={}",
        f.key.k(),
        r.pick(&["s", "y:s", "s:y", "S", "x:s", "y", "y:x"]),
        model::b64_encode(&f.key.public(r.coin()))
    );
    let recs: HashMap<String, Entry> =
        [(world::query_name(&f.selector, &f.domain), Entry::txt(rec.clone()))].into();
    let seen = judged(c, &h, b"", &permissive(), &recs)?;
    c.nontrivial(format!("{rec}{:?}{}", f.identity, f.domain).as_bytes());
    c.sample(|| format!("d={} i={:?} {rec:.30}: {:?}", f.domain, f.identity, statuses(&seen.results)));
    Ok(())
}

// ---------------------------------------------------------------- C17, C18

pub fn c17() -> Vec<Workload> {
    vec![
        wl("queries", 12_000, 400_000, c17_queries),
        wl("spellings", 12_000, 400_000, c17_spellings),
        wl("errors", 12_000, 400_000, c17_errors),
        wl("many", 60, 2000, c17_many),
    ]
}

/// Queries made are the ones that must be made.
fn check_calls(c: &mut Case<'_>, seen: &Seen, what: &dyn Fn() -> String) -> R {
    let mut want: BTreeSet<String> = BTreeSet::new();
    let mut open = false;
    for e in &seen.exp {
        if let Some(l) = &e.lookup {
            want.insert(l.to_ascii_lowercase());
        }
        open |= e.allowed.is_none() && e.sig.is_none();
    }
    let mut got: Vec<String> = vec![];
    for k in &seen.calls {
        ensure!(k.name.is_ascii(), "query name not in ASCII form", "{:?}\n  {}", k.name, what());
        got.push(k.name.to_ascii_lowercase());
    }
    let set: BTreeSet<String> = got.iter().cloned().collect();
    ensure!(set.len() == got.len(), "query repeated", "{got:?}\n  {}", what());
    if open {
        return Ok(());
    }
    ensure!(set == want, "queries", "queries {set:?} but should be {want:?}\n  {}", what());
    c.ev_n("queries", got.len() as u64);
    c.ev_n("signatures sharing a query", (seen.exp.iter().filter(|e| e.lookup.is_some()).count() - want.len()) as u64);
    c.ev_n("signatures without query", seen.exp.iter().filter(|e| e.lookup.is_none()).count() as u64);
    Ok(())
}

/// Selectors and domains, all different, that are nearly the same.
fn near_pairs(r: &mut Rng) -> Vec<(String, String)> {
    let l: Vec<String> = (0..4).map(|_| (*r.pick(&["a", "b", "x1", "k-2", "example", "é", "mail_2"])).to_string()).collect();
    let of = |v: &[(&str, &str)]| v.iter().map(|p| (p.0.to_string(), p.1.to_string())).collect::<Vec<_>>();
    match r.below(7) {
        // the same labels, cut in other places
        0 => (1..4).map(|k| (l[..k].join("."), format!("{}.com", l[k..].join(".")))).collect(),
        1 => of(&[("abc", "d.com"), ("ab", "cd.com"), ("a", "bcd.com"), ("abcd", "com.com"), ("a.b", "cd.com"), ("a", "b.cd.com")]),
        // each other's
        2 => of(&[("x.com", "y.com"), ("y.com", "x.com"), ("x.com", "x.com"), ("y.com", "y.com")]),
        // a difference at the end, the start, or in the middle of something long
        3 => {
            let n = 20 + r.below(30);
            let long = vec!["aaaa"; n.min(35)].join(".");
            of(&[
                ("s1", &format!("{long}.com")),
                ("s1", &format!("{long}.net")),
                ("s2", &format!("{long}.com")),
                ("s1", &format!("b.{long}.com")),
                ("s1", &format!("{long}.a.com")),
            ])
        }
        4 => (0..4).map(|i| (format!("s{}", ["", "-1", "_1", "1"][i]), "example.com".into())).collect(),
        5 => of(&[("s", "example.com"), ("s", "example.org"), ("s", "sub.example.com"), ("s", "a.sub.example.com"), ("s.sub", "example.com"), ("t", "sub.example.com")]),
        _ => of(&[("s", "ex-ample.com"), ("s", "exam-ple.com"), ("s", "example.com"), ("s", "éxample.com"), ("s", "xample.com"), ("s", "examplé.com")]),
    }
}

/// Signatures of which some share keys and some have failed beforehand.
fn mixture(r: &mut Rng, n: usize) -> (Vec<Hdr>, Vec<ForeignSpec>) {
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec()), ("Subject".into(), b" b".to_vec())];
    let base = h.clone();
    let doms = [gen::domain(r), "example.com".into(), "Example.Com".into(), gen::domain(r)];
    let sels = [gen::selector(r), "sel".into(), "SEL".into(), "a.b".into()];
    let near = if r.one_in(3) { near_pairs(r) } else { vec![] };
    let mut specs = vec![];
    for _ in 0..n {
        let mut f = plain(r);
        f.domain = r.pick(&doms).clone();
        f.selector = r.pick(&sels).clone();
        if !near.is_empty() {
            (f.selector, f.domain) = r.pick(&near).clone();
        }
        if r.one_in(3) {
            f.domain = respell(r, &f.domain);
            f.selector = respell(r, &f.selector);
        }
        match r.below(12) {
            0 => f.x = Some(1000),
            1 => f.t = Some(9_000_000_000),
            2 => f.h = vec!["Subject".into(), "from".into()],
            3 => f.bad_data = true,
            4 => f.bad_bh = true,
            5 => f.sha1 = !f.key.ed,
            6 => {
                f.t = Some(50);
                f.x = Some(40);
            }
            _ => {}
        }
        let s = f.sign(r, &base, b"");
        let mut v = s.value.clone().into_bytes();
        match r.below(30) {
            0 => v.insert(1, 0xff),
            1 => v.insert(1, b';'),
            _ => {}
        }
        let i = if r.coin() { 0 } else { r.below(h.len()) };
        h.insert(i, (s.name, v));
        specs.push(f);
    }
    (h, specs)
}

/// Another spelling of the same name.
fn respell(r: &mut Rng, s: &str) -> String {
    let o = match r.below(3) {
        0 => model::a_label(s).unwrap_or_else(|| s.into()),
        1 => model::u_label(s),
        _ if s.is_ascii() => gen::recase(r, s),
        _ => s.into(),
    };
    if model::valid_name(&o, false) && model::a_label(&o) == model::a_label(s) {
        o
    } else {
        s.into()
    }
}

fn policy_config(r: &mut Rng) -> Config {
    let mut cfg = Config {
        fixed_system_time: Some(at(1_700_000_000, 0)),
        max_signatures: *r.pick(&[0, 1, 2, 5, 10, 20]),
        allow_expired: r.one_in(4),
        allow_timestamp_in_future: r.one_in(4),
        allow_sha1: r.coin(),
        forbid_unsigned_content: r.coin(),
        ..Config::default()
    };
    if r.one_in(4) {
        cfg.headers_required_in_signature = vec![FieldName::new("SubJect").unwrap()];
    }
    cfg
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::InvalidInput,
    ErrorKind::TimedOut,
    ErrorKind::Other,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
];

fn some_answer(r: &mut Rng, key: &world::TestKey) -> Entry {
    let mut e = match r.below(8) {
        0 => Entry::of(Answer::Err(*r.pick(KINDS))),
        1 => Entry::of(Answer::Txt(vec![])),
        2 => some_entry(r, key, 4),
        3 => Entry::of(Answer::Txt(vec![Err(*r.pick(KINDS))])),
        _ => Entry::txt(key.record()),
    };
    if r.one_in(4) {
        e.yields = 1 + r.below(4);
    }
    e
}

/// Hundreds of signatures, with as many keys or few.
fn many_signatures(r: &mut Rng) -> (Vec<Hdr>, Vec<ForeignSpec>) {
    let base: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut h = base.clone();
    let n = gen::many(r, 600);
    let keys = if r.coin() { n } else { gen::many(r, n) };
    let mut specs = vec![];
    for i in 0..n {
        let mut f = ForeignSpec::plain(world::key("ed_a"));
        f.selector = format!("s{}", i % keys);
        match r.below(20) {
            0 => f.x = Some(1000),
            1 => f.bad_data = true,
            2 => f.bad_bh = true,
            3 => f.selector = f.selector.to_uppercase(),
            4 => f.domain = "Example.com".into(),
            _ => {}
        }
        let s = f.sign(r, &base, b"");
        h.insert(0, (s.name, s.value.into_bytes()));
        specs.push(f);
    }
    (h, specs)
}

fn c17_many(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let (h, specs) = many_signatures(r);
    let mut recs = HashMap::new();
    for f in &specs {
        if !r.one_in(8) {
            let e = if r.one_in(4) { some_answer(r, f.key) } else { Entry::txt(f.key.record()) };
            recs.insert(world::query_name(&f.selector, &f.domain), e);
        }
    }
    let mut cfg = policy_config(r);
    cfg.max_signatures = *r.pick(&[h.len(), h.len() - 1, 100, 256, 300, usize::MAX]);
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    check_calls(c, &seen, &|| describe(&h, b"", &cfg, &recs))?;
    c.ev("many signatures");
    c.nontrivial(describe(&h, b"", &cfg, &recs).as_bytes());
    c.sample(|| format!("{} signatures, {} queries", specs.len(), seen.calls.len()));
    Ok(())
}

fn c17_queries(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let n = r.below(9);
    let (h, specs) = mixture(r, n);
    let mut recs = HashMap::new();
    for f in &specs {
        if !r.one_in(8) {
            let e = some_answer(r, f.key);
            recs.insert(world::query_name(&f.selector, &f.domain), e);
        }
    }
    let cfg = policy_config(r);
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    check_calls(c, &seen, &|| describe(&h, b"", &cfg, &recs))?;
    if !seen.calls.is_empty() {
        c.nontrivial(describe(&h, b"", &cfg, &recs).as_bytes());
    }
    c.sample(|| format!("{:?} for {:?}", seen.calls.iter().map(|c| &c.name).collect::<Vec<_>>(), statuses(&seen.results)));
    Ok(())
}

/// One key, referred to by names in different spellings.
fn c17_spellings(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let (d, s) = (gen::domain(r), gen::selector(r));
    let mut f = plain(r);
    for _ in 0..1 + r.below(5) {
        f.domain = respell(r, &d);
        f.selector = respell(r, &s);
        let g = f.sign(r, &h[h.len() - 1..], b"");
        put(&mut h, &g);
    }
    let mut recs = HashMap::new();
    publish(&mut recs, &f);
    let cfg = permissive();
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    check_calls(c, &seen, &|| describe(&h, b"", &cfg, &recs))?;
    ensure!(seen.calls.len() == 1, "number of queries", "{:?}\n  {}", seen.calls, describe(&h, b"", &cfg, &recs));
    for g in &seen.results {
        ensure!(g.status == VerificationStatus::Success, "not verified", "{:?}\n  {}", g.status, describe(&h, b"", &cfg, &recs));
    }
    let want = format!("{}._domainkey.{}.", model::a_label(&s).unwrap(), model::a_label(&d).unwrap());
    ensure!(seen.calls[0].name.eq_ignore_ascii_case(&want), "query name", "{:?} instead of {want:?}", seen.calls[0].name);
    c.nontrivial(format!("{h:?}").as_bytes());
    c.sample(|| format!("s={s} d={d}: {}", seen.calls[0].name));
    Ok(())
}

fn c17_errors(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut recs = HashMap::new();
    for i in 0..1 + r.below(3) {
        let mut f = plain(r);
        f.selector = format!("s{i}");
        let s = f.sign(r, &h[h.len() - 1..], b"");
        put(&mut h, &s);
        let e = match r.below(4) {
            0 => some_answer(r, f.key),
            1 => {
                let n = 1 + r.below(4);
                Entry::of(Answer::Txt((0..n).map(|_| Err(*r.pick(KINDS))).collect()))
            }
            _ => Entry::of(Answer::Err(KINDS[r.below(KINDS.len())])),
        };
        if !r.one_in(10) {
            recs.insert(world::query_name(&f.selector, &f.domain), e);
        }
    }
    let cfg = permissive();
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    check_calls(c, &seen, &|| describe(&h, b"", &cfg, &recs))?;
    c.nontrivial(describe(&[], b"", &cfg, &recs).as_bytes());
    c.sample(|| format!("{:?}: {:?}", recs.values().map(|e| format!("{:?}", e.answer)).map(|s| s.chars().take(50).collect::<String>()).collect::<Vec<_>>(), statuses(&seen.results)));
    Ok(())
}

pub fn c18() -> Vec<Workload> {
    vec![
        wl("delays", 15_000, 500_000, c18_delays),
        wl("own-task", 1_000, 30_000, c18_select),
        wl("many-lookups", 30, 1000, c18_many),
    ]
}

fn some_timeout(r: &mut Rng) -> Duration {
    match r.below(6) {
        0 => Config::default().lookup_timeout,
        1 => Duration::from_millis(10 + r.below(300) as u64),
        2 => Duration::from_secs(1 + r.below(100) as u64),
        3 => Duration::from_secs(*r.pick(&[1, 2, 5, 30, 60, 3600, 86_400])),
        4 => Duration::from_millis(*r.pick(&[1, 2, 3, 63, 64, 65, 4095, 4096, 4097])),
        _ => Duration::from_millis(500 + r.below(20_000) as u64),
    }
}

fn c18_delays(c: &mut Case<'_>) -> R {
    let n = match c.rng.below(4) {
        0 => 1,
        1 => 2,
        _ => 2 + c.rng.below(9),
    };
    delayed(c, n)
}

fn c18_many(c: &mut Case<'_>) -> R {
    let n = gen::many(&mut c.rng, 600);
    delayed(c, n)
}

fn delayed(c: &mut Case<'_>, n: usize) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut recs: HashMap<String, Entry> = HashMap::new();
    let timeout = some_timeout(r);
    let slow = r.one_in(3);
    for i in 0..n {
        let mut f = if n > 20 { ForeignSpec::plain(world::key("ed_a")) } else { plain(r) };
        f.bad_data = r.one_in(10);
        f.selector = if r.one_in(6) { "s0".into() } else { format!("s{i}") };
        let s = f.sign(r, &h[h.len() - 1..], b"");
        put(&mut h, &s);
        let mut e = some_answer(r, f.key);
        // Stay off the limit itself, by more than the timer's resolution.
        let ms = timeout.as_millis() as u64;
        e.delay = match r.below(6) {
            0 => None,
            1 => Some(Duration::from_millis(ms + 5 + r.below(1000) as u64)),
            2 if ms > 10 => Some(Duration::from_millis(ms - 5)),
            _ => Some(Duration::from_millis(if ms > 10 { r.below(ms as usize - 5) as u64 } else { 0 })),
        };
        e.never = r.one_in(if slow { 2 } else { 8 });
        if r.one_in(3) {
            e.yields = r.below(4);
        }
        recs.insert(world::query_name(&f.selector, &f.domain), e);
    }
    let cfg = Config { lookup_timeout: timeout, max_signatures: n.max(100), ..permissive() };
    let seen = judged(c, &h, b"", &cfg, &recs)?;
    let what = || describe(&h, b"", &cfg, &recs);
    check_calls(c, &seen, &what)?;
    // How long each lookup takes when the timeout is obeyed.
    let tick = Duration::from_millis(3);
    let cost = |e: &Entry| match (e.never, e.delay) {
        (true, _) => timeout,
        (_, d) => d.unwrap_or_default().min(timeout),
    };
    let names: BTreeSet<&String> = seen.exp.iter().filter_map(|e| e.lookup.as_ref()).collect();
    let slowest = names.iter().map(|n| cost(&recs[*n])).max().unwrap_or_default();
    ensure!(
        seen.elapsed <= slowest + tick,
        "verifying the header takes longer than the slowest lookup",
        "{:?} but the slowest lookup takes {slowest:?}\n  {}", seen.elapsed, what()
    );
    ensure!(
        seen.elapsed + tick >= slowest,
        "verifying the header ends before the lookups do",
        "{:?} but the slowest lookup takes {slowest:?}\n  {}", seen.elapsed, what()
    );
    let mut abandoned = 0;
    for k in &seen.calls {
        let e = &recs[&k.name.to_ascii_lowercase()];
        let Some(d) = k.dropped else { continue };
        abandoned += 1;
        ensure!(d >= k.start + timeout, "lookup given up too soon", "{} after {:?}\n  {}", k.name, d - k.start, what());
        ensure!(d <= k.start + timeout + tick, "lookup given up too late", "{} after {:?}\n  {}", k.name, d - k.start, what());
        ensure!(e.never || e.delay.is_some_and(|d| d > timeout), "answered lookup given up", "{}\n  {}", k.name, what());
    }
    c.ev_n("lookups given up", abandoned);
    // Lookups that take time are all in progress at the same time.
    let long: Vec<&Call> = seen.calls.iter().filter(|k| cost(&recs[&k.name.to_ascii_lowercase()]) > tick).collect();
    if let Some(last) = long.iter().map(|k| k.start).max() {
        for k in &long {
            let end = k.end.or(k.dropped);
            ensure!(end.map_or(true, |e| e > last), "lookups one after another", "{:?}\n  {}", seen.calls, what());
        }
        c.ev(&format!("{} lookups at the same time", long.len()));
    }
    if !seen.calls.is_empty() {
        c.nontrivial(describe(&[], b"", &cfg, &recs).as_bytes());
    }
    c.sample(|| format!("{} lookups, timeout {timeout:?}, took {:?}: {:?}", seen.calls.len(), seen.elapsed, statuses(&seen.results)));
    Ok(())
}

/// The future of header verification used along with others in one task, and
/// abandoned half-way.
fn c18_select(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let mut recs: HashMap<String, Entry> = HashMap::new();
    let n = 1 + r.below(4);
    for i in 0..n {
        let mut f = plain(r);
        f.selector = format!("s{i}");
        let s = f.sign(r, &h[h.len() - 1..], b"");
        put(&mut h, &s);
        let mut e = Entry::txt(f.key.record());
        e.delay = Some(Duration::from_millis(100 + r.below(900) as u64));
        e.never = r.one_in(6);
        e.yields = r.below(3);
        recs.insert(world::query_name(&f.selector, &f.domain), e);
    }
    let timeout = Duration::from_secs(2);
    let cfg = Config { lookup_timeout: timeout, ..permissive() };
    let d = dns(&recs);
    let hf = mk(&h);
    let stop = Duration::from_millis(r.below(2500) as u64);
    let slowest = recs.values().map(|e| if e.never { timeout } else { e.delay.unwrap() }).max().unwrap();
    let out = world::block_on(async {
        tokio::time::timeout(stop, Verifier::verify_header(&d, &hf, &cfg)).await
    });
    let Ok(out) = out else {
        return fail("never completed", describe(&h, b"", &cfg, &recs));
    };
    let what = || describe(&h, b"", &cfg, &recs);
    match out {
        Ok(v) => {
            let Some(v) = v else { return fail("no verifier", what()) };
            ensure!(stop + Duration::from_millis(3) >= slowest, "completed before the lookups did", "after {stop:?}\n  {}", what());
            let exp = refv::predict(&Scene { headers: &h, body: b"", config: &cfg, dns: &recs });
            if let Some((k, m)) = refv::diff_results(Some(&v.finish()), &exp) {
                return fail(k, format!("{m}\n  {}", what()));
            }
            c.ev("completed");
        }
        Err(_) => {
            ensure!(stop <= slowest + Duration::from_millis(3), "not completed in time", "{slowest:?} passed\n  {}", what());
            ensure!(d.calls().iter().all(|k| k.end.is_some() || k.dropped.is_some()), "lookup goes on after the verification was abandoned", "{:?}\n  {}", d.calls(), what());
            c.ev("abandoned");
        }
    }
    c.nontrivial(format!("{stop:?}{:?}", describe(&[], b"", &cfg, &recs)).as_bytes());
    c.sample(|| format!("{n} lookups, slowest {slowest:?}, given {stop:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C19

pub fn c19() -> Vec<Workload> {
    vec![
        wl("order", 6_000, 200_000, c19_order),
        wl("alone", 5_000, 150_000, c19_alone),
        wl("own-signatures", 400, 12_000, c19_own),
        wl("many", 60, 2500, c19_many),
        wl("everything", 6_000, 200_000, everything_any),
    ]
}

/// A message with signatures of all sorts strewn about.
fn strewn(r: &mut Rng, body: &[u8], max: usize) -> (Vec<Hdr>, HashMap<String, Entry>) {
    let n = match r.below(5) {
        0 => r.below(2),
        1..=3 => r.below(max.min(6)),
        _ => r.below(max),
    };
    let plainh = gen::headers(r, 6);
    let mut out = plainh.clone();
    let mut recs = HashMap::new();
    for i in 0..n {
        let mut f = plain(r);
        f.sha1 = !f.key.ed && r.one_in(5);
        f.h = gen::manual_names(r, &plainh).into_iter().filter(|n| !n.eq_ignore_ascii_case("dkim-signature")).collect();
        f.selector = if r.one_in(4) { "s0".into() } else { format!("s{i}") };
        f.domain = (*r.pick(&["example.com", "Example.COM", "example.org"])).into();
        f.odd = *r.pick(&[0, 0, 15]);
        f.bad_bh = r.one_in(8);
        f.bad_data = r.one_in(8);
        f.bad_sig = r.one_in(10);
        f.l = if r.one_in(3) { some_limit(r, canon_len(body)(f.bc) as u64) } else { None };
        f.t = if r.one_in(4) { Some(*r.pick(&[1_600_000_000, 1_700_000_000, 1_800_000_000])) } else { None };
        f.x = if r.one_in(4) { Some(*r.pick(&[1_650_000_000, 1_750_000_000])) } else { None };
        let s = f.sign(r, &plainh, body);
        let mut v = s.value.into_bytes();
        match r.below(14) {
            0 => v = gen::field_value(r),
            1 => v = b" v=1; a=rsa-sha256; d=example.com; s=x; h=from; bh=aa==; b=aa==".to_vec(),
            2 => {
                let i = 1 + r.below(v.len() - 1);
                if v[i].is_ascii_alphanumeric() {
                    v[i] = if v[i] == b'q' { b'r' } else { b'q' };
                }
            }
            _ => {}
        }
        let at = if r.coin() { 0 } else { r.below(out.len() + 1) };
        out.insert(at, (s.name.clone(), v.clone()));
        if r.one_in(8) {
            // the same again
            let name = if r.coin() { s.name } else { gen::recase(r, &s.name) };
            let at = r.below(out.len() + 1);
            out.insert(at, (name, v));
        }
        if !r.one_in(8) {
            let e = if r.one_in(3) { some_answer(r, f.key) } else { Entry::txt(f.key.record()) };
            recs.insert(world::query_name(&f.selector, &f.domain), e);
        }
    }
    (out, recs)
}

fn c19_config(r: &mut Rng, n: usize) -> Config {
    let mut cfg = if r.one_in(3) { permissive() } else { policy_config(r) };
    cfg.max_signatures = match r.below(6) {
        0 => r.below(n + 2),
        1 => n,
        2 => *r.pick(&[0, 1, 2]),
        3 => usize::MAX,
        _ => 10,
    };
    cfg
}

/// Signatures among hundreds of other fields and of unusable signatures.
fn c19_many(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let body = gen::body(r, 60);
    let (mut h, recs) = strewn(r, &body, 25);
    for _ in 0..1 + r.below(2) {
        let n = gen::many(r, 9000);
        let at = if r.coin() { 0 } else { r.below(h.len() + 1) };
        let (name, value) = match r.below(4) {
            0 => ("DKIM-Signature", " v=2"),
            1 => ("dkim-signature", " x"),
            2 => ("X-Other", " y"),
            _ => ("Received", " z"),
        };
        h.splice(at..at, (0..n).map(|_| (name.to_string(), value.as_bytes().to_vec())));
    }
    c.ev("many fields");
    in_order(c, h, body, recs)
}

fn c19_order(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let body = gen::body(r, 60);
    let (h, recs) = strewn(r, &body, 25);
    in_order(c, h, body, recs)
}

fn in_order(c: &mut Case<'_>, h: Vec<Hdr>, body: Vec<u8>, recs: HashMap<String, Entry>) -> R {
    let r = &mut c.rng;
    let n = h.iter().filter(|h| refv::is_sig(h)).count();
    let cfg = c19_config(r, n);
    let seen = judged(c, &h, &body, &cfg, &recs)?;
    let places: Vec<usize> = (0..h.len()).filter(|i| refv::is_sig(&h[*i])).take(cfg.max_signatures).collect();
    let got: Vec<usize> = seen.results.iter().map(|r| r.index).collect();
    ensure!(got == places, "indexes", "{got:?} instead of {places:?}\n  {}", describe(&h, &body, &cfg, &recs));
    c.ev(&format!("{} of {} signatures", got.len().min(12), n.min(12)));
    if n > 0 {
        c.nontrivial(describe(&h, &body, &cfg, &recs).as_bytes());
    }
    c.sample(|| format!("maximum {} of {n}: {:?}", cfg.max_signatures, statuses(&seen.results)));
    Ok(())
}

/// Each signature alone and in company.
fn c19_alone(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let body = gen::body(r, 60);
    let (h, recs) = strewn(r, &body, 10);
    let mut cfg = c19_config(r, 100);
    cfg.max_signatures = 1000;
    let ch = gen::chunks(r, &body);
    let all = world::verify(&mk(&h), &dns(&recs), &cfg, &ch, false).unwrap_or_default();
    let places: Vec<usize> = (0..h.len()).filter(|i| refv::is_sig(&h[*i])).collect();
    ensure!(all.len() == places.len(), "number of results", "{} instead of {}\n  {}", all.len(), places.len(), describe(&h, &body, &cfg, &recs));
    for (k, &p) in places.iter().enumerate() {
        let alone: Vec<Hdr> = h
            .iter()
            .enumerate()
            .filter(|(i, f)| *i == p || !refv::is_sig(f))
            .map(|(_, f)| f.clone())
            .collect();
        let one = world::verify(&mk(&alone), &dns(&recs), &cfg, &[&body], false).unwrap_or_default();
        ensure!(one.len() == 1, "number of results", "{} for one signature\n  {}", one.len(), describe(&alone, &body, &cfg, &recs));
        let (a, b) = (&all[k], &one[0]);
        ensure!(
            a.status == b.status && a.signature == b.signature && a.key_record == b.key_record,
            "result depends on the other signatures",
            "signature {k} gives {a:?}\n  but alone {b:?}\n  {}", describe(&h, &body, &cfg, &recs)
        );
        c.ev("compared with alone");
        c.ev(&format!("result {}", refv::status(&a.status)));
    }
    if places.len() > 1 {
        c.nontrivial(describe(&h, &body, &cfg, &recs).as_bytes());
    }
    c.sample(|| format!("{:?}", statuses(&all)));
    Ok(())
}

/// Ten and more signatures made by the signer in several runs.
fn c19_own(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let h = gen::headers(r, 5);
    let body = gen::body(r, 100);
    let mut outs = vec![];
    let mut specs = vec![];
    for _ in 0..1 + r.below(3) {
        let n = r.range(1, 10);
        let mut sp = gen::specs(r, n, &h, canon_len(&body));
        for s in &mut sp {
            s.key = world::key(r.pick(&FAST[..3]));
            s.sha1 = false;
            s.ts = Ts::None;
            s.valid = None;
            s.bl = Bl::No;
            s.selector = format!("s{}", r.u64());
            if s.manual.as_ref().is_some_and(|m| m.iter().any(|n| n.eq_ignore_ascii_case("dkim-signature"))) {
                s.manual = None;
            }
        }
        match sign_all(&h, &sp, &[&body], false) {
            Ok(v) => {
                for (s, o) in sp.into_iter().zip(v) {
                    match o {
                        Ok(o) => {
                            outs.push(o);
                            specs.push(s);
                        }
                        Err(e) => return fail("not signed", format!("{e:?} for {s:?}")),
                    }
                }
            }
            Err(e) => return fail("refused", format!("{e:?}")),
        }
    }
    let signed = stack(&outs.iter().collect::<Vec<_>>(), &h);
    let recs = records(r, &specs, 0);
    let cfg = Config { max_signatures: *r.pick(&[10, 5, 1000]), headers_forbidden_to_be_unsigned: vec![], ..Config::default() };
    let seen = judged(c, &signed, &body, &cfg, &recs)?;
    let others = h.iter().filter(|h| refv::is_sig(h)).count();
    let want = (outs.len() + others).min(cfg.max_signatures);
    ensure!(seen.results.len() == want, "number of results", "{} instead of {want}", seen.results.len());
    for (k, g) in seen.results.iter().take(outs.len()).enumerate() {
        ensure!(g.status == VerificationStatus::Success, "own signature does not verify", "{k}: {:?}\n  {}", g.status, describe(&signed, &body, &cfg, &recs));
        ensure!(g.index == k, "index", "{} instead of {k}", g.index);
        let sel = &specs[outs.len() - 1 - k].selector;
        ensure!(g.signature.as_ref().is_some_and(|s| s.selector.as_ref() == sel.as_str()), "signature attached to another result", "{k}: {:?} instead of {sel}", g.signature);
    }
    c.nontrivial(describe(&signed, &body, &cfg, &recs).as_bytes());
    c.sample(|| format!("{} signatures, maximum {}", outs.len(), cfg.max_signatures));
    Ok(())
}

// ---------------------------------------------------------------- C20

pub fn c20() -> Vec<Workload> {
    vec![
        wl("table", 400, 2000, c20_table),
        wl("outcomes", 10_000, 300_000, c20_outcomes),
    ]
}

/// The result for the printed form of a status.
fn proper(st: &str) -> Option<&'static str> {
    let inner = |p: &str| st.strip_prefix(p).and_then(|s| s.strip_prefix('(')).and_then(|s| s.strip_suffix(')'));
    if st == "Success" {
        return Some("pass");
    }
    if let Some(k) = inner("DkimSignatureFormat") {
        return Some(match k {
            "Utf8Encoding" | "TagListFormat" | "IncompatibleVersion" | "UnsupportedAlgorithm"
            | "InvalidBase64" | "UnsupportedCanonicalization" | "InvalidDomain"
            | "InvalidSignedHeaderName" | "InvalidIdentity" | "InvalidBodyLength"
            | "InvalidQueryMethod" | "NoSupportedQueryMethods" | "InvalidSelector"
            | "InvalidTimestamp" | "InvalidExpiration" | "InvalidCopiedHeaderField" => "neutral",
            "HistoricAlgorithm" | "EmptySignatureTag" | "EmptyBodyHashTag"
            | "EmptySignedHeadersTag" | "FromHeaderNotSigned" | "MissingVersionTag"
            | "MissingAlgorithmTag" | "MissingSignatureTag" | "MissingBodyHashTag"
            | "MissingDomainTag" | "MissingSignedHeadersTag" | "MissingSelectorTag"
            | "DomainMismatch" | "ExpirationNotAfterTimestamp" => "permerror",
            _ => return None,
        });
    }
    if let Some(k) = inner("KeyRecordFormat") {
        return Some(match k {
            "RecordFormat" | "TagListFormat" | "IncompatibleVersion" | "InvalidHashAlgorithm"
            | "NoSupportedHashAlgorithms" | "UnsupportedKeyType" | "InvalidQuotedPrintable"
            | "InvalidBase64" | "InvalidServiceType" | "NoSupportedServiceTypes"
            | "InvalidFlag" => "neutral",
            "MisplacedVersionTag" | "MissingKeyTag" => "permerror",
            _ => return None,
        });
    }
    if let Some(k) = inner("VerificationFailure") {
        return Some(match k {
            "InvalidKey" | "InsufficientKeySize" => "permerror",
            "VerificationFailure" => "fail",
            _ => return None,
        });
    }
    if inner("Policy").is_some() {
        return Some("policy");
    }
    Some(match st {
        "Overflow" => "neutral",
        "NoKeyFound" | "InvalidKeyDomain" | "WrongKeyType" | "KeyRevoked"
        | "DisallowedHashAlgorithm" | "DomainMismatch" | "InsufficientContent" => "permerror",
        "Timeout" | "KeyLookup" => "temperror",
        "BodyHashMismatch" => "fail",
        _ => return None,
    })
}

fn check_result(s: &VerificationStatus) -> R {
    let st = refv::status(s);
    let r = s.to_dkim_result();
    let printed = r.to_string();
    let failed = !matches!(s, VerificationStatus::Success);
    ensure!((printed == "pass") != failed, "pass if and only if success", "{st} maps to {printed}");
    ensure!(printed != "none", "none as a verification result", "{st} maps to {printed}");
    if let Some(p) = proper(&st) {
        ensure!(printed == p, format!("result of {st}"), "{st} maps to {printed} instead of {p}");
    }
    let want = match printed.as_str() {
        "pass" => DkimResult::Pass,
        "fail" => DkimResult::Fail,
        "policy" => DkimResult::Policy,
        "neutral" => DkimResult::Neutral,
        "temperror" => DkimResult::Temperror,
        "permerror" => DkimResult::Permerror,
        _ => return fail("unknown keyword", printed),
    };
    ensure!(r == want, "keyword of another result", "{printed} printed for another result");
    Ok(())
}

fn all_statuses() -> Vec<VerificationStatus> {
    use DkimKeyRecordError as K;
    use DkimSignatureErrorKind as S;
    use VerificationError as V;
    let mut v = vec![];
    for k in [
        S::Utf8Encoding, S::TagListFormat, S::IncompatibleVersion, S::HistoricAlgorithm,
        S::UnsupportedAlgorithm, S::InvalidBase64, S::EmptySignatureTag, S::EmptyBodyHashTag,
        S::UnsupportedCanonicalization, S::InvalidDomain, S::InvalidSignedHeaderName,
        S::EmptySignedHeadersTag, S::FromHeaderNotSigned, S::InvalidIdentity, S::InvalidBodyLength,
        S::InvalidQueryMethod, S::NoSupportedQueryMethods, S::InvalidSelector, S::InvalidTimestamp,
        S::InvalidExpiration, S::InvalidCopiedHeaderField, S::MissingVersionTag,
        S::MissingAlgorithmTag, S::MissingSignatureTag, S::MissingBodyHashTag,
        S::MissingDomainTag, S::MissingSignedHeadersTag, S::MissingSelectorTag, S::DomainMismatch,
        S::ExpirationNotAfterTimestamp,
    ] {
        v.push(V::DkimSignatureFormat(DkimSignatureError::new(k)));
    }
    for k in [
        K::RecordFormat, K::TagListFormat, K::IncompatibleVersion, K::InvalidHashAlgorithm,
        K::NoSupportedHashAlgorithms, K::UnsupportedKeyType, K::InvalidQuotedPrintable,
        K::InvalidBase64, K::InvalidServiceType, K::NoSupportedServiceTypes, K::InvalidFlag,
        K::MisplacedVersionTag, K::MissingKeyTag,
    ] {
        v.push(V::KeyRecordFormat(k));
    }
    for k in [
        crypto::VerificationError::InvalidKey,
        crypto::VerificationError::InsufficientKeySize,
        crypto::VerificationError::VerificationFailure,
    ] {
        v.push(V::VerificationFailure(k));
    }
    for k in [
        PolicyError::RequiredHeaderNotSigned, PolicyError::UnsignedHeaderOccurrence,
        PolicyError::UnsignedContent, PolicyError::SignatureExpired,
        PolicyError::TimestampInFuture, PolicyError::Sha1HashAlgorithm, PolicyError::KeyTooSmall,
    ] {
        v.push(V::Policy(k));
    }
    v.extend([
        V::Overflow, V::NoKeyFound, V::InvalidKeyDomain, V::Timeout, V::KeyLookup, V::WrongKeyType,
        V::KeyRevoked, V::DisallowedHashAlgorithm, V::DomainMismatch, V::InsufficientContent,
        V::BodyHashMismatch,
    ]);
    let mut v: Vec<_> = v.into_iter().map(VerificationStatus::Failure).collect();
    v.push(VerificationStatus::Success);
    v
}

fn c20_table(c: &mut Case<'_>) -> R {
    let all = all_statuses();
    let s = &all[c.index as usize % all.len()];
    ensure!(proper(&refv::status(s)).is_some(), "harness", "no result for {s:?}");
    check_result(s)?;
    // The keywords themselves
    for (r, k) in [
        (DkimResult::None, "none"),
        (DkimResult::Pass, "pass"),
        (DkimResult::Fail, "fail"),
        (DkimResult::Policy, "policy"),
        (DkimResult::Neutral, "neutral"),
        (DkimResult::Temperror, "temperror"),
        (DkimResult::Permerror, "permerror"),
    ] {
        ensure!(r.to_string() == k, "keyword", "{r} instead of {k}");
        ensure!(format!("{r:?}") == k, "debug form", "{r:?} instead of {k}");
    }
    // Errors can be told apart and explained.
    if let VerificationStatus::Failure(e) = s {
        ensure!(!e.to_string().is_empty(), "error text", "{e:?} prints nothing");
        let src = std::error::Error::source(e).map(|s| s.to_string());
        let nested = matches!(e, VerificationError::DkimSignatureFormat(_) | VerificationError::KeyRecordFormat(_) | VerificationError::VerificationFailure(_) | VerificationError::Policy(_));
        ensure!(src.is_some() == nested, "error source", "{e:?} has source {src:?}");
    }
    c.ev(&format!("result {}", s.to_dkim_result()));
    c.nontrivial(format!("{s:?}").as_bytes());
    c.sample(|| format!("{s:?} -> {}", s.to_dkim_result()));
    Ok(())
}

/// Outcomes as they come about in verification.
fn c20_outcomes(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let body = gen::body(r, 30);
    let (mut h, mut recs) = strewn(r, &body, 8);
    if r.one_in(3) {
        for e in recs.values_mut() {
            e.never = r.one_in(3);
        }
    }
    if r.one_in(4) {
        // other damage to signatures
        for f in h.iter_mut().filter(|f| refv::is_sig(f)) {
            let s = String::from_utf8_lossy(&f.1).into_owned();
            let t = *r.pick(&["v=1", "a=", "d=", "s=", "h=", "bh=", "c="]);
            if let Some(i) = s.find(t) {
                let u = *r.pick(&["v=2", "zz=", "a=x", "h=x;y=", "b=!", "d=-", "x=1;y="]);
                f.1 = format!("{}{u}{}", &s[..i], &s[i + t.len()..]).into_bytes();
            }
        }
    }
    if !h.iter().all(|f| model::valid_field_body(&f.1)) {
        return Ok(());
    }
    let n = h.iter().filter(|h| refv::is_sig(h)).count();
    let cfg = c19_config(r, n);
    let seen = judged(c, &h, &body, &cfg, &recs)?;
    for (g, e) in seen.results.iter().zip(&seen.exp) {
        check_result(&g.status)?;
        let got = g.status.to_dkim_result().to_string();
        if let Some(a) = &e.allowed {
            let want: BTreeSet<&str> = a.iter().filter_map(|s| proper(s)).collect();
            ensure!(want.contains(got.as_str()), "result", "{got} instead of {want:?}\n  {}", describe(&h, &body, &cfg, &recs));
        }
        c.ev(&format!("dkim={got}"));
    }
    if n > 0 {
        c.nontrivial(describe(&h, &body, &cfg, &recs).as_bytes());
    }
    c.sample(|| format!("{:?}", seen.results.iter().map(|r| r.status.to_dkim_result().to_string()).collect::<Vec<_>>()));
    Ok(())
}

// ---------------------------------------------------------------- C28

pub fn c28() -> Vec<Workload> {
    vec![
        wl("layouts", 15_000, 500_000, c28_layouts),
        wl("places", 4_000, 150_000, c28_places),
        wl("key-sizes", 600, 20_000, c28_keys),
    ]
}

fn conforming(r: &mut Rng, h: &[Hdr], body: &[u8]) -> ForeignSpec {
    let mut f = plain(r);
    f.sha1 = world::SHA1 && !f.key.ed && r.one_in(3);
    f.domain = gen::domain(r);
    f.selector = gen::selector(r);
    f.h = gen::manual_names(r, h);
    if r.one_in(3) {
        // unusual, but valid: many names and instances
        let k = r.below(60);
        for _ in 0..k {
            let n = gen::field_name(r);
            if !n.contains(';') && !n.eq_ignore_ascii_case("dkim-signature") {
                f.h.push(n);
            }
        }
        let mut v = std::mem::take(&mut f.h);
        r.shuffle(&mut v);
        f.h = v;
    }
    let len = canon_len(body)(f.bc) as u64;
    if r.one_in(3) {
        f.l = Some(*r.pick(&[0, len, len / 2, len.saturating_sub(1)]));
    }
    if r.coin() {
        f.t = Some(*r.pick(&[0, 1, 1_000_000_000, 1_700_000_000]));
    }
    if r.one_in(3) {
        f.x = Some(*r.pick(&[2_000_000_000, 999_999_999_999, u64::MAX]));
    }
    if r.coin() {
        let d = gen::subdomain(r, &f.domain);
        f.identity = Some(if r.one_in(3) { format!("@{d}") } else { format!("{}@{d}", gen::local_part(r)) });
    }
    f.odd = *r.pick(&[1, 5, 15, 30, 60, 100]);
    for _ in 0..r.below(3) {
        let n = match r.below(4) {
            0 => "zz".to_string(),
            1 => "X".into(),
            2 => "B".into(),
            _ => format!("u_{}", r.below(1000)),
        };
        if f.extra.iter().all(|e| e.0 != n) {
            let v = match r.below(4) {
                0 => String::new(),
                1 => "a=b; c".replace(';', ":"),
                2 => "v w\r\n x".into(),
                _ => "ünï".into(),
            };
            f.extra.push((n, v));
        }
    }
    f
}

fn must_pass(c: &mut Case<'_>, h: &[Hdr], ours: usize, body: &[u8], recs: &HashMap<String, Entry>) -> R {
    let cfg = Config { fixed_system_time: Some(at(1_700_000_000, 0)), allow_sha1: true, headers_forbidden_to_be_unsigned: vec![], max_signatures: 100, ..Config::default() };
    let seen = judged(c, h, body, &cfg, recs)?;
    ensure!(!seen.results.is_empty(), "no signature found", "{}", describe(h, body, &cfg, recs));
    // The header may have other signature headers that are no signatures.
    // Of either, some may be left open.
    let sure = seen.exp.iter().filter(|e| e.sig.is_some()).count();
    let known = seen.exp.iter().filter(|e| e.sig.is_some() || e.allowed.is_none()).count();
    ensure!(sure <= ours && ours <= known, "harness", "{known} signatures known of {ours}: {}", describe(h, body, &cfg, recs));
    for (g, e) in seen.results.iter().zip(&seen.exp) {
        if e.allowed.is_some() && e.sig.is_none() {
            continue;
        }
        if e.allowed.is_none() {
            c.ev("left open");
            continue;
        }
        ensure!(
            g.status == VerificationStatus::Success,
            format!("conforming signature does not verify: {}", refv::status(&g.status)),
            "{}", describe(h, body, &cfg, recs)
        );
    }
    Ok(())
}

fn c28_layouts(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h = gen::headers(r, 12);
    let body = gen::body(r, 200);
    if model::body_relaxed_unspecified(&body) {
        return Ok(());
    }
    let f = conforming(r, &h, &body);
    let s = f.sign(r, &h, &body);
    put(&mut h, &s);
    let rec = gen::record_any(r, f.key, f.odd);
    let recs: HashMap<String, Entry> = [(world::query_name(&f.selector, &f.domain), Entry::txt(rec.clone()))].into();
    must_pass(c, &h, 1, &body, &recs)?;
    c.ev(&format!("folding whitespace {}%", f.odd));
    c.nontrivial(format!("{}{rec}", s.value).as_bytes());
    c.sample(|| format!("{}: {}", s.name, show(s.value.as_bytes())));
    Ok(())
}

/// Several signatures, anywhere in the header, by different signers.
fn c28_places(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let h = gen::headers(r, 8);
    let body = gen::body(r, 100);
    if model::body_relaxed_unspecified(&body) {
        return Ok(());
    }
    let mut out = h.clone();
    let mut recs = HashMap::new();
    for _ in 0..1 + r.below(5) {
        let f = conforming(r, &h, &body);
        let q = world::query_name(&f.selector, &f.domain);
        if recs.contains_key(&q) || f.h.iter().any(|n| n.eq_ignore_ascii_case("dkim-signature")) {
            continue;
        }
        let s = f.sign(r, &h, &body);
        let i = r.below(out.len() + 1);
        out.insert(i, (s.name, s.value.into_bytes()));
        let mut a: Vec<Result<Vec<u8>, ErrorKind>> = vec![Ok(gen::record_any(r, f.key, 10).into_bytes())];
        if r.one_in(4) {
            let n = r.range(1, 2);
            for _ in 0..n {
                let i = r.below(a.len() + 1);
                a.insert(i, Ok(some_record(r, f.key)));
            }
        }
        recs.insert(q, Entry::of(Answer::Txt(a)));
    }
    if recs.is_empty() {
        return Ok(());
    }
    must_pass(c, &out, recs.len(), &body, &recs)?;
    c.nontrivial(format!("{out:?}").as_bytes());
    c.sample(|| format!("{} signatures in {} fields", recs.len(), out.len()));
    Ok(())
}

fn c28_keys(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h = gen::headers(r, 5);
    let body = gen::body(r, 100);
    if model::body_relaxed_unspecified(&body) {
        return Ok(());
    }
    let mut f = conforming(r, &h, &body);
    f.key = loop {
        let k = &world::keys()[r.below(world::keys().len())];
        if k.ed || k.bits >= 1024 {
            break k;
        }
    };
    f.sha1 = false;
    let s = f.sign(r, &h, &body);
    put(&mut h, &s);
    let rec = gen::record_any(r, f.key, f.odd);
    let recs: HashMap<String, Entry> = [(world::query_name(&f.selector, &f.domain), Entry::txt(rec))].into();
    must_pass(c, &h, 1, &body, &recs)?;
    c.ev(&format!("key {}", f.key.name));
    c.nontrivial(s.value.as_bytes());
    c.sample(|| format!("{} {}", f.key.name, show(s.value.as_bytes())));
    Ok(())
}

// ---------------------------------------------------------------- C29

pub fn c29() -> Vec<Workload> {
    vec![
        wl("verifier", 6_000, 200_000, c29_verifier),
        wl("limits", 10_000, 300_000, c29_limits),
        wl("signer", 8_000, 250_000, c29_signer),
    ]
}

/// The default configuration as documented.
fn documented() -> Config {
    Config {
        lookup_timeout: Duration::from_secs(10),
        max_signatures: 10,
        headers_required_in_signature: vec![],
        headers_forbidden_to_be_unsigned: vec![FieldName::new("From").unwrap()],
        min_key_bits: 1024,
        allow_sha1: false,
        forbid_unsigned_content: false,
        allow_expired: false,
        allow_timestamp_in_future: false,
        time_tolerance: Duration::from_secs(300),
        fixed_system_time: None,
    }
}

/// Verifies with the default configuration, set to the time given.
fn by_default(c: &mut Case<'_>, h: &[Hdr], body: &[u8], time: Option<SystemTime>, recs: &HashMap<String, Entry>) -> R<Seen> {
    let cfg = Config { fixed_system_time: time, ..Config::default() };
    let meant = Config { fixed_system_time: time, ..documented() };
    let seen = judged_as(c, h, body, &cfg, &meant, recs)?;
    if h.iter().any(refv::is_sig) {
        c.nontrivial(describe(h, body, &meant, recs).as_bytes());
    }
    c.sample(|| format!("{:?}", statuses(&seen.results)));
    Ok(seen)
}

fn c29_verifier(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let body = gen::body(r, 40);
    let (mut h, mut recs) = strewn(r, &body, 16);
    if r.one_in(3) {
        let f = (gen::recase(r, "From"), b" another".to_vec());
        let at = r.below(h.len() + 1);
        h.insert(at, f);
    }
    for e in recs.values_mut() {
        match r.below(10) {
            0 => e.delay = Some(Duration::from_millis(9_980)),
            1 => e.delay = Some(Duration::from_millis(10_020)),
            2 => e.delay = Some(Duration::from_millis(r.below(30_000) as u64 / 100 * 100 + 50)),
            3 => e.never = true,
            _ => {}
        }
    }
    let time = *r.pick(&[1_600_000_000, 1_650_000_000, 1_700_000_000, 1_750_000_000, 1_800_000_000]);
    let near = *r.pick(&[-301i64, -300, -299, 0, 299, 300, 301]);
    by_default(c, &h, &body, Some(at((time as i64 + near) as u64, 0)), &recs)?;
    Ok(())
}

/// Signatures that are good but for one thing, at or near a default limit.
fn c29_limits(c: &mut Case<'_>) -> R {
    ensure!(Config::default() == documented(), "default configuration", "{:?} instead of {:?}", Config::default(), documented());
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let mut h = gen::headers(r, 5);
    h.retain(|f| !refv::is_sig(f) && !f.0.eq_ignore_ascii_case("from"));
    h.push(("From".into(), b" a".to_vec()));
    let body = gen::body(r, 30);
    let mut recs = HashMap::new();
    let mut f = plain(r);
    f.h = vec!["From".into()];
    let clock = 1_700_000_000u64;
    let mut time = Some(at(clock, r.below(1_000_000_000) as u32));
    let mut entry = None;
    let mut number = 1;
    let kind = r.below(10);
    match kind {
        0 => {
            number = r.range(8, 14);
            c.ev("number of signatures");
        }
        1 => {
            let mut e = Entry::txt(f.key.record());
            e.delay = Some(Duration::from_millis(*r.pick(&[9_900, 9_995, 10_005, 10_100, 5_000, 15_000])));
            entry = Some(e);
            c.ev("duration of lookups");
        }
        2 => {
            f.x = Some(clock - *r.pick(&[298, 299, 300, 301, 302, 0, 1, 600]));
            c.ev("expiration");
        }
        3 => {
            f.t = Some(clock + *r.pick(&[298, 299, 300, 301, 302, 0, 1, 600]));
            c.ev("timestamp");
        }
        4 => {
            // by the actual clock
            time = None;
            let now = refv::now(&documented());
            if r.coin() {
                f.x = Some(now - *r.pick(&[220, 380]));
            } else {
                f.t = Some(now + *r.pick(&[220, 380]));
            }
            c.ev("actual clock");
        }
        5 => {
            f.key = world::key(r.pick(&["rsa512", "rsa768", "rsa1000", "rsa1016", "rsa1023", "rsa1024", "rsa1025", "rsa1032", "rsa2048"]));
            c.ev("key size");
        }
        6 => {
            f.key = world::key(r.pick(&["rsa1024", "rsa1024b"]));
            f.sha1 = true;
            c.ev("SHA-1");
        }
        7 => {
            f.l = some_limit(r, canon_len(&body)(f.bc) as u64);
            c.ev("body length");
        }
        8 => {
            for _ in 0..1 + r.below(2) {
                let at = r.below(h.len() + 1);
                let name = gen::recase(r, "From");
                h.insert(at, (name, b" b".to_vec()));
            }
            for _ in 0..r.below(3) {
                f.h.push(gen::recase(r, "From"));
            }
            c.ev("From instances");
        }
        _ => {
            f.h = gen::manual_names(r, &h).into_iter().filter(|n| !n.eq_ignore_ascii_case("dkim-signature")).collect();
            c.ev("unsigned fields");
        }
    }
    let base = h.clone();
    for i in 0..number {
        f.selector = format!("s{i}");
        let s = f.sign(r, &base, &body);
        put(&mut h, &s);
        recs.insert(world::query_name(&f.selector, &f.domain), entry.clone().unwrap_or_else(|| Entry::txt(f.key.record())));
    }
    let seen = by_default(c, &h, &body, time, &recs)?;
    if kind == 0 {
        ensure!(seen.results.len() == number.min(10), "number of signatures", "{} of {number} signatures judged", seen.results.len());
    }
    Ok(())
}

/// Requests as made, against those with everything spelled out.
fn c29_signer(c: &mut Case<'_>) -> R {
    use viadkim::{
        signature::{DomainName, Selector},
        signer::{OutputFormat, SignRequest, Timestamp},
    };
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let mut h = gen::headers(r, 12);
    if r.one_in(3) {
        h = gen::crowded(r, 300);
    }
    if !h.iter().any(|f| f.0.eq_ignore_ascii_case("from")) && !r.one_in(20) {
        h.push(("From".into(), b" a".to_vec()));
    }
    let body = gen::body(r, 60);
    let key = world::key(r.pick(FAST));
    let mut s = Spec::plain(key);
    s.sha1 = world::SHA1 && !key.ed && r.one_in(3);
    s.domain = gen::domain(r);
    s.selector = gen::selector(r);
    let now = r.one_in(3);
    let ts = *r.pick(&[0, 1, 1_700_000_000, 999_999_999_999]);
    let mut q = SignRequest::new(
        DomainName::new(s.domain.as_str()).unwrap(),
        Selector::new(s.selector.as_str()).unwrap(),
        world::alg_of(key, s.sha1),
        key.signing.clone(),
    );
    if !now {
        q.timestamp = Timestamp::Exact(ts);
    }
    // Some with a format given, of which the rest is left alone.
    match r.below(8) {
        0 => {
            s.width = r.range(20, 120);
            q.format = OutputFormat { line_width: std::num::NonZeroUsize::new(s.width).unwrap(), ..OutputFormat::default() };
        }
        1 => {
            s.indent = "  ".into();
            q.format = OutputFormat { indentation: s.indent.clone(), ..Default::default() };
        }
        2 => {
            s.ascii = true;
            q.format = OutputFormat { ascii_only: true, ..Default::default() };
        }
        3 => {
            s.name = gen::recase(r, "DKIM-Signature");
            q.format = OutputFormat { header_name: s.name.clone(), ..Default::default() };
        }
        _ => {}
    }
    s.valid = Some(Duration::from_secs(5 * 86400));
    let ch = gen::chunks(r, &body);
    let stop = r.coin();
    let later = *r.pick(&[0, 5 * 86400 - 1, 5 * 86400 + 299, 5 * 86400 + 300, 5 * 86400 + 301]);
    let clock = || refv::now(&documented());
    let before = clock();
    let got = world::sign(mk(&h), vec![q], &ch, stop);
    let after = clock();
    s.ts = Ts::Exact(ts);
    if now {
        let t = match &got {
            Ok(v) => v[0].as_ref().ok().and_then(|o| o.signature.timestamp),
            Err(_) => Some(before),
        };
        match t {
            Some(t) if before <= t && t <= after => s.ts = Ts::Exact(t),
            t => return fail("default timestamp", format!("{t:?} between {before} and {after}: {s:?}")),
        }
        c.ev("timestamp of now");
    }
    let want = sign_all(&h, std::slice::from_ref(&s), &[&body], false);
    let (got, want) = match (got, want) {
        (Err(a), Err(b)) => {
            ensure!(a == b, "request error", "{a:?} by default, {b:?} when spelled out: {s:?}");
            c.ev("refused");
            return Ok(());
        }
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return fail("acceptance", format!("{a:?} by default, {b:?} when spelled out: {s:?}{}", show_headers(&h))),
    };
    ensure!(got == want, "default signature", "{got:?}\n  instead of {want:?}\n  {s:?}{}", show_headers(&h));
    let Ok(o) = &got[0] else {
        c.ev("not signed");
        return Ok(());
    };
    // What the request does not say must be as documented.
    let g = &o.signature;
    let (Ts::Exact(t), model::Parse::Ok(m)) = (&s.ts, model::signature(&o.header_value, world::SHA1)) else {
        return fail("default signature", format!("unreadable: {o:?}"));
    };
    let plain = m.l.is_none() && m.i.is_none() && m.z.is_empty() && m.t == Some(*t) && m.x == Some(t + 5 * 86400) && m.hc && !m.bc;
    ensure!(plain, "default tags", "{}\n  {s:?}", o.header_value);
    ensure!(g.body_length.is_none() && g.identity.is_none() && g.copied_headers.is_empty() && g.ext_tags.is_empty(), "default signature data", "{g:?}");
    let names: Vec<String> = m.h.clone();
    ensure!(names == s.expected_h(&h), "default header selection", "{names:?} instead of {:?}", s.expected_h(&h));
    let (a, b) = (names_of(viadkim::signer::default_signed_headers()), names_of(viadkim::signer::default_unsigned_headers()));
    ensure!(a == set_of(gen::DEFAULT_SIGNED), "default signed headers", "{a:?}");
    ensure!(b == set_of(&["Return-Path", "Received", "Comments", "Keywords"]), "default unsigned headers", "{b:?}");
    c.ev("signed");
    // and it verifies by default.
    let all = stack(&[o], &h);
    let mut recs = HashMap::new();
    recs.insert(s.query_name(), Entry::txt(key.record()));
    if now {
        by_default(c, &all, &body, None, &recs)?;
        c.ev("verified at once");
    } else {
        by_default(c, &all, &body, Some(at(t + later, 0)), &recs)?;
    }
    c.nontrivial(o.header_value.as_bytes());
    Ok(())
}

fn names_of(v: Vec<FieldName>) -> BTreeSet<String> {
    v.iter().map(|n| n.as_ref().to_ascii_lowercase()).collect()
}

fn set_of(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|n| n.to_ascii_lowercase()).collect()
}

/// A message with signatures of all kinds, ready to be verified.
pub fn any_scene(r: &mut Rng) -> (Vec<Hdr>, Vec<u8>, Config, HashMap<String, Entry>) {
    let body = gen::body(r, 40);
    let (mut h, mut recs) = strewn(r, &body, 10);
    for e in recs.values_mut() {
        e.never = r.one_in(12);
    }
    if r.one_in(4) {
        let mut f = plain(r);
        f.h = vec!["From".into()];
        f.selector = "weak".into();
        f.key = world::key(r.pick(&["rsa512", "rsa768", "rsa1023", "rsa1024", "rsa1536"]));
        f.l = if r.coin() { Some(*r.pick(BIG_TIMES)) } else { None };
        h.retain(|f| !f.0.eq_ignore_ascii_case("from"));
        h.push(("From".into(), b" a".to_vec()));
        let base = h.clone();
        let s = f.sign(r, &base, &body);
        h.insert(0, (s.name, s.value.into_bytes()));
        publish(&mut recs, &f);
    }
    if r.one_in(3) {
        // values of any size
        let mut f = plain(r);
        f.h = vec!["From".into()];
        f.selector = (*r.pick(&["extreme", "säule", "列"])).into();
        f.domain = (*r.pick(&["example.com", "bücher.example", "例え.テスト"])).into();
        f.t = if r.coin() { Some(*r.pick(BIG_TIMES)) } else { None };
        f.x = if r.coin() { Some(*r.pick(BIG_TIMES)) } else { None };
        f.l = if r.one_in(4) { Some(*r.pick(BIG_TIMES)) } else { None };
        f.identity = if r.coin() { Some(format!("{}@{}", r.pick(&["", "é", "a.b"]), f.domain)) } else { None };
        if r.coin() {
            f.extra.push(("z".into(), format!("From:{}", r.pick(&["x", "é=C3", "=20y|To:=FFé"]))));
        }
        h.retain(|f| !f.0.eq_ignore_ascii_case("from"));
        h.push(("From".into(), " é".into()));
        let base = h.clone();
        let s = f.sign(r, &base, &body);
        h.insert(0, (s.name, s.value.into_bytes()));
        publish(&mut recs, &f);
    }
    if r.one_in(3) {
        // A signature of no use, with characters of several bytes all through
        let at = r.below(h.len() + 1);
        let mut t: String = if r.coin() { " v=1; d=".into() } else { String::new() };
        t += &"a".repeat(r.below(8));
        for _ in 0..r.below(120) {
            t.push(*r.pick(&['é', 'é', '字', '🎆', 'a', '=', ';']));
        }
        h.insert(at, ("DKIM-Signature".into(), t.into_bytes()));
    }
    if r.one_in(4) {
        // records likewise
        for e in recs.values_mut() {
            let mut t: String = (*r.pick(&["v=DKIM1; n=", "v=DKIM1; k=rsa; p=", "", "v=DKIM1; h=sha256:"])).into();
            t += &"a".repeat(r.below(8));
            for _ in 0..r.below(120) {
                t.push(*r.pick(&['é', '字', '🎆', 'a']));
            }
            if let Answer::Txt(v) = &mut e.answer {
                let at = r.below(v.len() + 1);
                v.insert(at, Ok(t.into_bytes()));
            }
        }
    }
    let n = h.iter().filter(|h| refv::is_sig(h)).count();
    let mut cfg = c19_config(r, n);
    if r.one_in(3) {
        cfg.min_key_bits = *r.pick(&[0, 1024, 1025, 2048]);
    }
    if r.one_in(3) {
        cfg.fixed_system_time = Some(at(*r.pick(BIG_TIMES), *r.pick(&[0, 999_999_999])));
    }
    if r.one_in(3) {
        cfg.time_tolerance = *r.pick(&[Duration::ZERO, Duration::from_millis(999), Duration::from_secs(300), Duration::MAX]);
        cfg.allow_expired = r.coin();
        cfg.allow_timestamp_in_future = r.coin();
    }
    (h, body, cfg, recs)
}
