//! Signing: C01, C06, C10, C11, C12.

use super::*;
use crate::{
    case::{fail, show, show_chunks, show_headers, Case, R},
    ensure,
    gen::{Order, DEFAULT_SIGNED},
    refv,
};
use std::time::{Duration, SystemTime};
use viadkim::{
    canonicalize,
    header::{FieldBody, FieldName},
    message_hash,
    signature::{DkimSignature, DomainName, Identity},
    signer::{self, HeaderSelection},
};

// ---------------------------------------------------------------- C01

pub fn c01() -> Vec<Workload> {
    vec![
        wl("single", 5000, 300_000, c01_single),
        wl("stack", 700, 40_000, c01_stack),
        wl("large-body", 250, 10_000, c01_large),
        wl("re-sign", 500, 30_000, c01_resign),
        wl("many-headers", 300, 10_000, c01_many),
    ]
}

fn c01_single(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 40);
    let body = gen::body(&mut c.rng, 3000);
    let specs = [gen::spec(&mut c.rng, &h, canon_len(&body))];
    roundtrip(c, &h, &body, &specs)
}

fn c01_stack(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 30);
    let body = gen::body(&mut c.rng, 3000);
    let n = if c.rng.coin() { c.rng.range(2, 4) } else { c.rng.range(2, 10) };
    let mut specs = gen::specs(&mut c.rng, n, &h, canon_len(&body));
    // Some requests may be impossible to answer; the others are not affected.
    if c.rng.one_in(4) {
        for s in &mut specs {
            if c.rng.one_in(3) {
                s.bl = Bl::Exact((canon_len(&body)(s.bc) + *c.rng.pick(&[1, 2, 3, 100])) as u64);
            }
        }
        c.ev("with requests that may be impossible");
    }
    roundtrip(c, &h, &body, &specs)
}

fn c01_large(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 5);
    let body = gen::body(&mut c.rng, 1 << 20);
    let n = 1 + c.rng.below(3);
    let specs = gen::specs(&mut c.rng, n, &h, canon_len(&body));
    roundtrip(c, &h, &body, &specs)
}

fn c01_many(c: &mut Case<'_>) -> R {
    let crowded = c.rng.coin();
    let h = if crowded { gen::crowded(&mut c.rng, 3000) } else { gen::headers(&mut c.rng, 1000) };
    let body = gen::body(&mut c.rng, 100);
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    if crowded {
        if c.rng.coin() {
            s.manual = Some(gen::crowded_list(&mut c.rng, &h, 2000));
        }
        c.ev("crowded message");
    } else if c.rng.coin() {
        s.manual = Some(h.iter().map(|h| h.0.clone()).filter(|n| !n.contains(';')).collect());
    }
    roundtrip(c, &h, &body, &[s])
}

/// A verifier configuration that has no reason to object to the signatures.
fn compatible_config(r: &mut Rng, headers: &[Hdr], sigs: &[(&Spec, &SigningOutput)], canon: &dyn Fn(bool) -> usize) -> Config {
    let mut g = permissive();
    g.min_key_bits = if world::SHA1 { *r.pick(&[0, 512, 1024]) } else { *r.pick(&[0, 1024]) };
    g.max_signatures = sigs.len() + r.below(3);
    let mut t = Config::default();
    t.allow_sha1 = true;
    t.headers_required_in_signature = vec![FieldName::new("frOm").unwrap()];
    let base = match sigs[0].0.ts {
        Ts::Exact(t) => t,
        _ => refv::now(&t),
    };
    let now = match r.below(4) {
        0 => base,
        1 => base.saturating_add(r.below(400) as u64),
        2 => base.saturating_sub(r.below(300) as u64),
        _ => sigs[0].1.signature.expiration.unwrap_or(base).saturating_add(r.below(299) as u64),
    };
    t.fixed_system_time = SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(now));
    t.forbid_unsigned_content = r.coin();
    t.max_signatures = sigs.len().max(10);
    let fits = sigs.iter().all(|(s, o)| {
        let m = match model::signature(&o.header_value, world::SHA1) {
            model::Parse::Ok(m) => m,
            _ => return false,
        };
        refv::header_policy(&m, headers, &t).is_empty()
            && !(t.forbid_unsigned_content && o.signature.body_length.is_some_and(|l| l < canon(s.bc) as u64 + 2))
    });
    if fits && t.fixed_system_time.is_some() {
        t
    } else {
        g
    }
}

fn roundtrip(c: &mut Case<'_>, h: &[Hdr], body: &[u8], specs: &[Spec]) -> R {
    let sc = gen::chunks(&mut c.rng, body);
    let stop = c.rng.coin();
    let desc = || format!("headers:{}\n  {}\n  requests: {specs:#?}", show_headers(h), show_chunks(&sc));
    let outs = match sign_all(h, specs, &sc, stop) {
        Ok(o) => o,
        Err(e) => return fail("request refused", format!("valid request refused: {e:?}\n  {}", desc())),
    };
    ensure!(outs.len() == specs.len(), "number of outputs", "{} outputs\n  {}", outs.len(), desc());
    let mut good = vec![];
    for (s, o) in specs.iter().zip(&outs) {
        let want = sign_outcomes(s, body);
        let got = sign_outcome(o);
        ensure!(want.contains(got.as_str()), "signing outcome", "signing gives {got:?} instead of {want:?} for {s:?}\n  {}", desc());
        match o {
            Ok(o) => good.push((s, o)),
            Err(e) => c.ev(&format!("signing error {e:?}")),
        }
    }
    if good.is_empty() {
        return Ok(());
    }
    let os: Vec<&SigningOutput> = good.iter().map(|g| g.1).collect();
    for o in &os {
        ensure!(
            FieldBody::new(o.header_value.as_bytes()).is_ok() && FieldName::new(o.header_name.as_str()).is_ok(),
            "output is not a header field", "{:?}\n  {}", o.header_value, desc()
        );
    }
    let signed = stack(&os, h);
    let odd = *c.rng.pick(&[0, 0, 20]);
    let recs = records(&mut c.rng, specs, odd);
    let cfg = compatible_config(&mut c.rng, &signed, &good, &canon_len(body));
    let vc = gen::chunks(&mut c.rng, body);
    let res = world::verify(&mk(&signed), &dns(&recs), &cfg, &vc, c.rng.coin());
    let Some(res) = res else {
        return fail("no verifier", format!("no signatures found\n  {}", desc()));
    };
    // There may be other signature headers below.
    let others = h.iter().filter(|h| refv::is_sig(h)).count();
    let due = (good.len() + others).min(cfg.max_signatures);
    ensure!(res.len() == due, "number of results", "{} results for {} signatures\n  {}", res.len(), good.len(), desc());
    for (k, r) in res.iter().take(good.len()).enumerate() {
        let st = refv::status(&r.status);
        let (s, o) = good[good.len() - 1 - k];
        ensure!(
            st == "Success",
            format!("own signature does not verify: {st}"),
            "signature {k} gives {st}\n  request {s:?}\n  header {}\n  record {:?}\n  config {cfg:?}\n  {}",
            show(o.header_value.as_bytes()), recs[&s.query_name()], desc()
        );
        c.ev("verified");
        c.ev(&format!("verified {} {}/{}", s.a(), gen::canon_name(s.hc), gen::canon_name(s.bc)));
        c.ev(match s.bl {
            Bl::No => "without length",
            Bl::All => "whole length",
            Bl::Exact(_) => "exact length",
        });
        if s.copy {
            c.ev("with copied headers");
        }
        if s.manual.is_some() {
            c.ev("manual selection");
        }
        if !s.ascii && !o.header_value.is_ascii() {
            c.ev("non-ASCII signature");
        }
        c.nontrivial(o.header_value.as_bytes());
    }
    if good.len() > 1 {
        c.ev("several signatures verified together");
    }
    let (a, b) = (os[0].header_value.clone(), body.len());
    c.sample(|| format!("{} signature(s), {b} byte body in {}+{} chunks: {a:?}", os.len(), sc.len(), vc.len()));
    Ok(())
}

fn c01_resign(c: &mut Case<'_>) -> R {
    let mut h = gen::headers(&mut c.rng, 10);
    let others = h.iter().filter(|h| refv::is_sig(h)).count();
    let body = gen::body(&mut c.rng, 500);
    let mut all: Vec<Spec> = vec![];
    let rounds = 2 + c.rng.below(3);
    let mut n = 0;
    for _ in 0..rounds {
        let k = 1 + c.rng.below(2);
        // Copying the copies makes signatures grow without bounds.
        let copy = h.iter().map(|h| h.1.len()).sum::<usize>() < 4000;
        let specs: Vec<Spec> = gen::specs(&mut c.rng, k, &h, canon_len(&body))
            .into_iter()
            .filter(|s| sign_outcomes(s, &body) == [""].into())
            .map(|mut s| {
                gen::no_spare_signatures(&mut s, &h);
                s.copy &= copy;
                s
            })
            .filter(|s| all.iter().all(|o| o.query_name() != s.query_name() || o.key.name == s.key.name))
            .collect();
        if specs.is_empty() {
            continue;
        }
        let outs = match sign_all(&h, &specs, &[&body], false) {
            Ok(o) => o,
            Err(e) => return fail("request refused", format!("{e:?} for {specs:?} on {}", show_headers(&h))),
        };
        let mut os = vec![];
        for o in &outs {
            match o {
                Ok(o) => os.push(o),
                Err(e) => return fail("signing outcome", format!("{e:?} for {specs:?}")),
            }
        }
        n += os.len();
        h = stack(&os, &h);
        all.extend(specs);
    }
    if n == 0 {
        return Ok(());
    }
    let recs = records(&mut c.rng, &all, 0);
    let res = world::verify(&mk(&h), &dns(&recs), &permissive(), &[&body], false).unwrap_or_default();
    let st = statuses(&res);
    ensure!(res.len() == n + others && st[..n].iter().all(|s| s == "Success"), "re-signed message does not verify", "{st:?}{}\n  body {}\n  requests {all:#?}", show_headers(&h), show(&body));
    c.ev_n("verified", n as u64);
    if all.iter().any(|s| s.manual.as_ref().is_some_and(|m| refv::count(m.iter(), "dkim-signature") > 0)) {
        c.ev("signature over signatures");
    }
    c.nontrivial(h[0].1.as_slice());
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06() -> Vec<Workload> {
    vec![
        wl("canonicalize-headers", 20_000, 2_000_000, c06_headers),
        wl("small-values", 37_450, 299_594, c06_small),
        wl("data-hash", 6000, 400_000, c06_data),
        wl("signer", 2500, 120_000, c06_signer),
        wl("verifier", 2500, 120_000, c06_verifier),
        wl("many", 150, 8000, c06_many),
    ]
}

fn random_list(r: &mut Rng, h: &[Hdr]) -> Vec<String> {
    let n = if r.one_in(20) { gen::edge(r, 200) } else { r.below(9) };
    (0..n)
        .map(|_| {
            if r.pct(85) && !h.is_empty() {
                let s = h[r.below(h.len())].0.clone();
                if r.coin() { gen::recase(r, &s) } else { s }
            } else {
                gen::field_name(r)
            }
        })
        .collect()
}

/// A header with few distinct names, so that instances repeat.
fn repetitive(r: &mut Rng) -> Vec<Hdr> {
    let names: Vec<String> = (0..1 + r.below(4)).map(|_| gen::field_name(r)).collect();
    let n = if r.one_in(30) { 1 + gen::edge(r, 300) } else { 1 + r.below(9) };
    (0..n)
        .map(|_| {
            let s = r.pick(&names).clone();
            let s = if r.one_in(3) { gen::recase(r, &s) } else { s };
            (s, gen::field_value(r))
        })
        .collect()
}

fn names(v: &[String]) -> Vec<FieldName> {
    v.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect()
}

/// Puts hundreds or thousands of fields of other names in the message.
fn crowd(r: &mut Rng, h: &mut Vec<Hdr>) {
    let n = 200 + r.below(3000);
    let at = *r.pick(&[0, 0, h.len() / 2, h.len()]);
    h.splice(at..at, (0..n).map(|i| (format!("X-Crowd-{}", i % 700), b" v".to_vec())));
}

fn c06_many(c: &mut Case<'_>) -> R {
    let h = gen::crowded(&mut c.rng, 70_000);
    let list = gen::crowded_list(&mut c.rng, &h, 3000.min(12_000_000 / h.len()));
    c.ev("crowded message");
    select_and_canon(c, &h, &list)
}

fn c06_headers(c: &mut Case<'_>) -> R {
    let mut h = if c.rng.coin() { repetitive(&mut c.rng) } else { gen::headers(&mut c.rng, 30) };
    let list = random_list(&mut c.rng, &h);
    if c.rng.one_in(60) {
        crowd(&mut c.rng, &mut h);
        c.ev("message with hundreds of other fields");
    }
    select_and_canon(c, &h, &list)
}

fn select_and_canon(c: &mut Case<'_>, h: &[Hdr], list: &[String]) -> R {
    let relaxed = c.rng.coin();
    let got = canonicalize::canonicalize_headers(gen::canon_alg(relaxed), &mk(h), &names(list));
    let sel = model::select(h, list);
    let mut want = vec![];
    for i in &sel {
        want.extend(model::header_canon(relaxed, &h[*i].0, &h[*i].1));
        want.extend(b"\r\n");
    }
    ensure!(got == want, "canonicalized headers", "relaxed={relaxed} names {list:?} of{}\n  gives  {}\n  should {}", show_headers(h), show(&got), show(&want));
    c.ev_n("instances selected", sel.len() as u64);
    if sel.len() < list.len() {
        c.ev("list with name lacking an instance");
    }
    if sel.len() > 1 {
        c.nontrivial(&got);
    }
    c.sample(|| format!("{list:?} selects {sel:?} of {} fields -> {}", h.len(), show(&want)));
    Ok(())
}

/// All field bodies of up to five (six) tokens.
fn c06_small(c: &mut Case<'_>) -> R {
    const T: [&[u8]; 8] = [b" ", b"\t", b"\r\n ", b"\r\n\t", b"a", b"B:", b"\xff", b";"];
    let mut i = c.index as usize;
    let mut n = 0;
    let mut span = 1;
    while i >= span {
        i -= span;
        span *= 8;
        n += 1;
    }
    let mut v = vec![];
    for _ in 0..n {
        v.extend(T[i % 8]);
        i /= 8;
    }
    if !model::valid_field_body(&v) {
        c.ev("invalid body skipped");
        return Ok(());
    }
    for relaxed in [false, true] {
        let mut got = b"x".to_vec();
        canonicalize::canonicalize_header(&mut got, gen::canon_alg(relaxed), "Ab-C", &v);
        let mut want = b"x".to_vec();
        want.extend(model::header_canon(relaxed, "Ab-C", &v));
        ensure!(got == want, "canonicalized header", "relaxed={relaxed}, value {}: {} instead of {}", show(&v), show(&got), show(&want));
        c.ev("value canonicalized");
    }
    c.nontrivial(&v);
    Ok(())
}

fn c06_data(c: &mut Case<'_>) -> R {
    let h = if c.rng.coin() { repetitive(&mut c.rng) } else { gen::headers(&mut c.rng, 30) };
    let list = random_list(&mut c.rng, &h);
    let relaxed = c.rng.coin();
    let sha1 = world::SHA1 && c.rng.coin();
    let name = gen::recase(&mut c.rng, "DKIM-Signature");
    let value = loop {
        if let Ok(s) = String::from_utf8(gen::field_value(&mut c.rng)) {
            break s;
        }
    };
    let got = message_hash::compute_data_hash(world::hash_alg(sha1), gen::canon_alg(relaxed), &mk(&h), &names(&list), &name, &value);
    let mut data = vec![];
    for i in model::select(&h, &list) {
        data.extend(model::header_canon(relaxed, &h[i].0, &h[i].1));
        data.extend(b"\r\n");
    }
    data.extend(model::header_canon(relaxed, &name, value.as_bytes()));
    ensure!(got[..] == model::hash(sha1, &data)[..], "data hash", "relaxed={relaxed} names {list:?} sig {name}:{value:?} of{}\n  hashed should be {}", show_headers(&h), show(&data));
    c.ev("data hash compared");
    c.nontrivial(&data);
    Ok(())
}

/// What the signer signs is checked with an independent implementation.
fn c06_signer(c: &mut Case<'_>) -> R {
    let h = if c.rng.coin() {
        let mut h = repetitive(&mut c.rng);
        let i = c.rng.below(h.len() + 1);
        h.insert(i, ("From".into(), gen::field_value(&mut c.rng)));
        h
    } else {
        gen::headers(&mut c.rng, 30)
    };
    let body = gen::body(&mut c.rng, 50);
    let s = gen::spec(&mut c.rng, &h, canon_len(&body));
    let outs = sign_all(&h, std::slice::from_ref(&s), &[&body], false);
    let Ok(Some(Ok(o))) = outs.as_ref().map(|o| o.first()) else {
        // C01 and C11 judge that
        c.ev("not signed");
        return Ok(());
    };
    let list = s.expected_h(&h);
    let data = model::signed_data(s.hc, &h, &list, &o.header_name, &o.header_value);
    ensure!(
        s.key.check(s.sha1, &model::hash(s.sha1, &data), &o.signature.signature_data),
        "signature is not over the specified data",
        "request {s:?}\n  headers:{}\n  signature header {}\n  data should be {}", show_headers(&h), show(o.header_value.as_bytes()), show(&data)
    );
    c.ev("signature checked independently");
    c.ev_n("instances signed", model::select(&h, &list).len() as u64);
    c.nontrivial(&data);
    c.sample(|| show(&data));
    Ok(())
}

/// The verifier accepts a foreign signature over the specified data, and none
/// over any variation of that data.
fn c06_verifier(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h = if r.coin() { repetitive(r) } else { gen::headers(r, 30) };
    if !h.iter().any(|h| h.0.eq_ignore_ascii_case("from")) {
        let i = r.below(h.len() + 1);
        h.insert(i, ("From".into(), gen::field_value(r)));
    }
    let mut f = gen::ForeignSpec::plain(gen::good_key(r));
    f.sha1 = world::SHA1 && !f.key.ed && r.coin();
    f.hc = r.coin();
    f.h = random_list(r, &h).into_iter().filter(|n| !n.contains(';')).collect();
    if r.one_in(4) {
        let i = r.below(f.h.len() + 1);
        f.h.insert(i, gen::recase(r, "DKIM-Signature"));
    }
    if !f.h.iter().any(|n| n.eq_ignore_ascii_case("from")) {
        let i = r.below(f.h.len() + 1);
        f.h.insert(i, gen::recase(r, "From"));
    }
    f.odd = *r.pick(&[0, 30, 60]);
    f.bad_data = r.one_in(4);
    let body = gen::body(r, 30);
    f.bc = false;
    let s = f.sign(r, &h, &body);
    let pos = r.below(h.len() + 1);
    let mut all = h.clone();
    let pos = if r.coin() { 0 } else { pos };
    all.insert(pos, (s.name.clone(), s.value.clone().into_bytes()));
    let d = Dns::new([(world::query_name(&s.selector, &s.domain), Entry::txt(f.key.record()))]);
    let res = world::verify(&mk(&all), &d, &permissive(), &[&body], false).unwrap_or_default();
    let st: Vec<String> = res.iter().filter(|g| g.index == pos).map(|g| refv::status(&g.status)).collect();
    let want = if f.bad_data { "VerificationFailure(VerificationFailure)" } else { "Success" };
    ensure!(st == [want], "verifier's signed data", "{st:?} instead of {want} for{}\n  body {}", show_headers(&all), show(&body));
    c.ev(if f.bad_data { "signature over other data refused" } else { "signature over specified data accepted" });
    c.nontrivial(s.value.as_bytes());
    Ok(())
}

// ---------------------------------------------------------------- C10

pub fn c10() -> Vec<Workload> {
    vec![
        wl("random", 6000, 400_000, c10_random),
        wl("widths", 4000, 200_000, c10_widths),
        wl("copied-headers", 2500, 150_000, c10_copied),
        wl("long-values", 1500, 80_000, c10_long),
        wl("many", 100, 5000, c10_many),
    ]
}

/// Mostly the cheap keys, as formatting is at issue.
fn cheap_key(r: &mut Rng) -> &'static world::TestKey {
    world::key(match r.below(20) {
        0 => "rsa4096",
        1 => "rsa2047",
        2 | 3 => "rsa2048",
        4..=7 => "rsa1024",
        _ => "ed_a",
    })
}

fn c10_random(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 20);
    let body = gen::body(&mut c.rng, 30);
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    if c.rng.one_in(10) {
        s.ext.push(("q".into(), (*c.rng.pick(&["dns/txt", "DNS/TXT:x", "x : dns/txt"])).into()));
    }
    format_case(c, &h, &body, s)
}

fn c10_widths(c: &mut Case<'_>) -> R {
    // The same request at successive widths.
    let mut r = Rng::new(crate::rng::mix(c.index / 100 + 77));
    let h = gen::headers(&mut r, 12);
    let body = gen::body(&mut r, 30);
    let mut s = gen::spec(&mut r, &h, canon_len(&body));
    s.key = cheap_key(&mut r);
    s.sha1 = false;
    s.copy = r.coin();
    s.width = 1 + (c.index % 100) as usize;
    if r.one_in(3) {
        s.indent = " ".repeat(1 + r.below(30));
    }
    format_case(c, &h, &body, s)
}

fn c10_copied(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 20);
    let body = gen::body(&mut c.rng, 10);
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    s.key = cheap_key(&mut c.rng);
    s.sha1 = false;
    s.copy = true;
    let mut m: Vec<String> = h.iter().map(|h| h.0.clone()).filter(|n| !n.contains(';')).collect();
    if c.rng.coin() {
        c.rng.shuffle(&mut m);
    }
    s.manual = Some(m);
    format_case(c, &h, &body, s)
}

fn c10_long(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 8);
    let body = gen::body(&mut c.rng, 10);
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    s.key = cheap_key(&mut c.rng);
    s.sha1 = false;
    let n = 40 + c.rng.below(60);
    s.width = n;
    // values whose length is around what fits
    let k = (n + c.rng.below(9)).saturating_sub(12);
    s.ext = vec![("x".into(), "y".repeat(k)), ("ab".into(), "é".repeat(if s.ascii { 0 } else { k + c.rng.below(4) }))];
    if c.rng.coin() {
        let l = 50 + c.rng.below(14);
        s.domain = format!("{}.example", "d".repeat(l));
        s.identity = Some(format!("{}@{}", "u".repeat(1 + c.rng.below(63)), s.domain));
    }
    if c.rng.coin() {
        let mut m = vec!["From".to_string()];
        for _ in 0..4 {
            let l = k + c.rng.below(14);
            m.push("N".repeat(l.max(1)));
        }
        s.manual = Some(m);
    }
    format_case(c, &h, &body, s)
}

/// Gives a request hundreds of names or tags.
fn enlarge(r: &mut Rng, s: &mut Spec, h: &[Hdr]) {
    if r.coin() {
        s.manual = Some(gen::crowded_list(r, h, 1000));
    }
    if r.coin() {
        let n = gen::many(r, 400);
        let base = s.ext.len();
        s.ext.extend((0..n).map(|i| (format!("e{}", base + i), "v".repeat(i % 5))));
    }
}

fn c10_many(c: &mut Case<'_>) -> R {
    let h = gen::crowded(&mut c.rng, 600);
    let mut s = gen::spec(&mut c.rng, &h, |_| 0);
    s.bl = Bl::No;
    enlarge(&mut c.rng, &mut s, &h);
    c.ev("many names or tags");
    format_case(c, &h, b"", s)
}

/// The tags in default order.
fn tag_names(s: &Spec, o: &SigningOutput) -> Vec<String> {
    let mut v: Vec<&str> = vec!["v", "d"];
    if s.identity.is_some() {
        v.push("i");
    }
    v.extend(["s", "a"]);
    if s.hc || s.bc {
        v.push("c");
    }
    if s.bl != Bl::No {
        v.push("l");
    }
    if s.ts != Ts::None {
        v.push("t");
    }
    if s.valid.is_some() {
        v.push("x");
    }
    v.extend(["h", "bh", "b"]);
    if !o.signature.copied_headers.is_empty() {
        v.push("z");
    }
    let mut v: Vec<String> = v.into_iter().map(String::from).collect();
    v.extend(s.ext.iter().map(|e| e.0.clone()));
    v.sort_by(|a, b| s.order.cmp(a, b));
    v
}

/// Compares a parsed signature with the reported one, up to IDNA form.
fn same_sig(c: &mut Case<'_>, reported: &DkimSignature, m: &model::SigM) -> Option<String> {
    let mut m = m.clone();
    let eq = |a: &str, b: &str| model::a_label(a) == model::a_label(b);
    if eq(&m.d, reported.domain.as_ref()) {
        if m.d != reported.domain.as_ref() {
            c.ev("domain written in its other form");
        }
        m.d = reported.domain.as_ref().into();
    }
    if eq(&m.s, reported.selector.as_ref()) {
        m.s = reported.selector.as_ref().into();
    }
    if let (Some(i), Some(j)) = (&mut m.i, &reported.identity) {
        if eq(&i.1, j.domain.as_ref()) {
            i.1 = j.domain.as_ref().into();
        }
    }
    let mut rep = reported.clone();
    rep.ext_tags = rep.ext_tags.iter().filter(|e| &*e.0 != "q").cloned().collect();
    // The tag order of the output may be another than that of the request.
    let mut ext = rep.ext_tags.to_vec();
    ext.sort();
    rep.ext_tags = ext.into();
    m.ext.sort();
    refv::diff_sig(&rep, &m)
}

fn format_case(c: &mut Case<'_>, h: &[Hdr], body: &[u8], s: Spec) -> R {
    let outs = match sign_all(h, std::slice::from_ref(&s), &[body], false) {
        Ok(o) => o,
        Err(_) => {
            c.ev("request refused");
            return Ok(());
        }
    };
    let Some(Ok(o)) = outs.first() else {
        c.ev("not signed");
        return Ok(());
    };
    c.ev("header checked");
    c.nontrivial(o.header_value.as_bytes());
    check_format(c, &s, o).map_err(|mut f| {
        f.msg = format!("{}\n  header {}\n  request {s:?}\n  message headers:{}", f.msg, show(format!("{}:{}", o.header_name, o.header_value).as_bytes()), show_headers(h));
        f
    })?;
    c.sample(|| o.format_header().to_string());
    Ok(())
}

fn check_format(c: &mut Case<'_>, s: &Spec, o: &SigningOutput) -> R {
    let v = &o.header_value;
    ensure!(o.header_name == s.name, "header name", "header name {:?}", o.header_name);
    ensure!(o.format_header().to_string() == format!("{}:{v}", s.name), "format_header", "{}", o.format_header());
    ensure!(model::valid_field_body(v.as_bytes()), "not a header field body", "invalid field body");
    let f = o.to_header_field();
    ensure!(f.0.as_ref() == s.name && f.1.as_ref() == v.as_bytes(), "to_header_field", "{f:?}");
    if s.ascii {
        ensure!(v.is_ascii(), "ASCII-only output is not ASCII", "non-ASCII output");
        c.ev("ASCII-only output");
    }
    // tags
    let tags = match model::tag_list(v) {
        Ok(t) => t,
        Err(e) => return fail("not a tag list", format!("{e:?}")),
    };
    let order: Vec<String> = tags.iter().map(|t| t.0.clone()).collect();
    let want = tag_names(s, o);
    ensure!(order == want, "tag order", "tags {order:?} instead of {want:?}");
    if s.order != Order::Default {
        c.ev("custom tag order");
    }
    // both parsers
    match model::signature(v, world::SHA1) {
        model::Parse::Ok(m) => {
            if let Some(d) = same_sig(c, &o.signature, &m) {
                return fail("reported signature differs from header", d);
            }
            match v.parse::<DkimSignature>() {
                Ok(p) => {
                    if let Some(d) = refv::diff_sig(&p, &m) {
                        return fail("output parses differently", d);
                    }
                }
                Err(e) => return fail("output does not parse", format!("{e:?}")),
            }
        }
        p => return fail("output does not parse", format!("{p:?}")),
    }
    // layout
    let mut text = format!("{}:{v}", s.name);
    let mut folded_ext = false;
    for (n, x) in &s.ext {
        if x.contains("\r\n") {
            folded_ext = true;
            text = text.replace(&format!("{n}={x}"), &format!("{n}={}", x.replace("\r\n", "__")));
        }
    }
    let lines: Vec<&str> = text.split("\r\n").collect();
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            let rest = l.strip_prefix(s.indent.as_str());
            ensure!(
                rest.is_some_and(|r| !r.is_empty() && !r.starts_with([' ', '\t'])),
                "continuation line not indented as requested",
                "line {i}: {l:?}"
            );
            c.ev("continuation line");
        }
    }
    if folded_ext {
        c.ev("extension value with fold: no width check");
        return Ok(());
    }
    // What is kept whole: ordinary tags, header names, tag names of b and bh,
    // field names in z, and single characters.
    let mut atoms: std::collections::HashSet<String> = std::collections::HashSet::new();
    for (n, val) in &tags {
        match n.as_str() {
            "b" | "bh" => {
                atoms.insert(format!("{n}="));
            }
            "h" => {
                for (i, x) in val.split(':').enumerate() {
                    let x = x.trim();
                    atoms.insert(if i == 0 { format!("h={x}") } else { x.into() });
                }
            }
            "z" => {
                let raw: String = val.chars().filter(|c| !c.is_ascii_whitespace()).collect();
                for (i, x) in raw.split('|').enumerate() {
                    let x = x.split_once(':').map_or(x, |x| x.0);
                    atoms.insert(if i == 0 { format!("z={x}") } else { x.into() });
                }
            }
            _ => {
                atoms.insert(format!("{n}={val}"));
            }
        }
    }
    for (i, l) in lines.iter().enumerate() {
        let n = l.chars().count();
        if n <= s.width {
            c.ev("line within width");
            continue;
        }
        if n == s.width + 1 && l.ends_with(';') {
            c.ev("line with closing semicolon beyond width");
            continue;
        }
        let content = if i == 0 { l.strip_prefix(&format!("{}:", s.name)).unwrap() } else { &l[s.indent.len()..] };
        // The value is followed by at most one delimiter of its own and the
        // semicolon of the tag.
        let one = content.strip_suffix([';', ':', '|']).unwrap_or(content);
        let two = one.strip_suffix([':', '|']).unwrap_or(one);
        let ok = content.is_empty()
            || [content, one, two].iter().any(|b| b.chars().count() <= 1 || atoms.contains(*b));
        ensure!(ok, "line exceeds width", "line {i} has {n} characters, width is {}: {l:?}", s.width);
        c.ev("long line of one value");
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

pub fn c11() -> Vec<Workload> {
    vec![
        wl("refusals", 8000, 600_000, c11_refuse),
        wl("tags", 5000, 300_000, c11_tags),
        wl("many", 100, 5000, c11_many),
    ]
}

/// A request with defects planted, and the errors that describe them.
fn spoil(r: &mut Rng, s: &mut Spec) -> (Box<dyn Fn() -> signer::SignRequest<std::sync::Arc<viadkim::SigningKey>>>, BTreeSet<&'static str>) {
    let mut bad: BTreeSet<&'static str> = BTreeSet::new();
    let n = match r.below(6) {
        0 | 1 => 0,
        2..=4 => 1,
        _ => 2 + r.below(2),
    };
    let mut wrong_key = None;
    for _ in 0..n {
        match r.below(9) {
            0 => {
                wrong_key = Some(if s.key.ed { "rsa1024" } else { "ed_a" });
                bad.insert("IncompatibleKeyType");
            }
            1 => {
                // without From, maybe empty
                let v: Vec<String> = match r.below(4) {
                    0 => vec![],
                    1 => vec!["To".into(), "Fro".into(), "Fromm".into(), "Resent-From".into()],
                    2 => vec!["X-From".into(), "From-".into()],
                    _ => s.manual.iter().flatten().filter(|n| !n.eq_ignore_ascii_case("from")).cloned().collect(),
                };
                s.manual = Some(v);
            }
            2 => {
                let v = s.manual.get_or_insert_with(|| vec!["From".into()]);
                let i = r.below(v.len() + 1);
                v.insert(i, (*r.pick(&[";", "a;", ";b", "Sub;ject", "From;"])).into());
            }
            3 => {
                let d = s.domain.clone();
                let i = match r.below(7) {
                    0 => "me@other.example".to_string(),
                    1 => format!("me@x{d}"),
                    2 => match d.split_once('.') {
                        Some((_, p)) => format!("@{p}"),
                        None => "@zz".into(),
                    },
                    3 => format!("@{d}.org"),
                    4 => format!("me@sub-{d}"),
                    5 => format!("me@{d}{d}"),
                    _ => format!("me@a.{d}.a"),
                };
                if let Some((_, id)) = model::identity(&i) {
                    s.identity = Some(i);
                    let _ = id;
                }
            }
            4 => {
                s.valid = Some(*r.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::from_millis(999), Duration::from_nanos(999_999_999)]));
            }
            5 | 6 => {
                let (n, v) = match r.below(13) {
                    0 => ("".to_string(), "x".to_string()),
                    1 => ("1a".into(), "x".into()),
                    2 => ("_a".into(), "x".into()),
                    3 => ("a-b".into(), "x".into()),
                    4 => ("é".into(), "x".into()),
                    5 => ((*r.pick(&["v", "a", "b", "bh", "c", "d", "h", "i", "l", "s", "t", "x", "z"])).into(), "1".into()),
                    6 => ("ok".into(), (*r.pick(&["a;b", ";", "a\0b", "a\x7f"])).into()),
                    7 => ("ok".into(), (*r.pick(&[" a", "a ", "\ta", "a\r\n b ", " ", "\r\n "])).into()),
                    8 => ("ok".into(), (*r.pick(&["a\nb", "a\rb", "a\r\nb", "a\r\n", "\u{1}", "a\r\n\r\n b"])).into()),
                    9 => {
                        s.ascii = true;
                        ("ok".into(), "né".into())
                    }
                    10 => {
                        let e = s.ext.first().cloned().unwrap_or(("dup".into(), "".into()));
                        if s.ext.is_empty() {
                            s.ext.push(e.clone());
                        }
                        (e.0, "other".into())
                    }
                    11 => ("a b".into(), "x".into()),
                    _ => ("a=".into(), "x".into()),
                };
                let i = r.below(s.ext.len() + 1);
                s.ext.insert(i, (n, v));
            }
            7 => {
                s.name = (*r.pick(&["", "DKIM-Signature:", "DKIM-Signatur", "DKIM_Signature", " DKIM-Signature", "DKIM-Signature ", "X-DKIM-Signature", "DKIM-Signature2", "DKİM-Signature"])).into();
                bad.insert("InvalidDkimSignatureHeaderName");
            }
            _ => {
                s.indent = (*r.pick(&["", "x", " x", "\r\n ", "\n", " \r", "\u{a0}", "\u{b}", "  \u{3000}"])).into();
                bad.insert("InvalidIndentationWhitespace");
            }
        }
    }
    if let Some(m) = &s.manual {
        if !m.iter().any(|n| n.eq_ignore_ascii_case("from")) {
            bad.insert("FromHeaderNotSigned");
        }
        if m.iter().any(|n| n.contains(';')) {
            bad.insert("InvalidSignedFieldName");
        }
    }
    if let Some((_, d)) = s.identity.as_ref().and_then(|i| model::identity(i)) {
        if !model::eq_or_sub(&d, &s.domain) {
            bad.insert("DomainMismatch");
        }
    }
    if s.valid.is_some_and(|d| d < Duration::from_secs(1)) {
        bad.insert("ZeroExpirationDuration");
    }
    if bad_ext(s) {
        bad.insert("InvalidExtTags");
    }
    let s = s.clone();
    let f = move || {
        let mut q = s.request();
        if let Some(k) = wrong_key {
            q.signing_key = world::key(k).signing.clone();
        }
        q
    };
    (Box::new(f), bad)
}

fn bad_ext(s: &Spec) -> bool {
    let mut seen = BTreeSet::new();
    s.ext.iter().any(|(n, v)| {
        let name_ok = n.starts_with(|c: char| c.is_ascii_alphabetic())
            && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
        let reserved = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "s", "t", "x", "z"].contains(&n.as_str());
        !seen.insert(n.clone())
            || !name_ok
            || reserved
            || v.trim_matches([' ', '\t', '\r', '\n']) != v
            || !matches!(model::tag_list(&format!("x={v}")), Ok(t) if t.len() == 1 && t[0].1 == *v)
            || (s.ascii && !v.is_ascii())
    })
}

fn c11_many(c: &mut Case<'_>) -> R {
    let h = gen::crowded(&mut c.rng, 1000);
    c.ev("many names or tags");
    if c.rng.coin() {
        return refusals(c, h, true);
    }
    let mut s = gen::spec(&mut c.rng, &h, |_| 2);
    enlarge(&mut c.rng, &mut s, &h);
    tags(c, &h, b"x\r\n", vec![s])
}

fn c11_refuse(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 8);
    refusals(c, h, false)
}

fn refusals(c: &mut Case<'_>, mut h: Vec<Hdr>, large: bool) -> R {
    let mut global: BTreeSet<&'static str> = BTreeSet::new();
    if c.rng.one_in(8) {
        h.retain(|h| !h.0.eq_ignore_ascii_case("from"));
        h.push(((*c.rng.pick(&["To", "Fro", "Resent-From", "From2"])).into(), b" x".to_vec()));
        global.insert("MissingFromHeader");
    }
    let n = match c.rng.below(10) {
        0 => 0,
        1 => 10,
        2 => 11,
        3 => 12,
        _ => 1 + c.rng.below(3),
    };
    let mut reqs = vec![];
    let mut specs = vec![];
    for k in 0..n {
        let mut s = gen::spec(&mut c.rng, &h, |_| 1000);
        if large {
            enlarge(&mut c.rng, &mut s, &h);
        }
        // Ten and more requests are mostly fine otherwise
        if n >= 10 && c.rng.pct(90) {
            reqs.push(s.request());
        } else {
            let (f, bad) = spoil(&mut c.rng, &mut s);
            reqs.push(f());
            if k < 10 {
                global.extend(bad);
            }
        }
        specs.push(s);
    }
    if n == 0 {
        global.insert("EmptyRequests");
    }
    if n > 10 {
        global.insert("TooManyRequests");
    }
    let got = match viadkim::Signer::prepare_signing(mk(&h), reqs) {
        Ok(_) => String::new(),
        Err(e) => format!("{e:?}"),
    };
    if global.is_empty() {
        ensure!(got.is_empty(), format!("good request refused: {got}"), "{got} for{}\n  requests {specs:#?}", show_headers(&h));
        c.ev("accepted");
    } else {
        ensure!(
            !got.is_empty(),
            format!("defect not refused: {}", global.iter().next().unwrap()),
            "accepted although {global:?}:{}\n  requests {specs:#?}", show_headers(&h)
        );
        ensure!(global.contains(got.as_str()), "wrong refusal", "{got} although the defects are {global:?}:{}\n  requests {specs:#?}", show_headers(&h));
        c.ev(&format!("refused {got}"));
        c.nontrivial(format!("{global:?}{specs:?}").as_bytes());
        c.sample(|| format!("{n} request(s) with {global:?} refused as {got}"));
    }
    Ok(())
}

fn c11_tags(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 20);
    let body = gen::body(&mut c.rng, 500);
    let n = 1 + c.rng.below(3);
    let mut specs = gen::some_specs(&mut c.rng, n, &h, canon_len(&body));
    for s in &mut specs {
        // more than there is
        if c.rng.one_in(15) {
            s.bl = Bl::Exact(canon_len(&body)(s.bc) as u64 + *c.rng.pick(&[3, 4, 1000, 1 << 40]));
        }
    }
    tags(c, &h, &body, specs)
}

fn tags(c: &mut Case<'_>, h: &[Hdr], body: &[u8], specs: Vec<Spec>) -> R {
    let chunks = gen::chunks(&mut c.rng, body);
    let before = refv::now(&Config::default());
    let Ok(outs) = sign_all(h, &specs, &chunks, c.rng.coin()) else {
        c.ev("request refused");
        return Ok(());
    };
    let after = refv::now(&Config::default());
    ensure!(outs.len() == specs.len(), "number of outputs", "{} outputs for {} requests {specs:?}\n  headers:{}", outs.len(), specs.len(), show_headers(h));
    for (s, o) in specs.iter().zip(&outs) {
        let desc = || format!("request {s:?}\n  body {}\n  output {o:?}\n  headers:{}", show(body), show_headers(h));
        let want = sign_outcomes(s, body);
        let got = sign_outcome(o);
        ensure!(want.contains(got.as_str()), "signing outcome", "{got:?} instead of {want:?}\n  {}", desc());
        let Ok(o) = o else {
            c.ev(&format!("signing error {got}"));
            continue;
        };
        let m = match model::signature(&o.header_value, world::SHA1) {
            model::Parse::Ok(m) => m,
            p => return fail("output does not parse", format!("{p:?}\n  {}", desc())),
        };
        if let Some(d) = same_sig(c, &o.signature, &m) {
            return fail("reported signature differs from header", format!("{d}\n  {}", desc()));
        }
        macro_rules! same {
            ($n:literal, $a:expr, $b:expr) => {{
                let (a, b) = ($a, $b);
                ensure!(a == b, concat!("tag does not state the request: ", $n), "{}: {a:?} instead of {b:?}\n  {}", $n, desc());
            }};
        }
        let Some(canon) = signed_canon(s, body, o) else {
            return fail("tag does not state the request: bh", format!("body hash\n  {}", desc()));
        };
        let hashed = match s.bl {
            Bl::Exact(n) => n,
            _ => canon.len() as u64,
        };
        same!("a", m.alg.as_str(), s.a());
        same!("c", (m.hc, m.bc), (s.hc, s.bc));
        same!("d", model::a_label(&m.d), model::a_label(&s.domain));
        same!("domain", o.signature.domain.as_ref(), s.domain.as_str());
        same!("s", model::a_label(&m.s), model::a_label(&s.selector));
        same!("selector", o.signature.selector.as_ref(), s.selector.as_str());
        let id = s.identity.as_ref().map(|i| model::identity(i).unwrap());
        same!("i", m.i.as_ref().map(|i| (&i.0, model::a_label(&i.1))), id.as_ref().map(|i| (&i.0, model::a_label(&i.1))));
        same!("h", m.h.clone(), s.expected_h(h));
        same!("l", m.l, if s.bl == Bl::No { None } else { Some(hashed) });
        match s.ts {
            Ts::None => same!("t", m.t, None),
            Ts::Exact(t) => same!("t", m.t, Some(t)),
            Ts::Now => ensure!(m.t.is_some_and(|t| (before..=after).contains(&t)), "tag does not state the request: t", "t={:?} not in {before}..={after}\n  {}", m.t, desc()),
        }
        match (s.valid, m.x) {
            (None, x) => same!("x", x, None),
            (Some(d), Some(x)) => {
                let (lo, hi) = match m.t {
                    Some(t) => (t, t),
                    None => (before, after),
                };
                let (lo, hi) = (lo.saturating_add(d.as_secs()), hi.saturating_add(d.as_secs()));
                ensure!((lo..=hi).contains(&x), "tag does not state the request: x", "x={x} not in {lo}..={hi}\n  {}", desc());
                c.ev("expiration checked");
            }
            (Some(_), None) => return fail("tag does not state the request: x", format!("no expiration\n  {}", desc())),
        }
        let z: Vec<Hdr> = if s.copy {
            h.iter().filter(|(n, _)| m.h.iter().any(|k| k.eq_ignore_ascii_case(n))).cloned().collect()
        } else {
            vec![]
        };
        same!("z", &m.z, &z);
        c.ev_n("copied headers checked", z.len() as u64);
        let sorted = |v: &[(String, String)]| {
            let mut v = v.to_vec();
            v.sort();
            v
        };
        same!("extension tags", sorted(&m.ext), sorted(&s.ext));
        c.ev("output checked");
        c.nontrivial(o.header_value.as_bytes());
    }
    Ok(())
}

// ---------------------------------------------------------------- C12

pub fn c12() -> Vec<Workload> {
    vec![
        wl("coverage", 4000, 250_000, c12_cover),
        wl("select", 4000, 250_000, c12_select),
        wl("policy", 6000, 400_000, c12_policy),
        wl("many", 100, 6000, c12_many),
        wl("everything", 3_000, 200_000, super::verify::everything_headers),
    ]
}

fn default_rich(r: &mut Rng) -> Vec<Hdr> {
    let mut h = gen::headers(r, 25);
    for _ in 0..r.below(8) {
        let n = *r.pick(DEFAULT_SIGNED);
        let n = match r.below(6) {
            0 => format!("{n}s"),
            1 => n[1..].to_string(),
            2 | 3 => gen::recase(r, n),
            _ => n.to_string(),
        };
        let i = r.below(h.len() + 1);
        h.insert(i, (n, gen::field_value(r)));
    }
    h
}

fn c12_cover(c: &mut Case<'_>) -> R {
    let h = default_rich(&mut c.rng);
    let mut s = Spec::plain(cheap_key(&mut c.rng));
    s.hc = c.rng.coin();
    if c.rng.one_in(3) {
        s.manual = Some(gen::manual_names(&mut c.rng, &h));
    }
    s.width = 1 + c.rng.below(100);
    cover(c, h, s)
}

fn cover(c: &mut Case<'_>, h: Vec<Hdr>, s: Spec) -> R {
    let body = b"x\r\n";
    let outs = sign_all(&h, std::slice::from_ref(&s), &[body], false);
    let Ok(Some(Ok(o))) = outs.as_ref().map(|o| o.first()) else {
        return fail("not signed", format!("{outs:?} for {s:?} on{}", show_headers(&h)));
    };
    let want = s.expected_h(&h);
    let got: Vec<String> = o.signature.signed_headers.iter().map(|n| n.as_ref().to_string()).collect();
    // Which case automatically selected names are printed in does not matter;
    // and the order of different names is the signer's choice.
    let norm = |v: &[String]| {
        let mut v: Vec<String> = v.iter().map(|n| n.to_ascii_lowercase()).collect();
        v.sort();
        v
    };
    let ok = if s.manual.is_some() { got == want } else { norm(&got) == norm(&want) };
    ensure!(ok, "covered headers", "h={got:?} instead of {want:?} for {s:?} on{}", show_headers(&h));
    let printed = match model::signature(&o.header_value, world::SHA1) {
        model::Parse::Ok(m) => m.h,
        p => return fail("output does not parse", format!("{p:?}")),
    };
    ensure!(printed == got, "covered headers", "printed h={printed:?} but reported {got:?}");
    c.ev_n("names covered", want.len() as u64);
    c.ev(if s.manual.is_some() { "manual selection" } else { "automatic selection" });
    let all = stack(&[o], &h);
    let recs = records(&mut c.rng, std::slice::from_ref(&s), 0);
    let mut one = permissive();
    one.max_signatures = 1;
    let res = world::verify(&mk(&all), &dns(&recs), &one, &[body], false).unwrap_or_default();
    ensure!(statuses(&res) == ["Success"], "covered headers", "signature over {got:?} gives {:?} on{}", statuses(&res), show_headers(&all));
    // Each covered instance is covered indeed: changing it breaks the signature.
    let sel = model::select(&h, &want);
    let i = c.rng.below(h.len());
    let mut ch = h.clone();
    ch[i].1.extend(b" changed");
    let all = stack(&[o], &ch);
    let res = world::verify(&mk(&all), &dns(&recs), &one, &[body], false).unwrap_or_default();
    let st = statuses(&res);
    let exp = if sel.contains(&i) { "VerificationFailure(VerificationFailure)" } else { "Success" };
    ensure!(st == [exp], "coverage of an instance", "field {i} changed: {st:?} instead of {exp} with h={got:?} on{}", show_headers(&h));
    c.ev(if sel.contains(&i) { "covered instance changed" } else { "uncovered instance changed" });
    c.nontrivial(o.header_value.as_bytes());
    c.sample(|| format!("h={got:?}"));
    Ok(())
}

fn c12_select(c: &mut Case<'_>) -> R {
    let h = if c.rng.one_in(100) { gen::crowded(&mut c.rng, 9000) } else { default_rich(&mut c.rng) };
    let hf = mk(&h);
    let want: Vec<String> = signer::default_signed_headers().iter().map(|n| n.as_ref().to_ascii_lowercase()).collect();
    let def: BTreeSet<String> = DEFAULT_SIGNED.iter().map(|n| n.to_ascii_lowercase()).collect();
    ensure!(want.iter().cloned().collect::<BTreeSet<_>>() == def, "default set", "{want:?}");
    let uns: BTreeSet<String> = signer::default_unsigned_headers().iter().map(|n| n.as_ref().to_ascii_lowercase()).collect();
    let should: BTreeSet<String> = ["return-path", "received", "comments", "keywords"].iter().map(|s| s.to_string()).collect();
    ensure!(uns == should, "default unsigned set", "{uns:?}");
    // predicates: a set of names, and a stateful one
    let chosen: BTreeSet<String> = h.iter().filter(|_| c.rng.coin()).map(|h| h.0.to_ascii_lowercase()).collect();
    let got: Vec<String> = signer::select_headers(&hf, |n| chosen.contains(&n.as_ref().to_ascii_lowercase()))
        .map(|n| n.as_ref().to_string())
        .collect();
    let want: Vec<String> = h.iter().rev().filter(|h| chosen.contains(&h.0.to_ascii_lowercase())).map(|h| h.0.clone()).collect();
    ensure!(got == want, "select_headers", "{got:?} instead of {want:?} for {chosen:?} on{}", show_headers(&h));
    let mut seen = vec![];
    let mut k = 0;
    let got: Vec<String> = signer::select_headers(&hf, |n| {
        seen.push(n.as_ref().to_string());
        k += 1;
        k % 2 == 0
    })
    .map(|n| n.as_ref().to_string())
    .collect();
    let rev: Vec<String> = h.iter().rev().map(|h| h.0.clone()).collect();
    ensure!(seen == rev, "select_headers", "predicate called for {seen:?} instead of {rev:?}");
    let want: Vec<String> = rev.iter().skip(1).step_by(2).cloned().collect();
    ensure!(got == want, "select_headers", "{got:?} instead of {want:?}");
    c.ev_n("instances yielded", (want.len() + got.len()) as u64);
    c.nontrivial(format!("{seen:?}").as_bytes());
    let _ = HeaderSelection::Auto;
    let _: Option<(DomainName, Identity)> = None;
    Ok(())
}

/// Policy on coverage, compared with counting.
fn c12_policy(c: &mut Case<'_>) -> R {
    let h = default_rich(&mut c.rng);
    let list = gen::manual_names(&mut c.rng, &h);
    policy(c, h, list)
}

/// The same with hundreds of fields.
fn c12_many(c: &mut Case<'_>) -> R {
    let h = gen::crowded(&mut c.rng, 3000);
    let list = gen::crowded_list(&mut c.rng, &h, 1500);
    c.ev("crowded message");
    if c.rng.one_in(3) {
        // what the signer chooses
        let mut s = Spec::plain(world::key("ed_a"));
        if c.rng.coin() {
            s.manual = Some(list);
        }
        return cover(c, h, s);
    }
    policy(c, h, list)
}

fn policy(c: &mut Case<'_>, mut h: Vec<Hdr>, list: Vec<String>) -> R {
    let r = &mut c.rng;
    let mut f = gen::ForeignSpec::plain(world::key("ed_a"));
    f.h = list;
    f.hc = r.coin();
    let s = f.sign(r, &h, b"");
    let i = if r.coin() { 0 } else { r.below(h.len() + 1) };
    h.insert(i, (s.name.clone(), s.value.into_bytes()));
    // fields that were added since, anywhere
    for _ in 0..r.below(3) {
        let name = if r.coin() { r.pick(&f.h).clone() } else { gen::field_name(r) };
        let value = if r.coin() { h[r.below(h.len())].1.clone() } else { b" added".to_vec() };
        let i = if r.coin() { 0 } else { r.below(h.len() + 1) };
        h.insert(i, (gen::recase(r, &name), value));
    }
    let pick = |r: &mut Rng| -> Vec<FieldName> {
        let n = r.below(4);
        (0..n)
            .map(|_| {
                let s = match r.below(4) {
                    0 => gen::field_name(r),
                    1 => r.pick(&f.h).clone(),
                    _ => h[r.below(h.len())].0.clone(),
                };
                FieldName::new(gen::recase(r, &s)).unwrap()
            })
            .collect()
    };
    let mut cfg = Config { headers_required_in_signature: pick(r), headers_forbidden_to_be_unsigned: pick(r), ..permissive() };
    if r.one_in(4) {
        cfg.headers_forbidden_to_be_unsigned = Config::default().headers_forbidden_to_be_unsigned;
    }
    let q = world::query_name("sel", "example.com");
    let recs: HashMap<String, Entry> = [(q, Entry::txt(f.key.record()))].into();
    let exp = refv::predict(&refv::Scene { headers: &h, body: b"", config: &cfg, dns: &recs });
    let d = dns(&recs);
    let res = world::verify(&mk(&h), &d, &cfg, &[], false);
    if let Some((k, m)) = refv::diff_results(res.as_deref(), &exp) {
        return fail(k, format!("{m}\n  required {:?} forbidden {:?}{}", cfg.headers_required_in_signature, cfg.headers_forbidden_to_be_unsigned, show_headers(&h)));
    }
    for g in res.iter().flatten() {
        c.ev(&format!("result {}", refv::status(&g.status)));
    }
    c.nontrivial(format!("{cfg:?}{h:?}").as_bytes());
    let t = res.map(|r| statuses(&r));
    c.sample(|| format!("h={:?} required={:?} forbidden={:?} -> {t:?}", f.h, cfg.headers_required_in_signature, cfg.headers_forbidden_to_be_unsigned));
    Ok(())
}
