//! Robustness, memory, cryptography and concurrency: C23, C24, C26, C27.

use super::*;
use crate::{
    alloc,
    case::{fail, show, show_headers, Case, R},
    ensure,
    gen::{ForeignSpec, BIG_TIMES},
    model::ed,
    refv,
    world::{Answer, TestKey},
};
use num_bigint_dig::BigUint;
use pkcs8::{
    der::{pem::LineEnding, Document},
    DecodePrivateKey, EncodePrivateKey,
};
use std::{
    future::Future,
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    io::ErrorKind,
    num::NonZeroUsize,
    sync::Arc,
    time::{Duration, SystemTime},
};
#[cfg(feature = "send")]
use std::sync::{mpsc, Barrier};
use viadkim::{
    canonicalize::{self, BodyCanonicalizer},
    crypto::{self, CountingHasher, DecodeSigningKeyError, HashAlgorithm, HashStatus, KeyType, SigningKey, VerifyingKey},
    header::{FieldBody, FieldName},
    message_hash::{self, BodyHasherBuilder, BodyHasherStance},
    quoted_printable,
    record::DkimKeyRecord,
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity,
        Selector, SigningAlgorithm,
    },
    signer::{self, BodyLength, HeaderSelection, OutputFormat, SignRequest, Signer, Timestamp},
    verifier::{VerificationResult, Verifier},
};

// ---------------------------------------------------------------- C23

pub fn c23() -> Vec<Workload> {
    vec![
        wl("parsers", 60_000, 3_000_000, c23_parsers),
        wl("bytes", 20_000, 1_000_000, c23_bytes),
        wl("body", 8_000, 400_000, c23_body),
        wl("verify", 12_000, 600_000, c23_verify),
        wl("sign", 12_000, 600_000, c23_sign),
        wl("keys", 10_000, 500_000, c23_keys),
        wl("large", 60, 2_000, c23_large),
        wl("growth", 46, 460, c23_growth),
    ]
}

const ODD: &[&str] = &[
    "", " ", "\t", "\r\n", "\r\n ", "\r\n\t", "\r", "\n", "\0", ";", "=", ":", "|", "@", ".", "..", "/", "-", "_",
    "\"", "\\", "\\\"", "'", "<", "(", "*", "+", "%", "==", ";;", ":::", "=3", "=3D", "=3d", "=0D=0A", "=00", "=FF",
    "=C3=BC", "=C3", "é", "ß", "ü", "中", "\u{a0}", "\u{200b}", "\u{200d}", "\u{2028}", "\u{feff}", "\u{3002}",
    "\u{10ffff}", "😀", "e\u{301}", "\u{301}", "K", "ſ", "İ", "١", "\u{85}", "\u{b}", "\u{c}", "\u{7f}", "xn--", "xn--a",
    "xn--ls8h", "0", "1", "00", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "+1",
    "4294967296", "DKIM1", "rsa", "rsa-sha256", "rsa-sha1", "ed25519-sha256", "relaxed", "simple", "simple/relaxed",
    "dns/txt", "from", "From", "example.com", "sel", "v=1", "a=", "b=", "bh=", "c=", "d=", "h=", "i=", "l=", "q=", "s=",
    "t=", "x=", "z=", "k=", "n=", "p=", "v=DKIM1", "AAAA", "AA==", "A", "////", "++++", "a", "b", "A1_",
];

fn hostile(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => r.below(4),
        1 | 2 => r.below(16),
        _ => r.below(60),
    };
    let mut s = String::new();
    for _ in 0..n {
        match r.below(12) {
            0 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            1 => s.push(r.below(256) as u8 as char),
            2 => {
                let p = *r.pick(ODD);
                let k = gen::size(r, 300);
                s.push_str(&p.repeat(k.min(300)));
            }
            3 => s.push_str(&super::parse::odd_name(r)),
            _ => s.push_str(r.pick(ODD)),
        }
    }
    s
}

/// A nearly valid text of some kind.
fn semi_valid(r: &mut Rng) -> String {
    let mut s = match r.below(6) {
        0 | 1 => {
            let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
            let mut f = ForeignSpec::plain(world::key("ed_a"));
            f.odd = *r.pick(&[0, 20, 60]);
            f.t = Some(*r.pick(BIG_TIMES));
            f.l = Some(*r.pick(BIG_TIMES));
            f.identity = Some("me@example.com".into());
            f.sign(r, &h, b"").value
        }
        2 => gen::record_any(r, world::key("ed_a"), 20),
        3 => gen::record_any(r, world::key("rsa1024"), 20),
        4 => format!("{}@{}", gen::local_part(r), gen::domain(r)),
        _ => {
            let mut s = String::new();
            for (n, v) in gen::headers(r, 4) {
                s.push_str(&format!("{n}:{}\r\n", String::from_utf8_lossy(&v)));
            }
            s
        }
    };
    for _ in 0..r.below(5) {
        let cs: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        let (a, b) = (*r.pick(&cs), *r.pick(&cs));
        let (a, b) = (a.min(b), a.max(b));
        match r.below(6) {
            0 => s.truncate(b),
            1 => s.replace_range(a..*cs.iter().find(|i| **i >= b.min(a + 3)).unwrap(), ""),
            2 => {
                let c = s[a..b].to_string();
                s.insert_str(b, &c);
            }
            _ => {
                let p = if r.one_in(5) { hostile(r) } else { r.pick(ODD).to_string() };
                s.insert_str(a, &p);
            }
        }
        while !s.is_empty() && !s.is_char_boundary(s.len()) {
            s.pop();
        }
    }
    s
}

fn touch<T: std::fmt::Debug>(t: &T) -> usize {
    format!("{t:?}").len() + format!("{t:#?}").len()
}

fn hashed<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn use_signature(c: &mut Case<'_>, s: &str) {
    match s.parse::<DkimSignature>() {
        Ok(g) => {
            c.ev("signature accepted");
            touch(&g);
            let _ = message_hash::body_hasher_key(&g);
            // The value hashed must be that of a header field.
            if FieldBody::new(s.as_bytes()).is_err() {
                return;
            }
            let h = mk(&[("From".into(), b" a".to_vec())]);
            for alg in [CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed] {
                let _ = message_hash::compute_data_hash(g.algorithm.hash_algorithm(), alg, &h, &g.signed_headers, "DKIM-Signature", s);
            }
        }
        Err(e) => {
            c.ev("signature rejected");
            touch(&e);
            let _ = e.to_string();
        }
    }
}

fn all_parsers(c: &mut Case<'_>, s: &str) {
    use_signature(c, s);
    match s.parse::<DkimKeyRecord>() {
        Ok(k) => {
            c.ev("record accepted");
            touch(&k);
            let _ = k.is_testing();
            let _ = VerifyingKey::from_key_data(k.key_type, &k.key_data).map(|v| (v.key_size(), v.validate_min_key_size()));
        }
        Err(e) => {
            touch(&e);
            c.ev("record rejected");
        }
    }
    let d = [s.to_string(), format!("{s}.com"), format!("a.{s}")];
    let mut names = vec![];
    for s in &d {
        if let Ok(n) = DomainName::new(s.as_str()) {
            c.ev("domain accepted");
            touch(&n);
            let (a, u) = (n.to_ascii(), n.to_unicode());
            let _ = (DomainName::new(a), DomainName::new(u), n.to_string(), hashed(&n));
            names.push(n);
        }
        if let Ok(n) = Selector::new(s.as_str()) {
            c.ev("selector accepted");
            touch(&n);
            let (a, u) = (n.to_ascii(), n.to_unicode());
            let _ = (Selector::new(a), Selector::new(u), n.to_string(), hashed(&n));
        }
    }
    names.push(DomainName::new("example.com").unwrap());
    for a in &names {
        for b in &names {
            let _ = (a == b, a.eq_or_subdomain_of(b));
        }
    }
    for s in [s.to_string(), format!("@{s}"), format!("{s}@example.com"), format!("a@{s}")] {
        if let Ok(i) = Identity::new(&s) {
            c.ev("identity accepted");
            touch(&i);
            let _ = (i.to_string(), hashed(&i), i.clone() == i);
        }
    }
    if let Ok(h) = s.parse::<HeaderFields>() {
        c.ev("header accepted");
        touch(&h);
    }
    if let Ok(n) = FieldName::new(s) {
        c.ev("field name accepted");
        touch(&n);
        let _ = (hashed(&n), n == "From", n.to_string());
    }
    let _ = (s.parse::<SigningAlgorithm>(), s.parse::<CanonicalizationAlgorithm>(), s.parse::<Canonicalization>());
    let _ = SigningKey::from_pkcs8_pem(s);
    for x in [quoted_printable::decode(s), quoted_printable::decode_qp_section(s)] {
        if let Ok(v) = x {
            c.ev("quoted-printable accepted");
            let _ = quoted_printable::encode(&v, Some('|'));
            let _ = quoted_printable::encode_ascii_only(&v, None);
        }
    }
}

fn c23_parsers(c: &mut Case<'_>) -> R {
    let s = if c.rng.coin() { hostile(&mut c.rng) } else { semi_valid(&mut c.rng) };
    c.nontrivial(s.as_bytes());
    c.sample(|| show(s.as_bytes()));
    all_parsers(c, &s);
    // the values of tags on their own
    let t = *c.rng.pick(&["i", "z", "h", "l", "q", "c", "s", "d", "x", "t", "b", "bh", "a", "zz"]);
    let base = "v=1; a=ed25519-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; c=simple; i=@example.com; ";
    let v = base.replace(&format!("{t}="), "y=");
    use_signature(c, &format!("{v}{t}={s}"));
    use_signature(c, &format!("{t}={s}; {v}"));
    Ok(())
}

fn c23_bytes(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let n = gen::size(r, 2000);
    let mut b = match r.below(4) {
        0 => r.bytes(n),
        1 => gen::body(r, 300),
        2 => gen::field_value(r),
        _ => hostile(r).into_bytes(),
    };
    for _ in 0..r.below(4) {
        let i = r.below(b.len() + 1);
        let x = *r.pick(&[0u8, 9, 10, 13, 32, 0x7f, 0x80, 0xbf, 0xc3, 0xe0, 0xf0, 0xf4, 0xff]);
        b.insert(i, x);
    }
    c.nontrivial(&b);
    c.sample(|| show(&b));
    for ch in [None, Some('|'), Some('a'), Some('='), Some('\u{7f}'), Some('é'), Some('\0')] {
        let _ = quoted_printable::encode(&b, ch);
        let e = quoted_printable::encode_ascii_only(&b, ch);
        let _ = quoted_printable::decode(&e);
    }
    let ok = FieldBody::new(&b[..]);
    if let Ok(f) = &ok {
        c.ev("field body accepted");
        touch(f);
    }
    // Canonicalization is documented for proper fields only, which this is.
    if let Ok(f) = ok {
        for alg in [CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed] {
            let mut v = vec![];
            canonicalize::canonicalize_header(&mut v, alg, "X", f.as_ref());
        }
        let h = HeaderFields::from_vec(vec![("DKIM-Signature".into(), f.as_ref().to_vec()), ("From".into(), b.clone())]);
        if let Ok(h) = h {
            let d = Dns::new([]);
            if let Some(v) = world::verify(&h, &d, &Config::default(), &[&b], false) {
                c.ev_n("results", v.len() as u64);
                touch(&v);
            }
        }
    }
    Ok(())
}

fn some_usize(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 2, 3, 10, 100, 1000, 65535, 65536, i64::MAX as usize, usize::MAX - 1, usize::MAX])
}

fn c23_body(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let b = match r.below(3) {
        0 => r.bytes(300),
        1 => {
            let n = gen::size(r, 3000);
            (0..n).map(|_| *r.pick(b"\r\n \ta")).collect()
        }
        _ => gen::body(r, 5000),
    };
    let ch = gen::chunks(r, &b);
    for alg in [CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed] {
        let mut k = BodyCanonicalizer::new(alg);
        for x in &ch {
            let _ = k.canonicalize_chunk(x);
        }
        let _ = k.finish();
        let _ = BodyCanonicalizer::new(alg).finish();
    }
    let mut hb = BodyHasherBuilder::new(r.coin());
    let mut keys = vec![];
    for _ in 0..r.below(8) {
        let len = match r.below(3) {
            0 => None,
            1 => Some(some_usize(r)),
            _ => Some(r.below(b.len() + 3)),
        };
        let key = (len, world::hash_alg(r.coin()), gen::canon_alg(r.coin()));
        hb.register_canonicalization(key.0, key.1, key.2);
        keys.push(key);
    }
    let mut h = hb.build();
    for x in &ch {
        if h.hash_chunk(x) == BodyHasherStance::Done {
            c.ev("done");
        }
    }
    let res = h.finish();
    for k in &keys {
        ensure!(res.get(k).is_some(), "no answer to a request", "{k:?}");
        c.ev("answers");
    }
    let _ = res.get(&(Some(12345), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple));
    for len in [None, Some(0), Some(b.len()), Some(usize::MAX)] {
        let mut k = CountingHasher::new(HashAlgorithm::Sha256, len);
        for x in &ch {
            if k.update(x) == HashStatus::Truncated {
                c.ev("truncated");
            }
        }
        let _ = (k.is_done(), k.finish());
    }
    c.nontrivial(&b);
    c.sample(|| show(&b));
    Ok(())
}

fn hostile_entry(r: &mut Rng) -> Entry {
    let kinds = [ErrorKind::NotFound, ErrorKind::InvalidInput, ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::UnexpectedEof];
    let mut e = match r.below(6) {
        0 => Entry::of(Answer::Err(*r.pick(&kinds))),
        _ => {
            let n = match r.below(5) {
                0 => 0,
                1 => r.below(60),
                _ => 1 + r.below(4),
            };
            Entry::of(Answer::Txt(
                (0..n)
                    .map(|_| match r.below(5) {
                        0 => Err(*r.pick(&kinds)),
                        1 => Ok(r.bytes(40)),
                        2 => Ok(hostile(r).into_bytes()),
                        3 => Ok(semi_valid(r).into_bytes()),
                        _ => {
                            let p = match r.below(3) {
                                0 => {
                                    let n = r.below(400);
                                    r.bytes(n)
                                }
                                1 => {
                                    let mut v = any_key(r, 2048).public(r.coin());
                                    let i = r.below(v.len());
                                    v[i] = r.u64() as u8;
                                    v
                                }
                                _ => {
                                    let mut v = any_key(r, 2048).public(r.coin());
                                    let n = r.below(v.len());
                                    v.truncate(n);
                                    v
                                }
                            };
                            Ok(format!("{}p={}", r.pick(&["", "k=rsa;", "k=ed25519;"]), model::b64_encode(&p)).into_bytes())
                        }
                    })
                    .collect(),
            ))
        }
    };
    e.never = r.one_in(12);
    e.yields = r.below(3);
    if r.one_in(8) {
        e.delay = Some(Duration::from_millis(r.below(20_000) as u64));
    }
    e
}

fn any_key(r: &mut Rng, max: usize) -> &'static TestKey {
    loop {
        let k = &world::keys()[r.below(world::keys().len())];
        if k.bits <= max {
            return k;
        }
    }
}

fn hostile_config(r: &mut Rng) -> Config {
    let d = [Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(1), Duration::from_secs(1000), Duration::MAX];
    let names = |r: &mut Rng| -> Vec<FieldName> {
        (0..r.below(4)).map(|_| FieldName::new(gen::field_name(r)).unwrap()).collect()
    };
    let t = match r.below(5) {
        0 => None,
        1 => SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(i64::MAX as u64)),
        2 => SystemTime::UNIX_EPOCH.checked_sub(Duration::from_secs(i64::MAX as u64)),
        3 => SystemTime::UNIX_EPOCH.checked_sub(Duration::from_nanos(1)),
        _ => Some(SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000)),
    };
    Config {
        lookup_timeout: *r.pick(&d),
        max_signatures: some_usize(r),
        headers_required_in_signature: if r.one_in(4) { names(r) } else { vec![] },
        headers_forbidden_to_be_unsigned: if r.coin() { names(r) } else { vec![] },
        min_key_bits: some_usize(r),
        allow_sha1: r.coin(),
        forbid_unsigned_content: r.coin(),
        allow_expired: r.coin(),
        allow_timestamp_in_future: r.coin(),
        time_tolerance: *r.pick(&d),
        fixed_system_time: t,
    }
}

fn c23_verify(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h = gen::headers(r, 6);
    let base = h.clone();
    let body = gen::body(r, 300);
    let mut entries = vec![];
    for i in 0..1 + r.below(4) {
        let mut f = ForeignSpec::plain(any_key(r, 1100));
        f.sha1 = !f.key.ed && r.one_in(4);
        f.selector = format!("s{i}");
        f.odd = *r.pick(&[0, 20, 50]);
        f.hc = r.coin();
        f.bc = r.coin();
        f.h = gen::manual_names(r, &h);
        f.l = r.one_in(3).then(|| *r.pick(BIG_TIMES));
        f.t = r.one_in(3).then(|| *r.pick(BIG_TIMES));
        f.x = r.one_in(3).then(|| *r.pick(BIG_TIMES));
        let s = f.sign(r, &base, &body);
        let mut v = s.value.into_bytes();
        match r.below(5) {
            0 => v = semi_valid(r).into_bytes(),
            1 => {
                // b= of another length
                let v2 = String::from_utf8(v.clone()).unwrap();
                if let Some(i) = v2.find("b=") {
                    let n = r.below(600);
                    v = format!("{}b={}; zz={}", &v2[..i], model::b64_encode(&r.bytes(n)), &v2[i + 2..]).into_bytes();
                }
            }
            _ => {}
        }
        if model::valid_field_body(&v) {
            let i = r.below(h.len() + 1);
            h.insert(i, (s.name, v));
        }
        let e = if r.one_in(3) { Entry::txt(f.key.record()) } else { hostile_entry(r) };
        entries.push((world::query_name(&f.selector, &f.domain), e));
    }
    let cfg = hostile_config(r);
    // A lookup that never ends ends never with an unlimited timeout.
    if cfg.lookup_timeout == Duration::MAX {
        for e in &mut entries {
            e.1.never = false;
        }
    }
    let d = Dns::new(entries);
    let ch = gen::chunks(r, &body);
    let hf = mk(&h);
    let res = world::verify(&hf, &d, &cfg, &ch, r.coin());
    for g in res.iter().flatten() {
        c.ev(&format!("result {}", refv::status(&g.status)));
        let _ = (touch(g), g.status.to_dkim_result().to_string(), hashed(g));
    }
    c.nontrivial(format!("{h:?}{cfg:?}").as_bytes());
    c.sample(|| format!("{:?}", res.map(|r| statuses(&r))));
    Ok(())
}

fn c23_sign(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let h = if r.one_in(8) {
        vec![(gen::field_name(r), gen::field_value(r))]
    } else {
        gen::headers(r, 10)
    };
    let body = gen::body(r, 300);
    let n = if r.one_in(10) { r.below(13) } else { r.range(1, 2) };
    let mut reqs = vec![];
    for _ in 0..n {
        let mut s = gen::spec(r, &h, canon_len(&body));
        if r.one_in(3) {
            s.key = any_key(r, 1100);
        }
        let mut q: SignRequest<Arc<SigningKey>> = s.request();
        for _ in 0..r.below(5) {
            match r.below(13) {
                0 => q.format.indentation = if r.coin() { hostile(r) } else { " \t".repeat(some_usize(r).min(2000)) },
                1 => q.format.header_name = hostile(r),
                2 => q.format.line_width = NonZeroUsize::new(some_usize(r)).unwrap_or(NonZeroUsize::MIN),
                3 => {
                    let (n, v) = (hostile(r), hostile(r));
                    q.ext_tags.push((n, v));
                }
                4 => {
                    let v = if r.coin() { semi_valid(r) } else { "x".repeat(some_usize(r).min(100_000)) };
                    q.ext_tags.push(("x1".into(), v));
                }
                5 => q.valid_duration = Some(*r.pick(&[Duration::ZERO, Duration::from_nanos(1), Duration::MAX, Duration::from_secs(u64::MAX)])),
                6 => q.timestamp = Timestamp::Exact(*r.pick(BIG_TIMES)),
                7 => q.body_length = BodyLength::Exact(some_usize(r) as u64),
                8 => {
                    let v: Vec<FieldName> = (0..r.below(300)).filter_map(|_| FieldName::new(gen::field_name(r)).ok()).collect();
                    q.header_selection = HeaderSelection::Manual(v);
                }
                9 => {
                    if let Ok(d) = DomainName::new(super::parse::odd_name(r)) {
                        q.domain = d;
                    }
                }
                10 => {
                    if let Ok(i) = Identity::new(&format!("{}@{}", gen::local_part(r), gen::domain(r))) {
                        q.identity = Some(i);
                    }
                }
                11 => {
                    // not an order at all, but only of two tags
                    q.format.tag_order = Some(Box::new(|a, b| (a == "b").cmp(&(b == "b")).reverse()));
                }
                _ => q.algorithm = *r.pick(&[SigningAlgorithm::RsaSha256, SigningAlgorithm::Ed25519Sha256]),
            }
        }
        q.copy_headers |= r.one_in(3);
        let _ = touch(&q.format);
        reqs.push(q);
    }
    let ch = gen::chunks(r, &body);
    let hf = mk(&h);
    match world::sign(hf, reqs, &ch, r.coin()) {
        Ok(v) => {
            for o in &v {
                match o {
                    Ok(o) => {
                        c.ev("signed");
                        let _ = (o.format_header().to_string(), o.to_header_field(), touch(o));
                        use_signature(c, &o.header_value);
                    }
                    Err(e) => c.ev(&format!("signing error {e:?}")),
                }
            }
        }
        Err(e) => {
            let _ = (e.to_string(), touch(&e));
            c.ev(&format!("refused {e:?}"));
        }
    }
    c.nontrivial(format!("{h:?}{body:?}").as_bytes());
    c.sample(|| show_headers(&h));
    let _ = (signer::default_signed_headers(), signer::default_unsigned_headers(), OutputFormat::default());
    Ok(())
}

fn c23_keys(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let data = match r.below(5) {
        0 => {
            let n = gen::size(r, 600);
            r.bytes(n)
        }
        1 => {
            let mut v = any_key(r, 2048).public(r.coin());
            for _ in 0..1 + r.below(4) {
                let i = r.below(v.len());
                v[i] = *r.pick(&[0, 1, 2, 3, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0xff]);
            }
            v
        }
        2 => {
            let mut v = any_key(r, 2048).public(r.coin());
            let n = r.below(v.len() + 1);
            v.truncate(n);
            v
        }
        3 => {
            // odd numbers
            let num = |r: &mut Rng| match r.below(5) {
                0 => BigUint::from(r.below(5) as u64),
                1 => {
                    let n = 1 + r.below(600);
                    BigUint::from_bytes_be(&r.bytes(n))
                }
                2 => BigUint::from(1u8) << r.below(9000),
                3 => (BigUint::from(1u8) << (1 + r.below(5000))) - 1u8,
                _ => BigUint::from(65537u32),
            };
            let (n, e) = (num(r), num(r));
            if r.coin() { model::spki_rsa(&n, &e) } else { model::pkcs1_public(&n, &e) }
        }
        _ => {
            let k = r.bytes(32);
            if r.coin() { model::spki_ed25519(&k) } else { k }
        }
    };
    c.nontrivial(&data);
    c.sample(|| show(&data));
    let r = &mut c.rng;
    let (dn, sn) = (r.below(40), r.below(600));
    let (digest, sig) = (r.bytes(dn), r.bytes(sn));
    for kt in [KeyType::Rsa, KeyType::Ed25519] {
        match VerifyingKey::from_key_data(kt, &data) {
            Ok(k) => {
                c.ev("key data accepted");
                let _ = (k.key_size(), k.validate_min_key_size(), touch(&k));
                let ok = match &k {
                    VerifyingKey::Rsa(k) => crypto::verify_rsa(k, world::hash_alg(c.rng.coin()), &digest, &sig).is_ok(),
                    VerifyingKey::Ed25519(k) => crypto::verify_ed25519(k, &digest, &sig).is_ok(),
                };
                let _ = ok;
            }
            Err(e) => {
                c.ev("key data rejected");
                let _ = e.to_string();
            }
        }
    }
    // private keys
    let r = &mut c.rng;
    let mut pem = any_key(r, 1100).pem.to_string();
    for _ in 0..1 + r.below(4) {
        let i = r.below(pem.len());
        let b = *r.pick(b"AB/+=-\n\r :x9");
        match r.below(3) {
            0 => pem.replace_range(i..i + 1, &(b as char).to_string()),
            1 => pem.insert(i, b as char),
            _ => pem.replace_range(i..i + 1, ""),
        }
    }
    if let Ok(k) = SigningKey::from_pkcs8_pem(&pem) {
        c.ev("damaged PEM accepted");
        let _ = (k.key_type(), k.signature_length());
        match &k {
            SigningKey::Rsa(k) => {
                let _ = crypto::sign_rsa(HashAlgorithm::Sha256, k, &digest);
            }
            SigningKey::Ed25519(k) => {
                let _ = crypto::sign_ed25519(k, &digest);
            }
        }
    }
    // a good private key, and digests and signatures of any length
    let k = any_key(&mut c.rng, 1100);
    match &*k.signing {
        SigningKey::Rsa(k) => {
            let _ = crypto::sign_rsa(world::hash_alg(c.rng.coin()), k, &digest);
            let p = k.to_public_key();
            let _ = crypto::verify_rsa(&p, HashAlgorithm::Sha256, &digest, &sig);
        }
        SigningKey::Ed25519(k) => {
            let _ = crypto::verify_ed25519(&k.verifying_key(), &digest, &sig);
        }
    }
    Ok(())
}

/// Large and repetitive input. What is too slow is found by the watchdog.
fn c23_large(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let p = match r.below(3) {
        0 => (*r.pick(ODD)).to_string(),
        1 => format!("{}{}", r.pick(ODD), r.pick(ODD)),
        _ => format!("{}{}{}", r.pick(ODD), r.pick(ODD), r.pick(ODD)),
    };
    let total = *r.pick(&[1000, 10_000, 60_000]);
    let n = total / p.len().max(1);
    let (pre, post) = (*r.pick(ODD), *r.pick(ODD));
    let s = format!("{pre}{}{post}", p.repeat(n));
    c.nontrivial(s.as_bytes());
    c.sample(|| format!("{n} × {}", show(p.as_bytes())));
    let t0 = std::time::Instant::now();
    all_parsers(c, &s);
    for t in ["i", "z", "h", "b", "n"] {
        use_signature(c, &format!("v=1; a=ed25519-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA; {t}={s}"));
        let _ = format!("p=AAAA; {t}={s}").parse::<DkimKeyRecord>();
    }
    c.ev_n("bytes", s.len() as u64);
    let body: Vec<u8> = s.bytes().cycle().take(if s.is_empty() { 0 } else { 1 << 20 }).collect();
    for alg in [CanonicalizationAlgorithm::Simple, CanonicalizationAlgorithm::Relaxed] {
        let mut k = BodyCanonicalizer::new(alg);
        let mut n = 0;
        for x in body.chunks(1 + c.rng.below(5000)) {
            n += k.canonicalize_chunk(x).len();
        }
        n += k.finish().len();
        ensure!(n <= body.len() + 2, "canonical form longer than the body", "{n} of {}", body.len());
    }
    if let Ok(f) = FieldBody::new(s.as_bytes()) {
        c.ev("large field");
        let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec()), ("Subject".into(), f.as_ref().to_vec())];
        let mut sp = Spec::plain(world::key("ed_a"));
        sp.copy = c.rng.coin();
        sp.width = *c.rng.pick(&[1, 10, 78, usize::MAX]);
        sp.hc = c.rng.coin();
        if let Ok(v) = sign_all(&h, &[sp], &[b"hi"], false) {
            if let Some(Ok(o)) = v.first() {
                use_signature(c, &o.header_value);
            }
        }
    }
    if std::env::var_os("VK_TIMES").is_some() && t0.elapsed().as_millis() > 500 {
        eprintln!("{:?} {pre:?} {p:?} {post:?} × {n}", t0.elapsed());
    }
    Ok(())
}

/// CPU time used by this thread.
fn cpu() -> Duration {
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    Duration::from_nanos(s.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0))
}

/// Work that grows with some dimension of the input, of about `n` bytes.
fn growth_work(kind: usize, n: usize, odd: &str) -> (&'static str, Box<dyn FnOnce()>) {
    fn sig(s: String) -> Box<dyn FnOnce()> {
        Box::new(move || drop(s.parse::<DkimSignature>()))
    }
    fn rec(s: String) -> Box<dyn FnOnce()> {
        Box::new(move || drop(s.parse::<DkimKeyRecord>()))
    }
    fn numbered(n: usize, f: impl Fn(usize) -> String) -> String {
        let mut s = String::new();
        let mut i = 0;
        while s.len() < n {
            s.push_str(&f(i));
            i += 1;
        }
        s
    }
    fn short(mut i: usize) -> String {
        let mut s = String::from("T");
        for _ in 0..3 {
            s.push(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[i % 63] as char);
            i /= 63;
        }
        s
    }
    const BASE: &str = "v=1; a=ed25519-sha256; d=example.com; s=s; h=from; bh=AAAA; b=AAAA";
    let fill = odd.repeat(n / odd.len().max(1) + 1);
    match kind {
        0 => ("record tags", rec(format!("p=AAAA;{}", numbered(n, |i| format!("{}=;", short(i)))))),
        1 => ("signature tags", sig(format!("{BASE};{}", numbered(n, |i| format!("t{}=;", short(i)))))),
        2 => ("duplicate at the end", rec(format!("p=AAAA;{}p=", numbered(n, |i| format!("{}=;", short(i)))))),
        3 => ("signed names", sig(BASE.replace("from", &format!("{}:from", numbered(n, |i| format!("n{i}:")).trim_end_matches(':'))))),
        4 => ("copied fields", sig(format!("{BASE}; z={}", numbered(n, |i| format!("n{i}:=20x|")).trim_end_matches('|')))),
        5 => ("long base64", rec(format!("p={}", "AAAA\r\n ".repeat(n / 7)))),
        6 => ("long base64 in signature", sig(BASE.replace("b=AAAA", &format!("b={}", "AAAA \r\n\t".repeat(n / 8))))),
        7 => ("one long tag value", sig(format!("{BASE}; foo={fill}"))),
        8 => ("one long note", rec(format!("p=AAAA; n={}", fill.replace(';', "")))),
        9 => ("lists of a record", rec(format!("p=AAAA; h={0}:sha256; s={0}:email; t={0}:y", numbered(n / 3, |i| format!("i{i}:")).trim_end_matches(':')))),
        10 => {
            let s = numbered(n, |i| format!("n{i}: v\r\n"));
            ("header fields", Box::new(move || drop(s.parse::<viadkim::header::HeaderFields>())))
        }
        11 => {
            let s = format!("a: b{}", "\r\n x".repeat(n / 4));
            ("field lines", Box::new(move || drop(s.parse::<viadkim::header::HeaderFields>())))
        }
        12 | 13 => {
            let b = fill.into_bytes();
            let alg = gen::canon_alg(kind == 13);
            let work = move || {
                for size in [1, 100, usize::MAX] {
                    let mut k = BodyCanonicalizer::new(alg);
                    b.chunks(size.min(b.len().max(1))).for_each(|x| drop(k.canonicalize_chunk(x)));
                    let _ = k.finish();
                }
            };
            ("body", Box::new(work))
        }
        14 => {
            let h: Vec<Hdr> = (0..n / 20).map(|i| (if i % 3 == 0 { "Subject".into() } else { format!("n{i}") }, b" value".to_vec())).chain([("From".into(), b" a".to_vec())]).collect();
            let mut sp = Spec::plain(world::key("ed_a"));
            sp.copy = true;
            ("signing of fields", Box::new(move || drop(sign_all(&h, &[sp], &[b"hi"], false))))
        }
        15 => {
            let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec()), ("Subject".into(), b" word".repeat(n / 5))];
            let mut sp = Spec::plain(world::key("ed_a"));
            sp.copy = true;
            sp.width = 1;
            ("signing of a long field", Box::new(move || drop(sign_all(&h, &[sp], &[b"hi"], false))))
        }
        16..=19 => {
            // many fields and many signed names: the same, all different, none present, some of each
            let name = move |i: usize| match kind {
                16 => "a".to_string(),
                17 => short(i),
                18 => "b".to_string(),
                _ => if i % 3 == 0 { short(i) } else { format!("n{}", i % 7) },
            };
            let mut h: Vec<Hdr> = (0..n / 12).map(|i| (if kind == 18 { "a".into() } else { name(i) }, b"".to_vec())).collect();
            h.push(("From".into(), b" a".to_vec()));
            let mut f = ForeignSpec::plain(world::key("ed_a"));
            f.h = numbered(n / 2, |i| format!("{}:", name(i))).split(':').filter(|s| !s.is_empty()).map(String::from).chain(["From".into()]).collect();
            let s = f.sign(&mut Rng::new(1), &[], b"");
            h.insert(0, (s.name, s.value.into_bytes()));
            let recs = HashMap::from([(world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record()))]);
            ("many fields and signed names", Box::new(move || drop(world::verify(&mk(&h), &dns(&recs), &Config::default(), &[], false))))
        }
        20 | 21 => {
            // many fields, of which many are selected and copied
            let h: Vec<Hdr> = (0..n / 16).map(|i| (if i % 2 == 0 { short(i) } else { "X".into() }, b" v".to_vec())).chain([("From".into(), b" a".to_vec())]).collect();
            let mut sp = Spec::plain(world::key("ed_a"));
            sp.copy = kind == 20;
            sp.manual = Some(h.iter().map(|x| x.0.clone()).filter(|n| n != "X").collect());
            ("selection among many fields", Box::new(move || drop(sign_all(&h, &[sp], &[b"hi"], false))))
        }
        _ => {
            let h: Vec<Hdr> = (0..n / 100).map(|i| ("DKIM-Signature".into(), format!(" {BASE}; i=@x{i}.example.com").into_bytes())).chain([("From".into(), b" a".to_vec())]).collect();
            let recs = HashMap::new();
            ("many signatures", Box::new(move || drop(world::verify(&mk(&h), &dns(&recs), &Config::default(), &[], false))))
        }
    }
}

const GROWTH: u64 = 23;

/// Four times the input must not take much more than four times as long.
fn c23_growth(c: &mut Case<'_>) -> R {
    let odd = loop {
        let o = *c.rng.pick(ODD);
        if !o.is_empty() {
            break o;
        }
    };
    let kind = (c.index % GROWTH) as usize;
    let mut took = [Duration::ZERO; 2];
    let mut what = "";
    for (k, n) in [1 << 18, 1 << 20].into_iter().enumerate() {
        let (name, work) = growth_work(kind, n, odd);
        what = name;
        let t = cpu();
        work();
        took[k] = cpu() - t;
        c.ev_n("bytes", n as u64);
    }
    if std::env::var_os("VK_TIMES").is_some() {
        eprintln!("{what} {odd:?} {took:?}");
    }
    ensure!(
        took[1] < Duration::from_secs(10) || took[1] < took[0] * 7,
        format!("time runs away: {what}"), "{took:?} of CPU time for 256 KiB and 1 MiB of {what} ({odd:?})"
    );
    c.ev(&format!("grown: {what}"));
    c.nontrivial(format!("{kind} {odd}").as_bytes());
    c.sample(|| format!("{what} {odd:?}: {took:?}"));
    Ok(())
}

// ---------------------------------------------------------------- C24

pub fn c24() -> Vec<Workload> {
    vec![
        wl("streaming", 240, 3_000, c24_stream),
        wl("release", 3_000, 100_000, c24_release),
    ]
}

/// An endless body.
struct Stream {
    kind: usize,
    period: Vec<u8>,
    pos: usize,
}

impl Stream {
    fn new(r: &mut Rng) -> Self {
        let kind = r.below(12);
        let period = match kind {
            0 => b"\r\n".to_vec(),
            1 => b" ".to_vec(),
            2 => b"\t \r\n".to_vec(),
            3 => b"x".to_vec(),
            4 => b"\r".to_vec(),
            5 => b"\n".to_vec(),
            6 => b"Hello there, friend!\r\n".to_vec(),
            7 => b"a \r\n".to_vec(),
            8 => b" \r".to_vec(),
            9 => r.bytes(4099),
            _ => gen::body(r, 3000),
        };
        let period = if period.is_empty() { b"\r\n\r\n ".to_vec() } else { period };
        Stream { kind, period, pos: 0 }
    }

    fn next(&mut self, n: usize, buf: &mut Vec<u8>) {
        buf.clear();
        while buf.len() < n {
            let k = (n - buf.len()).min(self.period.len() - self.pos);
            buf.extend(&self.period[self.pos..self.pos + k]);
            self.pos = (self.pos + k) % self.period.len();
        }
    }
}

/// Something that takes a body.
enum Taker {
    Signer(Signer<Arc<SigningKey>>),
    Verifier(Verifier),
    Hasher(message_hash::BodyHasher),
    Canon(BodyCanonicalizer),
}

impl Taker {
    fn feed(&mut self, b: &[u8]) -> BodyHasherStance {
        match self {
            Taker::Signer(s) => s.process_body_chunk(b),
            Taker::Verifier(s) => s.process_body_chunk(b),
            Taker::Hasher(s) => s.hash_chunk(b),
            Taker::Canon(s) => {
                drop(s.canonicalize_chunk(b));
                BodyHasherStance::Interested
            }
        }
    }

    fn name(&self) -> &'static str {
        match self {
            Taker::Signer(_) => "signer",
            Taker::Verifier(_) => "verifier",
            Taker::Hasher(_) => "body hasher",
            Taker::Canon(_) => "canonicalizer",
        }
    }
}

fn some_taker(r: &mut Rng) -> Taker {
    let h: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let n = r.range(1, 6);
    let limit = |r: &mut Rng| match r.below(5) {
        0 => Some(*r.pick(&[0usize, 1, 2, 1000, 100_000])),
        1 => Some(*r.pick(&[1 << 20, 1 << 30, usize::MAX])),
        _ => None,
    };
    match r.below(4) {
        0 => {
            let mut v = vec![];
            for i in 0..n {
                let mut s = Spec::plain(world::key("ed_a"));
                s.bc = r.coin();
                s.selector = format!("s{i}");
                s.bl = match limit(r) {
                    None if r.coin() => Bl::All,
                    None => Bl::No,
                    Some(n) => Bl::Exact(n as u64),
                };
                v.push(s.request());
            }
            Taker::Signer(Signer::prepare_signing(mk(&h), v).expect("valid request"))
        }
        1 => {
            let mut h = h;
            let mut entries = vec![];
            for i in 0..n {
                let mut f = ForeignSpec::plain(world::key("ed_b"));
                f.bc = r.coin();
                f.l = limit(r).map(|n| n as u64);
                f.selector = format!("s{i}");
                let s = f.sign(r, &h[h.len() - 1..], b"hi");
                h.insert(0, (s.name, s.value.into_bytes()));
                entries.push((world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record())));
            }
            let mut cfg = permissive();
            cfg.forbid_unsigned_content = r.coin();
            let (d, hf) = (Dns::new(entries), mk(&h));
            let v = world::block_on(Verifier::verify_header(&d, &hf, &cfg)).ok().flatten();
            Taker::Verifier(v.expect("there are signatures"))
        }
        2 => {
            let mut b = BodyHasherBuilder::new(r.coin());
            for _ in 0..n {
                b.register_canonicalization(limit(r), world::hash_alg(r.coin()), gen::canon_alg(r.coin()));
            }
            Taker::Hasher(b.build())
        }
        _ => Taker::Canon(BodyCanonicalizer::new(gen::canon_alg(r.coin()))),
    }
}

fn c24_stream(c: &mut Case<'_>) -> R {
    // Things set up once per thread are no leak.
    for _ in 0..2 {
        let mut warm = Signer::prepare_signing(mk(&[("From".into(), b" a".to_vec())]), [Spec::plain(world::key("ed_a")).request()]).expect("valid request");
        let _ = warm.process_body_chunk(b"a");
        drop(world::block_on(warm.sign()));
    }
    let mut t = some_taker(&mut c.rng);
    let r = &mut c.rng;
    let mut s = Stream::new(r);
    let total: usize = if c.thorough { *r.pick(&[8 << 20, 64 << 20, 200 << 20]) } else { *r.pick(&[4 << 20, 8 << 20]) };
    // chunks of one size, of random sizes, or of every size up to the largest
    let mode = r.below(6);
    let max = if mode == 0 { *r.pick(&[4000, 6000]) } else { *r.pick(&[1, 7, 100, 1000, 4096, 8192]) };
    let total = if mode == 0 { total.max(max * max / 2) } else if max < 100 { total / 16 } else { total };
    let mut size = 0;
    let mut buf = Vec::with_capacity(max + 10);
    let live0 = alloc::live();
    // What it may retain: nothing that depends on the amount processed.
    let allowed = 32_768 + 6 * max as isize;
    let (mut fed, mut worst, mut done) = (0, 0, false);
    while fed < total {
        size = size % max + 1;
        let n = match mode {
            0 => size,
            1..=2 => max,
            _ => 1 + r.below(max),
        };
        s.next(n, &mut buf);
        if t.feed(&buf) == BodyHasherStance::Done {
            done = true;
        }
        fed += n;
        let grown = alloc::live() - live0;
        worst = worst.max(grown);
        if grown > allowed {
            return fail(
                format!("memory retained by {}", t.name()),
                format!("{grown} bytes retained after {fed} bytes in chunks of {max}, body kind {} {}", s.kind, show(&s.period[..s.period.len().min(60)])),
            );
        }
    }
    let own = alloc::live();
    c.ev_n("megabytes streamed", (fed >> 20) as u64);
    c.ev(t.name());
    if done {
        c.ev("fed on after done");
    }
    c.nontrivial(format!("{} {} {max} {mode} {fed} {}", t.name(), s.kind, c.index).as_bytes());
    let n = t.name();
    c.sample(|| format!("{n}: {fed} bytes of kind {} in chunks of {max}, at most {worst} bytes retained", s.kind));
    let before = alloc::live();
    let own = before - own; // kept by the harness, for its records
    match t {
        Taker::Signer(s) => drop(world::block_on(s.sign())),
        Taker::Verifier(v) => drop(v.finish()),
        Taker::Hasher(v) => drop(v.finish()),
        Taker::Canon(v) => drop(v.finish()),
    }
    let kept = alloc::live() - live0 - own;
    ensure!(kept <= 4096, format!("memory not released by {n}"), "{kept} bytes kept after the end ({before} before)");
    Ok(())
}

/// A session cut off anywhere leaves nothing behind.
fn c24_release(c: &mut Case<'_>) -> R {
    fn session(seed: u64, stage: usize) -> (u64, &'static str) {
        let mut r = Rng::new(seed);
        let mut t = some_taker(&mut r);
        let n = t.name();
        if stage == 0 {
            return (0, n);
        }
        let b = gen::body(&mut r, 2000);
        let mut fed = 0;
        for x in gen::chunks(&mut r, &b) {
            let _ = t.feed(x);
            fed += x.len();
            if stage == 1 && r.one_in(4) {
                return (fed as u64, n);
            }
        }
        if stage > 1 {
            match t {
                Taker::Signer(s) if stage == 2 => drop(s.sign()),
                Taker::Signer(s) => drop(world::block_on(s.sign())),
                Taker::Verifier(v) => drop(v.finish()),
                Taker::Hasher(v) => drop(v.finish()),
                Taker::Canon(v) => drop(v.finish()),
            }
        }
        (fed as u64, n)
    }
    let stage = c.rng.below(4);
    let seed = c.rng.u64();
    // Things set up once per thread are no leak.
    session(seed, stage);
    let a = alloc::live();
    let (fed, n) = session(seed, stage);
    let b = alloc::live();
    session(seed, stage);
    let d = alloc::live();
    ensure!(
        b <= a || d <= b,
        format!("memory not released by {n}"),
        "{} and {} bytes left behind by {n} dropped at stage {stage} after {fed} bytes", b - a, d - b
    );
    c.ev(&format!("{n} dropped at stage {stage}"));
    c.nontrivial(format!("{seed} {stage}").as_bytes());
    c.sample(|| format!("{n} dropped at stage {stage} after {fed} bytes"));
    Ok(())
}

// ---------------------------------------------------------------- C26

pub fn c26() -> Vec<Workload> {
    vec![
        wl("rsa", 6_000, 200_000, c26_rsa),
        wl("rsa-forgeries", 6_000, 200_000, c26_forge),
        wl("ed25519", 500, 15_000, c26_ed),
        wl("public-keys", 20_000, 800_000, c26_public),
        wl("private-keys", 3_000, 80_000, c26_private),
    ]
}

fn rsa_key(r: &mut Rng, max: usize) -> &'static TestKey {
    loop {
        let k = any_key(r, max);
        if !k.ed {
            return k;
        }
    }
}

fn rsa_sk(k: &TestKey) -> &rsa::RsaPrivateKey {
    match &*k.signing {
        SigningKey::Rsa(k) => k,
        _ => unreachable!(),
    }
}

fn alg_name(sha1: bool) -> &'static str {
    if sha1 { "sha1" } else { "sha256" }
}

/// The verdict on a signature by either implementation is the same.
fn rsa_verdict(c: &mut Case<'_>, k: &TestKey, sha1: bool, digest: &[u8], sig: &[u8], what: &str) -> R<bool> {
    let want = digest.len() == if sha1 { 20 } else { 32 } && model::rsa_verify(&k.n, &k.e, sha1, digest, sig);
    let pk = match crypto::read_rsa_public_key(&k.public(c.rng.coin())) {
        Ok(k) => k,
        Err(e) => return fail("public key not read", format!("{}: {e}", k.name)),
    };
    let got = crypto::verify_rsa(&pk, world::hash_alg(sha1), digest, sig).is_ok();
    ensure!(
        got == want,
        format!("RSA verification: {}", if got { "accepted" } else { "rejected" }),
        "{what} {} by the library: key {} {} digest {} signature {}",
        if got { "accepted" } else { "rejected" }, k.name, alg_name(sha1), show(digest), show(sig)
    );
    c.ev(&format!("{what} {}", if got { "accepted" } else { "rejected" }));
    Ok(got)
}

fn c26_rsa(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let k = rsa_key(r, if r.clone().one_in(20) { 4096 } else { 2048 });
    let sha1 = world::SHA1 && r.coin();
    let digest = r.bytes(if sha1 { 20 } else { 32 });
    let got = crypto::sign_rsa(world::hash_alg(sha1), rsa_sk(k), &digest);
    let want = model::rsa_sign(&k.n, &k.d, sha1, &digest);
    c.nontrivial(format!("{}{sha1}{digest:?}", k.name).as_bytes());
    let sig = match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "RSA signature differs", "key {} {} digest {}: {} instead of {}", k.name, alg_name(sha1), show(&digest), show(&g), show(&w));
            ensure!(g.len() == k.signing.signature_length(), "signature length", "{} instead of {}", g.len(), k.signing.signature_length());
            c.ev(&format!("signed with {}", k.name));
            g
        }
        (Err(_), None) => {
            c.ev("key too small for the digest");
            return Ok(());
        }
        (g, w) => return fail("RSA signing", format!("{g:?} instead of {w:?} for key {}", k.name)),
    };
    c.sample(|| format!("{} {} digest {}", k.name, alg_name(sha1), show(&digest)));
    ensure!(rsa_verdict(c, k, sha1, &digest, &sig, "signature")?, "own signature rejected", "key {}", k.name);
    // changed digest
    let mut d = digest.clone();
    let i = c.rng.below(d.len());
    d[i] ^= 1 << c.rng.below(8);
    rsa_verdict(c, k, sha1, &d, &sig, "signature of another digest")?;
    let n = c.rng.below(70);
    let d = c.rng.bytes(n);
    rsa_verdict(c, k, sha1, &d, &sig, "digest of any length")?;
    // changed signature
    let mut s = sig.clone();
    let i = c.rng.below(s.len());
    s[i] ^= 1 << c.rng.below(8);
    rsa_verdict(c, k, sha1, &digest, &s, "changed signature")?;
    let mut s = sig.clone();
    match c.rng.below(6) {
        0 => s.insert(0, 0),
        1 => s.push(0),
        2 => {
            s.pop();
        }
        3 => {
            s.remove(0);
        }
        4 => {
            // the same number modulo n
            let v = (BigUint::from_bytes_be(&sig) + &k.n).to_bytes_be();
            s = v;
        }
        _ => s.clear(),
    }
    rsa_verdict(c, k, sha1, &digest, &s, "signature of another length or number")?;
    // another key of the same size, another algorithm
    let o = rsa_key(&mut c.rng, 2048);
    if o.name != k.name {
        rsa_verdict(c, o, sha1, &digest, &sig, "signature with another key")?;
    }
    if world::SHA1 {
        rsa_verdict(c, k, !sha1, &digest, &sig, "signature with another hash algorithm")?;
        let d = model::hash(!sha1, b"x");
        rsa_verdict(c, k, !sha1, &d, &sig, "signature with another hash algorithm")?;
    }
    Ok(())
}

/// Signatures whose encoded message is not quite the one prescribed.
fn c26_forge(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let k = rsa_key(r, 1100);
    let sha1 = world::SHA1 && r.coin();
    let digest = r.bytes(if sha1 { 20 } else { 32 });
    let len = (k.n.bits() + 7) / 8;
    let Some(mut em) = model::emsa(sha1, &digest, len) else { return Ok(()) };
    let sep = em[2..].iter().position(|b| *b != 0xff).unwrap() + 2;
    let t = em[sep + 1..].to_vec();
    let what = match r.below(12) {
        0 => {
            let i = r.below(em.len());
            em[i] ^= 1 << r.below(8);
            "bit of the encoded message"
        }
        1 => {
            em[1] = *r.pick(&[0, 2, 3]);
            "block type"
        }
        2 => {
            let i = r.range(2, sep - 1);
            em[i] = *r.pick(&[0xfe, 0x7f, 1]);
            "padding octet"
        }
        3 => {
            // shorter padding, garbage behind the digest
            let cut = r.range(1, sep - 2);
            em = [&[0u8, 1][..], &vec![0xff; sep - 2 - cut], &[0], &t, &r.bytes(cut)].concat();
            "garbage behind the digest"
        }
        4 => {
            // garbage within the padding
            let cut = r.range(1, sep - 2);
            em = [&[0u8, 1][..], &vec![0xff; sep - 2 - cut], &[0], &r.bytes(cut), &t].concat();
            "garbage before the digest"
        }
        5 => {
            // no parameters in the algorithm identifier
            let mut u = t.clone();
            let p = u.windows(2).position(|w| w == [5, 0]).unwrap();
            u.drain(p..p + 2);
            u[1] -= 2;
            u[3] -= 2;
            em = [&[0u8, 1][..], &vec![0xff; len - 3 - u.len()], &[0], &u].concat();
            "algorithm without parameters"
        }
        6 => {
            em = [&[0u8, 1][..], &vec![0xff; len.saturating_sub(3 + digest.len())], &[0], &digest].concat();
            "bare digest"
        }
        7 => {
            // the digest info of the other hash algorithm
            let other = model::emsa(!sha1, &model::hash(!sha1, b"a"), len);
            if let Some(o) = other {
                em = o;
            }
            "other digest info"
        }
        8 => {
            em[sep] = 1;
            "separator"
        }
        9 => {
            em = vec![0; len];
            "zeros"
        }
        10 => {
            let i = r.range(sep + 1, em.len() - 1);
            em[i] = em[i].wrapping_add(1);
            "digest info"
        }
        _ => "nothing",
    };
    let m = BigUint::from_bytes_be(&em);
    if em.len() != len || m >= k.n {
        return Ok(());
    }
    let v = m.modpow(&k.d, &k.n).to_bytes_be();
    let mut sig = vec![0; len - v.len()];
    sig.extend(v);
    c.nontrivial(&sig);
    c.sample(|| format!("{} with changed {what}", k.name));
    let ok = rsa_verdict(c, k, sha1, &digest, &sig, what)?;
    ensure!(ok == (what == "nothing") || model::emsa(sha1, &digest, len) == Some(em), "forgery accepted", "{what}");
    Ok(())
}

fn seed_of(k: &TestKey) -> [u8; 32] {
    match &*k.signing {
        SigningKey::Ed25519(k) => k.to_bytes(),
        _ => unreachable!(),
    }
}

fn c26_ed(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let (sk, seed) = if r.coin() {
        let k = world::key(r.pick(&["ed_a", "ed_b", "ed_c", "ed_d"]));
        let SigningKey::Ed25519(s) = &*k.signing else { unreachable!() };
        (s.clone(), seed_of(k))
    } else {
        let mut seed = [0; 32];
        seed.copy_from_slice(&r.bytes(32));
        (ed25519_dalek::SigningKey::from_bytes(&seed), seed)
    };
    let n = *r.pick(&[32, 32, 20, 0, 64]);
    let digest = r.bytes(n);
    let pk = ed::public(&seed);
    let sig = crypto::sign_ed25519(&sk, &digest);
    let want = ed::sign(&seed, &digest);
    ensure!(sig == want, "Ed25519 signature differs", "seed {} digest {}: {} instead of {}", show(&seed), show(&digest), show(&sig), show(&want));
    c.ev("signed");
    c.nontrivial(&sig);
    c.sample(|| format!("digest {}", show(&digest)));
    let r = &mut c.rng;
    let data = if r.coin() { pk.clone() } else { model::spki_ed25519(&pk) };
    let key = match crypto::read_ed25519_verifying_key(&data) {
        Ok(k) => k,
        Err(e) => return fail("public key not read", e.to_string()),
    };
    ensure!(key.as_bytes()[..] == pk[..], "other public key read", "{key:?}");
    ensure!(crypto::verify_ed25519(&key, &digest, &sig).is_ok(), "own signature rejected", "{}", show(&sig));
    let verdict = |c: &mut Case<'_>, pk: &[u8], d: &[u8], s: &[u8], what: &str| -> R {
        let Ok(k) = crypto::read_ed25519_verifying_key(pk) else {
            c.ev("changed key rejected");
            return Ok(());
        };
        let got = crypto::verify_ed25519(&k, d, s).is_ok();
        let want = ed::verify(pk, d, s);
        ensure!(got == want, format!("Ed25519 verification: {}", if got { "accepted" } else { "rejected" }), "{what}: key {} digest {} signature {}", show(pk), show(d), show(s));
        c.ev(&format!("{what} {}", if got { "accepted" } else { "rejected" }));
        Ok(())
    };
    let mut d = digest.clone();
    if !d.is_empty() {
        let i = c.rng.below(d.len());
        d[i] ^= 1 << c.rng.below(8);
        verdict(c, &pk, &d, &sig, "other digest")?;
    }
    let mut s = sig.clone();
    let what = match c.rng.below(6) {
        0 | 1 => {
            let i = c.rng.below(s.len());
            s[i] ^= 1 << c.rng.below(8);
            "changed signature"
        }
        2 => {
            // the same scalar, not reduced
            let v = BigUint::from_bytes_le(&sig[32..]) + ed::order();
            let mut b = v.to_bytes_le();
            b.resize(32, 0);
            s = [&sig[..32], &b].concat();
            "scalar not reduced"
        }
        3 => {
            s.push(0);
            "longer signature"
        }
        4 => {
            s.pop();
            "shorter signature"
        }
        _ => {
            s.rotate_left(32);
            "halves exchanged"
        }
    };
    verdict(c, &pk, &digest, &s, what)?;
    let mut p = pk.clone();
    if c.rng.coin() {
        let i = c.rng.below(32);
        p[i] ^= 1 << c.rng.below(8);
    } else {
        p = world::key(c.rng.pick(&["ed_a", "ed_b", "ed_c"])).raw.clone();
    }
    verdict(c, &p, &digest, &sig, "other key")
}

fn c26_public(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let k = any_key(r, 4096);
    let alt = r.coin();
    let good = k.public(alt);
    let kt = if k.ed { KeyType::Ed25519 } else { KeyType::Rsa };
    let read = |d: &[u8]| VerifyingKey::from_key_data(kt, d);
    match read(&good) {
        Ok(VerifyingKey::Rsa(p)) => {
            use rsa::traits::PublicKeyParts;
            ensure!(p.n() == &k.n && p.e() == &k.e, "other RSA key read", "{}", k.name);
            let size = VerifyingKey::Rsa(p.clone()).key_size();
            ensure!(size == Some(k.bits), "key size", "{size:?} instead of {} for {}", k.bits, k.name);
            let small = VerifyingKey::Rsa(p).validate_min_key_size().is_err();
            let min = if world::SHA1 { 512 } else { 1024 };
            ensure!(small == (k.bits < min), "minimum key size", "{}: too small {small}", k.name);
        }
        Ok(VerifyingKey::Ed25519(p)) => {
            ensure!(p.as_bytes()[..] == k.raw[..], "other Ed25519 key read", "{}", k.name);
            let v = VerifyingKey::Ed25519(p);
            ensure!(v.key_size().is_none() && v.validate_min_key_size().is_ok(), "size of Ed25519 key", "{:?}", v.key_size());
        }
        Err(e) => return fail("public key not read", format!("{} (alternative encoding {alt}): {e}", k.name)),
    }
    c.ev(&format!("read {}", k.name));
    let r = &mut c.rng;
    // other and damaged key data
    let mut d = good.clone();
    let what = match r.below(8) {
        0 => {
            let n = r.below(d.len());
            d.truncate(n);
            "truncated"
        }
        1 => {
            let n = 1 + r.below(3);
            d.extend(r.bytes(n));
            "extended"
        }
        2 => {
            d.extend(good.clone());
            "doubled"
        }
        3 => {
            d.insert(0, *r.pick(&[0, 0x30]));
            "prefixed"
        }
        4 => {
            let i = r.below(d.len().min(if k.ed { 200 } else { 34 }));
            d[i] ^= 1 << r.below(8);
            "changed at the front"
        }
        5 => {
            let i = r.below(d.len());
            d[i] ^= 1 << r.below(8);
            "changed"
        }
        6 => {
            let o = if k.ed { rsa_key(r, 2048) } else { world::key("ed_a") };
            d = o.public(r.coin());
            "key of another type"
        }
        _ => {
            let n = gen::size(r, 400);
            d = r.bytes(n);
            "random"
        }
    };
    // Whatever is accepted must be the encoding of the key that results.
    match read(&d) {
        Ok(VerifyingKey::Rsa(p)) => {
            use rsa::traits::PublicKeyParts;
            let is = d == model::spki_rsa(p.n(), p.e()) || d == model::pkcs1_public(p.n(), p.e());
            ensure!(is, "damaged key data accepted", "{what} {}: {}", k.name, show(&d));
            c.ev("another key read");
        }
        Ok(VerifyingKey::Ed25519(p)) => {
            let is = d[..] == p.as_bytes()[..] || d == model::spki_ed25519(p.as_bytes());
            ensure!(is, "damaged key data accepted", "{what} {}: {}", k.name, show(&d));
            c.ev("another key read");
        }
        Err(_) => {
            // A point on the curve must be readable.
            if k.ed && d.len() == 32 {
                ensure!(ed::decode(&d).is_none(), "valid key data rejected", "{}", show(&d));
            }
            c.ev(&format!("{what} rejected"));
        }
    }
    c.nontrivial(&d);
    c.sample(|| format!("{} {what}: {}", k.name, show(&d)));
    Ok(())
}

fn c26_private(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let k = any_key(r, 2048);
    // line ends are no matter
    let pem = match r.below(3) {
        0 => k.pem.to_string(),
        1 => k.pem.replace('\n', "\r\n"),
        _ => k.pem.trim_end().to_string(),
    };
    match SigningKey::from_pkcs8_pem(&pem) {
        Ok(s) => {
            let same = match (&s, &*k.signing) {
                (SigningKey::Rsa(a), SigningKey::Rsa(b)) => a == b,
                (SigningKey::Ed25519(a), SigningKey::Ed25519(b)) => a.to_bytes() == b.to_bytes(),
                _ => false,
            };
            ensure!(same, "other private key read", "{}", k.name);
            ensure!((s.key_type() == KeyType::Ed25519) == k.ed, "key type", "{}", k.name);
            let n = if k.ed { 64 } else { (k.bits + 7) / 8 };
            ensure!(s.signature_length() == n, "signature length", "{} for {}", s.signature_length(), k.name);
            c.ev(&format!("read {}", k.name));
        }
        Err(e) => return fail("private key not read", format!("{}: {e:?} from {pem:?}", k.name)),
    }
    let r = &mut c.rng;
    // what is no private key at all
    let spki = model::spki_ed25519(&k.raw);
    let pub_pem = Document::try_from(spki).unwrap().to_pem("PUBLIC KEY", LineEnding::LF).unwrap();
    let cut = r.below(k.pem.len() - 30);
    let (text, want): (String, &[DecodeSigningKeyError]) = match r.below(7) {
        0 => (world::EC_PEM.into(), &[DecodeSigningKeyError::UnsupportedKeyType]),
        1 => (pub_pem, &[DecodeSigningKeyError::NotAPrivateKeyInfoDocument]),
        2 => (k.pem.replace("PRIVATE KEY", "RSA PRIVATE KEY"), &[DecodeSigningKeyError::NotAPrivateKeyInfoDocument, DecodeSigningKeyError::InvalidPemDocument]),
        3 => (hostile(r), &[DecodeSigningKeyError::InvalidPemDocument]),
        4 => (k.pem[..cut].into(), &[DecodeSigningKeyError::InvalidPemDocument]),
        5 => {
            let n = 1 + r.below(200);
            let doc = Document::try_from(model::der(0x30, &r.bytes(n))).unwrap();
            (doc.to_pem("PRIVATE KEY", LineEnding::LF).unwrap(), &[DecodeSigningKeyError::InvalidKeyData, DecodeSigningKeyError::UnsupportedKeyType])
        }
        _ => (k.pem.replacen("-----BEGIN", "----BEGIN", 1), &[DecodeSigningKeyError::InvalidPemDocument]),
    };
    match SigningKey::from_pkcs8_pem(&text) {
        Ok(k) => return fail("no private key, but accepted", format!("{k:?} from {}", show(text.as_bytes()))),
        Err(e) => {
            ensure!(want.contains(&e), "error of reading", "{e:?} instead of {want:?} for {}", show(text.as_bytes()));
            c.ev(&format!("rejected {e:?}"));
        }
    }
    // a fresh Ed25519 key from an independent encoder
    let mut seed = [0; 32];
    seed.copy_from_slice(&c.rng.bytes(32));
    let e = ed25519_dalek::SigningKey::from_bytes(&seed);
    let pem = e.to_pkcs8_pem(LineEnding::LF).unwrap();
    match SigningKey::from_pkcs8_pem(&pem) {
        Ok(SigningKey::Ed25519(s)) => ensure!(s.to_bytes() == seed, "other private key read", "{}", show(&seed)),
        o => return fail("private key not read", format!("{o:?} from {}", pem.as_str())),
    }
    ensure!(ed25519_dalek::SigningKey::from_pkcs8_pem(&pem).is_ok(), "harness", "bad key made");
    c.nontrivial(text.as_bytes());
    c.sample(|| show(text.as_bytes()));
    Ok(())
}

// ---------------------------------------------------------------- C27

pub fn c27() -> Vec<Workload> {
    vec![
        wl("interleaved", 1_500, 40_000, c27_interleaved),
        wl("history", 60, 1_500, c27_history),
        super::wl_fixed("long", 1, c27_long),
        #[cfg(feature = "send")]
        wl("threads", 40, 1_500, c27_threads),
        #[cfg(feature = "send")]
        wl("moving", 150, 5_000, c27_moving),
    ]
}

/// Sessions may move between threads, and shared things be shared.
#[cfg(feature = "send")]
#[allow(dead_code)]
fn must_be_send() {
    fn send<T: Send>() {}
    fn sync<T: Sync>() {}
    fn future_send<T: Send>(_: &T) {}
    send::<Signer<Arc<SigningKey>>>();
    send::<Signer<SigningKey>>();
    send::<Verifier>();
    send::<VerificationResult>();
    send::<message_hash::BodyHasher>();
    send::<BodyCanonicalizer>();
    sync::<SigningKey>();
    send::<SigningKey>();
    sync::<HeaderFields>();
    send::<HeaderFields>();
    sync::<Config>();
    sync::<VerificationResult>();
    sync::<DkimSignature>();
    sync::<DkimKeyRecord>();
    let (d, h, c) = (Dns::new([]), mk(&[("From".into(), vec![])]), Config::default());
    future_send(&Verifier::verify_header(&d, &h, &c));
    let s = Signer::prepare_signing(h, [Spec::plain(world::key("ed_a")).request()]).unwrap();
    future_send(&s.sign());
}

/// What sessions share.
struct Common {
    head: Vec<Hdr>,
    all: Vec<Hdr>,
    recs: HashMap<String, Entry>,
    headers: HeaderFields,
    signed: HeaderFields,
    config: Config,
    dns: Dns,
    specs: Vec<Spec>,
    body: Vec<u8>,
}

impl Common {
    fn new(head: Vec<Hdr>, all: Vec<Hdr>, recs: HashMap<String, Entry>, config: Config, specs: Vec<Spec>, body: Vec<u8>) -> Self {
        Self { headers: mk(&head), signed: mk(&all), dns: dns(&recs), head, all, recs, config, specs, body }
    }
}

enum Session {
    Signer(Signer<Arc<SigningKey>>),
    Verifier(Option<Verifier>),
}

#[derive(Clone)]
struct Job {
    verify: bool,
    common: usize,
    which: Vec<usize>,
    chunks: Vec<Vec<u8>>,
}

type Report = String;

fn report_sign(v: Vec<Result<viadkim::signer::SigningOutput, viadkim::signer::SigningError>>) -> Report {
    format!("{v:?}")
}

fn common(r: &mut Rng) -> Common {
    let h = gen::headers(r, 6);
    let body = gen::body(r, 400);
    let n = r.range(1, 4);
    let mut specs = gen::specs(r, n, &h, canon_len(&body));
    for s in &mut specs {
        // the clock is not shared
        if matches!(s.ts, Ts::Now) || (s.ts == Ts::None && s.valid.is_some()) {
            s.ts = Ts::Exact(1_700_000_000);
        }
        if s.key.bits > 1100 {
            s.key = world::key("rsa1024");
        }
    }
    let mut recs = records(r, &specs, 0);
    let mut names: Vec<String> = recs.keys().cloned().collect();
    names.sort();
    for n in names {
        recs.get_mut(&n).unwrap().yields = r.below(5);
    }
    let outs = sign_all(&h, &specs, &[&body], false).unwrap_or_default();
    let outs: Vec<_> = outs.iter().flatten().collect();
    let mut signed = stack(&outs, &h);
    // some signature that fails
    let mut f = ForeignSpec::plain(world::key("ed_d"));
    f.bad_bh = r.coin();
    f.selector = "other".into();
    if r.one_in(3) {
        f.l = Some(r.below(20) as u64);
    }
    let s = f.sign(r, &h, &body);
    signed.insert(0, (s.name, s.value.into_bytes()));
    recs.insert(world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record()));
    let config = Config {
        fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000)),
        min_key_bits: if r.coin() { 1024 } else { 2048 },
        forbid_unsigned_content: r.one_in(3),
        ..Config::default()
    };
    Common::new(h, signed, recs, config, specs, body)
}

/// Changes one alphanumeric character to another.
fn nudge(r: &mut Rng, b: &mut [u8]) {
    let places: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_alphanumeric()).collect();
    if places.is_empty() {
        return;
    }
    let i = match r.below(3) {
        0 => places[places.len() - 1],
        1 => places[places.len() / 2],
        _ => *r.pick(&places),
    };
    b[i] = if b[i] == b'q' { b'r' } else { b'q' };
}

/// Nearly the same as something else, often of the very same length.
fn nearly(r: &mut Rng, o: &Common) -> Common {
    let (mut head, mut all, mut recs, mut config, mut specs, mut body) =
        (o.head.clone(), o.all.clone(), o.recs.clone(), o.config.clone(), o.specs.clone(), o.body.clone());
    match r.below(8) {
        0 | 1 => {
            let mut names: Vec<String> = recs.keys().cloned().collect();
            names.sort();
            let n = r.pick(&names).clone();
            if let Answer::Txt(t) = &mut recs.get_mut(&n).unwrap().answer {
                for x in t.iter_mut().flatten() {
                    nudge(r, x);
                }
            }
        }
        2 => {
            let i = r.below(all.len());
            nudge(r, &mut all[i].1);
        }
        3 => {
            let i = r.below(head.len());
            nudge(r, &mut head[i].1);
        }
        4 => nudge(r, &mut body),
        5 => {
            match r.below(6) {
                0 => config.forbid_unsigned_content ^= true,
                1 => config.min_key_bits = *r.pick(&[0, 1024, 2048]),
                2 => config.allow_expired ^= true,
                3 => config.allow_timestamp_in_future ^= true,
                4 => config.max_signatures = r.below(4),
                _ => config.fixed_system_time = Some(SystemTime::UNIX_EPOCH + Duration::from_secs(*r.pick(&[0, 1_699_000_000, 1_701_000_000, 4_000_000_000]))),
            };
        }
        _ => {
            let i = r.below(specs.len());
            let s = &mut specs[i];
            match r.below(7) {
                0 => s.hc ^= true,
                1 => s.bc ^= true,
                2 => s.copy ^= true,
                3 => s.ts = Ts::Exact(1_700_000_001),
                4 => {
                    let mut b = s.selector.clone().into_bytes();
                    nudge(r, &mut b);
                    if let Ok(t) = String::from_utf8(b) {
                        if model::valid_name(&t, true) {
                            s.selector = t;
                        }
                    }
                }
                5 => s.bl = if s.bl == Bl::No { Bl::All } else { Bl::No },
                _ if s.key.ed => s.key = world::key(if s.key.name == "ed_a" { "ed_b" } else { "ed_a" }),
                _ => s.ts = Ts::Exact(1_600_000_000),
            }
        }
    }
    Common::new(head, all, recs, config, specs, body)
}

/// Several things to share, some nearly the same.
fn family(r: &mut Rng) -> Vec<Common> {
    let mut v = vec![common(r)];
    for _ in 0..r.below(6) {
        let o = r.below(v.len());
        v.push(if r.one_in(5) { common(r) } else { nearly(r, &v[o]) });
    }
    v
}

fn job(r: &mut Rng, f: &[Common]) -> Job {
    let common = r.below(f.len());
    let c = &f[common];
    let mut b = c.body.clone();
    if r.one_in(3) {
        b = gen::body(r, 200);
    }
    let chunks = gen::chunks(r, &b).into_iter().take(60).map(|c| c.to_vec()).collect();
    let n = r.range(1, c.specs.len());
    let which = (0..n).map(|_| r.below(c.specs.len())).collect();
    Job { verify: r.coin(), common, which, chunks }
}

async fn open(j: &Job, f: &[Common]) -> Result<Session, String> {
    let c = &f[j.common];
    Ok(if j.verify {
        Session::Verifier(Verifier::verify_header(&c.dns, &c.signed, &c.config).await)
    } else {
        let q: Vec<_> = j.which.iter().map(|i| c.specs[*i].request()).collect();
        Session::Signer(Signer::prepare_signing(c.headers.clone(), q).map_err(|e| format!("{e:?}"))?)
    })
}

fn step(s: &mut Session, b: &[u8]) -> BodyHasherStance {
    match s {
        Session::Signer(s) => s.process_body_chunk(b),
        Session::Verifier(Some(v)) => v.process_body_chunk(b),
        Session::Verifier(None) => BodyHasherStance::Done,
    }
}

async fn close(s: Session) -> Report {
    match s {
        Session::Signer(s) => report_sign(s.sign().await),
        Session::Verifier(v) => format!("{:?}", v.map(|v| v.finish())),
    }
}

fn alone(j: &Job, f: &[Common]) -> Report {
    let r = world::block_on(async {
        match open(j, f).await {
            Ok(mut s) => {
                for x in &j.chunks {
                    let _ = step(&mut s, x);
                }
                close(s).await
            }
            Err(e) => e,
        }
    });
    r.unwrap_or_else(|_| panic!("LIBRARY-STUCK: session never completed"))
}

/// Things to share and sessions, made from a number.
fn plan(seed: u64, max: usize) -> (Vec<Common>, Vec<Job>) {
    let mut r = Rng::new(seed);
    let f = family(&mut r);
    let n = r.range(2, max);
    let jobs = (0..n).map(|_| job(&mut r, &f)).collect();
    (f, jobs)
}

/// One session of a plan, for a process that has done nothing else.
pub fn fresh_main(args: &[String]) {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let (f, jobs) = plan(n(0), n(1) as usize);
    println!("{}", alone(&jobs[n(2) as usize], &f));
}

/// The report of a session in a process of its own.
fn fresh(seed: u64, max: usize, k: usize) -> R<Report> {
    let exe = std::env::current_exe().map_err(|e| crate::case::Fail { key: "harness".into(), msg: e.to_string() })?;
    let out = std::process::Command::new(exe)
        .args(["fresh", "C27", &seed.to_string(), &max.to_string(), &k.to_string()])
        .output();
    match out {
        Ok(o) if o.status.success() => Ok(String::from_utf8_lossy(&o.stdout).trim_end().to_string()),
        Ok(o) => fail("harness", format!("process: {:?} {}", o.status, String::from_utf8_lossy(&o.stderr))),
        Err(e) => fail("harness", format!("process: {e}")),
    }
}

/// One session after the other, compared with those in a process of their own.
fn c27_history(c: &mut Case<'_>) -> R {
    let (seed, max) = (c.rng.u64(), 30);
    let (f, jobs) = plan(seed, max);
    let got: Vec<Report> = jobs.iter().map(|j| alone(j, &f)).collect();
    let mut again: Vec<usize> = (0..jobs.len()).collect();
    c.rng.shuffle(&mut again);
    for &k in &again {
        let r = alone(&jobs[k], &f);
        if r != got[k] {
            return differs(&jobs[k], k, &r, &got[k]);
        }
        c.ev("sessions repeated in another order");
    }
    for &k in again.iter().take(3) {
        let want = fresh(seed, max, k)?;
        if got[k].trim_end() != want {
            return differs(&jobs[k], k, &got[k], &want);
        }
        c.ev("sessions compared with a fresh process");
    }
    c.nontrivial(format!("{got:?}").as_bytes());
    c.sample(|| format!("{} sessions of {} messages", jobs.len(), f.len()));
    Ok(())
}

/// Sessions held open while tens of thousands of others come and go.
fn c27_long(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let head: Vec<Hdr> = vec![("From".into(), b" a".to_vec())];
    let body = b"one\r\ntwo\r\n".to_vec();
    let mut f = vec![];
    for k in 0..4 {
        let mut s = Spec::plain(world::key(if k % 2 == 0 { "ed_a" } else { "ed_b" }));
        s.ts = Ts::Exact(1_700_000_000);
        s.bl = if k < 2 { Bl::Exact(5) } else { Bl::No };
        s.bc = k % 2 == 0;
        let recs = records(r, std::slice::from_ref(&s), 0);
        let outs = sign_all(&head, std::slice::from_ref(&s), &[&body], false).unwrap_or_default();
        let all = stack(&outs.iter().flatten().collect::<Vec<_>>(), &head);
        let config = Config { fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000)), ..Config::default() };
        for forbid in [false, true] {
            let config = Config { forbid_unsigned_content: forbid, ..config.clone() };
            f.push(Common::new(head.clone(), all.clone(), recs.clone(), config, vec![s.clone()], body.clone()));
        }
    }
    let jobs: Vec<Job> = (0..2 * f.len())
        .map(|i| Job { verify: i % 2 == 0, common: i / 2, which: vec![0], chunks: vec![body[..6].to_vec(), body[6..].to_vec()] })
        .collect();
    let want: Vec<Report> = jobs.iter().map(|j| alone(j, &f)).collect();
    let begin = |j: &Job| -> R<Session> {
        match world::block_on(open(j, &f)) {
            Ok(Ok(mut s)) => {
                let _ = step(&mut s, &j.chunks[0]);
                Ok(s)
            }
            _ => fail("not opened", "session not opened"),
        }
    };
    let mut held: Vec<(usize, u64, Session)> = vec![];
    for (k, j) in jobs.iter().enumerate() {
        // until 256, 512 and 65536 sessions have passed
        for n in [100, 256, 512, 66_000] {
            held.push((k, n, begin(j)?));
        }
    }
    for n in 0..=66_000u64 {
        let mut i = 0;
        while i < held.len() {
            if held[i].1 > n {
                i += 1;
                continue;
            }
            let (k, _, mut s) = held.swap_remove(i);
            let _ = step(&mut s, &jobs[k].chunks[1]);
            match world::block_on(close(s)) {
                Ok(g) if g == want[k] => c.ev("session held open"),
                Ok(g) => return differs(&jobs[k], k, &g, &want[k]),
                Err(_) => return fail("never completed", "session never completed"),
            }
        }
        let k = c.rng.below(jobs.len());
        let g = alone(&jobs[k], &f);
        if g != want[k] {
            return differs(&jobs[k], k, &g, &want[k]);
        }
        c.ev("sessions in between");
    }
    c.nontrivial(b"long");
    Ok(())
}

fn differs(j: &Job, k: usize, got: &str, want: &str) -> R {
    fail(
        format!("{} influenced by other sessions", if j.verify { "verification" } else { "signing" }),
        format!("session {k} gives {got}\n  but alone {want}\n  requests {:?} chunks {:?}", j.which, j.chunks.iter().map(|c| c.len()).collect::<Vec<_>>()),
    )
}

/// Many sessions on one thread, step by step in random order.
fn c27_interleaved(c: &mut Case<'_>) -> R {
    let co = family(&mut c.rng);
    // At times a crowd.
    let n = if c.rng.one_in(40) { gen::many(&mut c.rng, 700) } else { c.rng.range(2, 8) };
    let jobs: Vec<Job> = (0..n).map(|_| job(&mut c.rng, &co)).collect();
    let want: Vec<Report> = jobs.iter().map(|j| alone(j, &co)).collect();
    let mut sessions: Vec<Option<Session>> = vec![];
    let mut reports: Vec<Option<Report>> = vec![None; jobs.len()];
    // Open all at once: their futures run interleaved in one task.
    let opened = world::block_on(async {
        let mut fs: Vec<_> = jobs.iter().map(|j| Some(Box::pin(open(j, &co)))).collect();
        let mut out: Vec<Option<Result<Session, String>>> = (0..fs.len()).map(|_| None).collect();
        std::future::poll_fn(|cx| {
            let mut pending = false;
            for (i, f) in fs.iter_mut().enumerate() {
                if let Some(g) = f {
                    match g.as_mut().poll(cx) {
                        std::task::Poll::Ready(v) => {
                            out[i] = Some(v);
                            *f = None;
                        }
                        std::task::Poll::Pending => pending = true,
                    }
                }
            }
            if pending { std::task::Poll::Pending } else { std::task::Poll::Ready(()) }
        })
        .await;
        out
    });
    let Ok(opened) = opened else { return fail("never completed", "sessions never opened") };
    for (i, o) in opened.into_iter().enumerate() {
        match o.unwrap() {
            Ok(s) => sessions.push(Some(s)),
            Err(e) => {
                reports[i] = Some(e);
                sessions.push(None);
            }
        }
    }
    let mut pos = vec![0; jobs.len()];
    let mut order = vec![];
    loop {
        let left: Vec<usize> = (0..jobs.len()).filter(|i| sessions[*i].is_some()).collect();
        if left.is_empty() {
            break;
        }
        let i = *c.rng.pick(&left);
        order.push(i as u8);
        if pos[i] < jobs[i].chunks.len() {
            let _ = step(sessions[i].as_mut().unwrap(), &jobs[i].chunks[pos[i]]);
            pos[i] += 1;
            c.ev("steps");
        } else {
            let s = sessions[i].take().unwrap();
            match world::block_on(close(s)) {
                Ok(r) => reports[i] = Some(r),
                Err(_) => return fail("never completed", "session never completed"),
            }
        }
    }
    for (k, j) in jobs.iter().enumerate() {
        let got = reports[k].as_deref().unwrap_or("nothing");
        if got != want[k] {
            return differs(j, k, got, &want[k]);
        }
        c.ev(if j.verify { "verifications compared" } else { "signings compared" });
    }
    c.nontrivial(&order);
    c.sample(|| format!("{} sessions, order {:?}", jobs.len(), &order[..order.len().min(60)]));
    Ok(())
}

#[cfg(feature = "send")]
/// Sessions on several threads at once, sharing everything that can be shared.
fn c27_threads(c: &mut Case<'_>) -> R {
    let co = Arc::new(family(&mut c.rng));
    let n = c.rng.range(2, 6);
    let jobs: Vec<Vec<Job>> = (0..n).map(|_| (0..c.rng.range(3, 10)).map(|_| job(&mut c.rng, &co)).collect()).collect();
    let want: Vec<Vec<Report>> = jobs.iter().map(|v| v.iter().map(|j| alone(j, &co)).collect()).collect();
    let barrier = Arc::new(Barrier::new(n));
    let handles: Vec<_> = jobs
        .iter()
        .map(|v| {
            let (v, co, barrier) = (v.clone(), co.clone(), barrier.clone());
            std::thread::spawn(move || {
                barrier.wait();
                v.iter().map(|j| alone(j, &co)).collect::<Vec<Report>>()
            })
        })
        .collect();
    let got: Vec<_> = handles.into_iter().map(|h| h.join()).collect();
    for (t, g) in got.into_iter().enumerate() {
        let Ok(g) = g else { return fail("panic in a thread", "a session panicked when run along with others") };
        for (k, r) in g.iter().enumerate() {
            if r != &want[t][k] {
                return differs(&jobs[t][k], k, r, &want[t][k]);
            }
            c.ev("sessions compared");
        }
    }
    c.ev(&format!("{n} threads"));
    c.nontrivial(format!("{want:?}").as_bytes());
    c.sample(|| format!("{n} threads, {} sessions", jobs.iter().map(|j| j.len()).sum::<usize>()));
    Ok(())
}

#[cfg(feature = "send")]
/// Sessions that are handed from thread to thread after every step.
fn c27_moving(c: &mut Case<'_>) -> R {
    let co = Arc::new(family(&mut c.rng));
    let jobs: Vec<Job> = (0..c.rng.range(1, 5)).map(|_| job(&mut c.rng, &co)).collect();
    let want: Vec<Report> = jobs.iter().map(|j| alone(j, &co)).collect();
    let n = 3;
    let jobs = Arc::new(jobs);
    type Msg = (usize, usize, Session);
    let (done_tx, done_rx) = mpsc::channel::<(usize, Report)>();
    let mut txs = vec![];
    let mut rxs = vec![];
    for _ in 0..n {
        let (tx, rx) = mpsc::channel::<Option<Msg>>();
        txs.push(tx);
        rxs.push(rx);
    }
    let mut handles = vec![];
    for (t, rx) in rxs.into_iter().enumerate() {
        let (txs, done, jobs) = (txs.clone(), done_tx.clone(), jobs.clone());
        handles.push(std::thread::spawn(move || {
            while let Ok(Some((k, pos, mut s))) = rx.recv() {
                if pos < jobs[k].chunks.len() {
                    let _ = step(&mut s, &jobs[k].chunks[pos]);
                    let _ = txs[(t + 1 + k) % n].send(Some((k, pos + 1, s)));
                } else {
                    let r = world::block_on(close(s)).unwrap_or_else(|_| "stuck".into());
                    let _ = done.send((k, r));
                }
            }
        }));
    }
    drop(done_tx);
    let mut open_errors = vec![];
    let mut count = 0;
    for (k, j) in jobs.iter().enumerate() {
        match world::block_on(open(j, &co)) {
            Ok(Ok(s)) => {
                let _ = txs[k % n].send(Some((k, 0, s)));
                count += 1;
            }
            Ok(Err(e)) => open_errors.push((k, e)),
            Err(_) => open_errors.push((k, "stuck".into())),
        }
    }
    let mut got = open_errors;
    for _ in 0..count {
        match done_rx.recv_timeout(Duration::from_secs(100)) {
            Ok(r) => got.push(r),
            Err(_) => break,
        }
    }
    for t in &txs {
        let _ = t.send(None);
    }
    let panicked = handles.into_iter().any(|h| h.join().is_err());
    ensure!(!panicked, "panic in a thread", "a session panicked when moved between threads");
    ensure!(got.len() == jobs.len(), "harness", "sessions lost");
    for (k, r) in &got {
        if r != &want[*k] {
            return differs(&jobs[*k], *k, r, &want[*k]);
        }
        c.ev("sessions compared");
        c.ev_n("moves", jobs[*k].chunks.len() as u64);
    }
    c.nontrivial(format!("{want:?}").as_bytes());
    c.sample(|| format!("{} sessions on {n} threads", jobs.len()));
    Ok(())
}
