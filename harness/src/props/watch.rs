//! What the library prints and logs: C30, C31.

use super::*;
use crate::{
    case::{fail, show_headers, Case, R},
    ensure, trace,
    world::TestKey,
};
use num_bigint_dig::{BigUint, ModInverse};
use pkcs8::EncodePrivateKey;
use rsa::traits::{PrivateKeyParts, PublicKeyParts};
use std::{
    error::Error,
    fmt::{Debug, Display},
    sync::Arc,
};
use viadkim::{
    crypto::{self, KeyType, SigningKey, VerifyingKey},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::{BodyHasherBuilder, BodyHasherStance},
    quoted_printable,
    record::DkimKeyRecord,
    signature::{Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector, SigningAlgorithm},
    signer::{SignRequest, Signer},
    verifier::VerificationStatus,
};

// ---------------------------------------------------------------- C30

pub fn c30() -> Vec<Workload> {
    vec![
        wl("keys", 3_000, 100_000, c30_keys),
        wl("sessions", 5_000, 150_000, c30_sessions),
    ]
}

/// Pieces of text that only a secret being printed brings about. Everything is
/// searched for in text that has had its white space removed.
struct Secret {
    exact: Vec<String>,
    /// in hexadecimal, of either case
    hex: Vec<String>,
}

impl Secret {
    fn new() -> Self {
        Secret { exact: vec![], hex: vec![] }
    }

    /// A secret string of bytes, of 16 bytes or more.
    fn bytes(&mut self, b: &[u8]) {
        if b.len() < 16 {
            return;
        }
        for at in [0, b.len() / 2 - 4, b.len() - 9] {
            let part = &b[at..at + 9];
            self.hex.push(part.iter().map(|b| format!("{b:02x}")).collect());
            self.exact.push(part.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","));
            self.exact.push(part.iter().map(|b| format!("0x{b:02x}")).collect::<Vec<_>>().join(","));
        }
        // In Base64, at any alignment: what 12 whole bytes give.
        for shift in 0..3 {
            let at = b.len() / 2 - 8 + shift;
            for at in [shift, at] {
                if at + 12 <= b.len() {
                    self.exact.push(model::b64_encode(&b[at..at + 12]));
                }
            }
        }
    }

    /// A secret number.
    fn number(&mut self, n: &BigUint) {
        let b = n.to_bytes_be();
        self.bytes(&b);
        self.bytes(&n.to_bytes_le());
        let d = n.to_string();
        if d.len() > 30 {
            self.exact.push(d[..25].into());
            self.exact.push(d[d.len() - 25..].into());
        }
        for limb in b.rchunks(8) {
            if limb.len() == 8 {
                let v = u64::from_be_bytes(limb.try_into().unwrap());
                if v > 1 << 55 {
                    self.exact.push(v.to_string());
                }
            }
        }
    }

    fn rsa(k: &rsa::RsaPrivateKey) -> Self {
        let mut s = Secret::new();
        s.number(k.d());
        for p in k.primes() {
            s.number(p);
            s.number(&(k.d() % (p - BigUint::from(1u8))));
        }
        if let [p, q] = k.primes() {
            for (a, b) in [(p, q), (q, p)] {
                if let Some(i) = a.mod_inverse(b).and_then(|i| i.to_biguint()) {
                    s.number(&i);
                }
            }
        }
        // What some of the above have in common with what is public would be
        // no secret.
        let public = compact(&format!("{:?} {} {}", k.to_public_key(), k.n(), k.e()));
        s.exact.retain(|t| !public.contains(t.as_str()));
        s
    }

    fn ed(seed: &[u8], k: &ed25519_dalek::SigningKey) -> Self {
        let mut s = Secret::new();
        s.bytes(seed);
        s.bytes(k.to_scalar_bytes().as_slice());
        s.bytes(k.to_scalar().to_bytes().as_slice());
        s.bytes(&seed.iter().rev().copied().collect::<Vec<_>>());
        s
    }

    fn of(k: &SigningKey) -> Self {
        match k {
            SigningKey::Rsa(k) => Self::rsa(k),
            SigningKey::Ed25519(k) => Self::ed(k.as_bytes(), k),
        }
    }

    fn found(&self, text: &Text) -> Option<&str> {
        let e = self.exact.iter().find(|s| text.exact.iter().any(|t| t.contains(s.as_str())));
        e.or_else(|| self.hex.iter().find(|s| text.hex.iter().any(|t| t.contains(s.as_str())))).map(|s| s.as_str())
    }

    fn search(&self, what: &str, text: &str) -> R {
        self.search_in(what, &Text::of(text))
    }

    fn search_in(&self, what: &str, text: &Text) -> R {
        match self.found(text) {
            None => Ok(()),
            Some(s) => fail(format!("private key in {what}"), format!("{what} contains {s}, which is of the private key:\n  {}", short(&text.exact[0]))),
        }
    }
}

/// A text in the forms that are searched.
struct Text {
    exact: [String; 3],
    hex: [String; 2],
}

impl Text {
    fn of(s: &str) -> Self {
        let t = compact(s);
        let url = t.replace('-', "+").replace('_', "/");
        Text { hex: [t.to_ascii_lowercase(), digits(s)], exact: [t, numbers(s), url] }
    }
}

fn short(s: &str) -> String {
    s.chars().take(3000).collect()
}

fn compact(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// The hexadecimal digits of a text, whatever is put between them.
fn digits(s: &str) -> String {
    let s = s.to_ascii_lowercase().replace("0x", " ").replace("\\x", " ");
    s.chars().filter(|c| c.is_ascii_alphanumeric()).collect()
}

/// The numbers of a text, whatever is put between them.
fn numbers(s: &str) -> String {
    let v: Vec<&str> = s.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
    v.join(",")
}

fn printed(x: &dyn Debug) -> String {
    format!("{x:?}\n{x:#?}\n{x:x?}\n{x:#X?}")
}

fn fresh_ed(r: &mut Rng) -> (Vec<u8>, String) {
    let mut seed = [0; 32];
    for b in seed.iter_mut() {
        *b = r.u64() as u8;
    }
    let k = ed25519_dalek::SigningKey::from_bytes(&seed);
    let pem = k.to_pkcs8_pem(pkcs8::LineEnding::LF).unwrap();
    (seed.to_vec(), pem.to_string())
}

/// The searches must find what they are for.
fn sanity(s: &Secret, k: &SigningKey) -> R {
    let texts = match k {
        SigningKey::Rsa(k) => vec![
            format!("{:?}", k.d()),
            k.d().to_string(),
            format!("{k:?}"),
            format!("{:x}", k.primes()[0]),
            format!("{:?}", k.primes()[1].to_bytes_be()),
            model::b64_encode(&k.d().to_bytes_be()),
        ],
        SigningKey::Ed25519(k) => {
            let b = k.as_bytes();
            vec![
                format!("{b:?}"),
                format!("{b:#?}"),
                b.iter().map(|b| format!("{b:02X}")).collect(),
                b.iter().map(|b| format!("{b:02x}:")).collect(),
                b.iter().map(|b| format!("\\x{b:02x}")).collect(),
                b.iter().map(|b| format!("{b} ")).collect(),
                model::b64_encode(b).replace('+', "-").replace('/', "_"),
                model::b64_encode(b),
                k.to_pkcs8_pem(pkcs8::LineEnding::LF).unwrap().to_string(),
            ]
        }
    };
    for t in texts {
        ensure!(s.found(&Text::of(&t)).is_some(), "harness", "a printed private key is not recognized: {t}");
    }
    Ok(())
}

fn c30_keys(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let pem = if r.coin() {
        fresh_ed(r).1
    } else {
        r.pick(world::keys()).pem.to_string()
    };
    let key = match SigningKey::from_pkcs8_pem(&pem) {
        Ok(k) => k,
        Err(e) => return fail("key refused", format!("{e} for {pem}")),
    };
    let secret = Secret::of(&key);
    sanity(&secret, &key)?;
    c.ev("keys");
    secret.search("a printed key", &printed(&key))?;
    secret.search("a printed key", &printed(&Some((1, &key))))?;
    // Damaged key files
    for _ in 0..6 {
        let mut b = pem.clone().into_bytes();
        match r.below(5) {
            0 => {
                let n = r.below(b.len());
                b.truncate(n);
            }
            1 => {
                let n = r.below(b.len());
                b[n] = *r.pick(b"A+/=- \n\r\0zZ9");
            }
            2 => {
                let n = r.below(b.len());
                b.remove(n);
            }
            3 => {
                let s = String::from_utf8(b).unwrap();
                b = s.replace("PRIVATE KEY", r.pick(&["RSA PRIVATE KEY", "PUBLIC KEY", "EC PRIVATE KEY", ""])).into_bytes();
            }
            _ => {
                let n = r.below(b.len());
                b.insert(n, b'A');
            }
        }
        let s = String::from_utf8(b).unwrap();
        let (e, log, _) = trace::logged(|| SigningKey::from_pkcs8_pem(&s));
        secret.search("the log", &log)?;
        match e {
            Ok(k) => Secret::of(&k).search("a printed key", &printed(&k))?,
            Err(e) => {
                secret.search("an error", &format!("{e} {}", printed(&e)))?;
                c.ev("damaged keys");
            }
        }
    }
    let q = SignRequest::new(
        DomainName::new("example.com").unwrap(),
        Selector::new("s").unwrap(),
        match key.key_type() {
            KeyType::Rsa => SigningAlgorithm::RsaSha256,
            KeyType::Ed25519 => SigningAlgorithm::Ed25519Sha256,
        },
        key,
    );
    secret.search("a printed request", &printed(&q))?;
    c.nontrivial(pem.as_bytes());
    c.sample(|| format!("{} pieces of text searched for", secret.exact.len() + secret.hex.len()));
    Ok(())
}

/// All that comes of signing and verifying.
fn c30_sessions(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let mut h = gen::headers(r, 8);
    if !h.iter().any(|f| f.0.eq_ignore_ascii_case("from")) {
        h.push(("From".into(), b" a".to_vec()));
    }
    let body = gen::body(r, 40);
    let n = 1 + r.below(3);
    let specs = gen::specs(r, n, &h, canon_len(&body));
    let own = fresh_ed(r);
    let own = Arc::new(SigningKey::from_pkcs8_pem(&own.1).unwrap());
    let replace = r.coin();
    let mut secrets: Vec<Secret> = specs.iter().map(|s| Secret::of(&s.key.signing)).collect();
    secrets.push(Secret::of(&own));
    let mut requests: Vec<SignRequest<Arc<SigningKey>>> = specs.iter().map(|s| s.request()).collect();
    if replace && specs[0].key.ed {
        requests[0].signing_key = own.clone();
    }
    if r.one_in(10) {
        // a key that does not fit
        requests[n - 1].signing_key = world::key(r.pick(&["ed_b", "rsa1024", "rsa496"])).signing.clone();
    }
    let search = |what: &str, t: &str| {
        let t = Text::of(t);
        secrets.iter().try_for_each(|s| s.search_in(what, &t))
    };
    search("printed requests", &printed(&requests))?;
    let ch = gen::chunks(r, &body);
    let (out, log, events) = trace::logged(|| world::sign(mk(&h), requests, &ch, false));
    search("the log", &log)?;
    c.ev_n("log events", events);
    search("the results", &printed(&out))?;
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            search("an error", &e.to_string())?;
            c.ev("refused");
            return Ok(());
        }
    };
    for o in &out {
        match o {
            Ok(o) => {
                search("a signature header", &format!("{} {}", o.format_header(), printed(&o.to_header_field())))?;
                search("a signature header", &String::from_utf8_lossy(&quoted_printable::decode(&o.header_value).unwrap_or_default()))?;
                search("a signature header", &printed(&o.signature))?;
                c.ev("signatures");
            }
            Err(e) => search("an error", &e.to_string())?,
        }
    }
    let outs: Vec<_> = out.iter().flatten().collect();
    let all = stack(&outs, &h);
    let recs = records(r, &specs, 0);
    let (res, log, events) = trace::logged(|| world::verify(&mk(&all), &dns(&recs), &permissive(), &ch, false));
    search("the log", &log)?;
    search("the results", &printed(&res))?;
    c.ev_n("log events", events);
    c.nontrivial(format!("{specs:?}{}", show_headers(&all)).as_bytes());
    c.sample(|| format!("{} signatures, {} results, last log {log:?}", outs.len(), res.map_or(0, |r| r.len())));
    Ok(())
}

// ---------------------------------------------------------------- C31

pub fn c31() -> Vec<Workload> {
    vec![
        wl("verifying", 8_000, 250_000, c31_verifying),
        wl("signing", 6_000, 200_000, c31_signing),
        wl("printing", 10_000, 300_000, c31_printing),
    ]
}

fn c31_verifying(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let (h, body, cfg, recs) = super::verify::any_scene(r);
    let hf = mk(&h);
    let ch = gen::chunks(r, &body);
    let run = || {
        let d = dns(&recs);
        let v = world::verify(&hf, &d, &cfg, &ch, false);
        let mut calls: Vec<String> = d.calls().iter().map(|c| c.name.clone()).collect();
        calls.sort();
        (v, calls)
    };
    let quiet = trace::silent(run);
    let (logged, log, events) = trace::logged(run);
    let show = || super::verify::describe(&h, &body, &cfg, &recs);
    ensure!(quiet == logged, "log changes the outcome", "without log {quiet:?}\n  with log {logged:?}\n  {}", show());
    c.ev_n("log events", events);
    c.ev(if quiet.0.is_some() { "verified" } else { "no signatures" });
    // To be read while going on.
    for v in quiet.0.iter().flatten() {
        printable(c, v)?;
        if let VerificationStatus::Failure(e) = &v.status {
            explained(c, e)?;
        }
        if let Some(s) = &v.signature {
            printable(c, s)?;
        }
        if let Some(k) = &v.key_record {
            printable(c, &**k)?;
        }
    }
    if events > 0 {
        c.nontrivial(show().as_bytes());
    }
    c.sample(|| format!("{log:?}"));
    Ok(())
}

fn c31_signing(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let mut h = gen::headers(r, 8);
    if !h.iter().any(|f| f.0.eq_ignore_ascii_case("from")) {
        h.push(("From".into(), b" a".to_vec()));
    }
    let body = gen::body(r, 40);
    let n = 1 + r.below(4);
    let mut specs = gen::specs(r, n, &h, canon_len(&body));
    for s in &mut specs {
        // not by the actual clock, which runs on between the two
        if s.ts == Ts::Now || s.valid.is_some() {
            s.ts = Ts::Exact(1_700_000_000);
        }
        if r.one_in(12) {
            s.key = world::key(r.pick(&["rsa496", "rsa504", "rsa512", "rsa520"]));
        }
        if r.one_in(12) {
            s.bl = Bl::Exact(body.len() as u64 + 10);
        }
        if r.one_in(20) {
            s.ts = Ts::Exact(u64::MAX - 1);
            s.valid = Some(std::time::Duration::from_secs(10));
        }
    }
    let ch = gen::chunks(r, &body);
    let run = || sign_all(&h, &specs, &ch, false);
    let quiet = trace::silent(run);
    let (logged, log, events) = trace::logged(run);
    ensure!(quiet == logged, "log changes the outcome", "without log {quiet:?}\n  with log {logged:?}\n  {specs:?}{}", show_headers(&h));
    c.ev_n("log events", events);
    for s in &specs {
        printable(c, &s.request())?;
    }
    match &quiet {
        Err(e) => explained(c, e)?,
        Ok(v) => {
            for o in v {
                match o {
                    Ok(o) => {
                        printable(c, o)?;
                        printable(c, &o.signature)?;
                        ensure!(!o.format_header().to_string().is_empty(), "empty text", "{o:?}");
                        c.ev("signed");
                    }
                    Err(e) => explained(c, e)?,
                }
            }
        }
    }
    if events > 0 {
        c.nontrivial(format!("{specs:?}{}", show_headers(&h)).as_bytes());
    }
    c.sample(|| format!("{log:?}"));
    Ok(())
}

/// Printing never fails, and gives the same again.
fn printable(c: &mut Case<'_>, x: &dyn Debug) -> R {
    let t = format!("{x:?}");
    ensure!(!t.is_empty(), "empty text", "a value printed as nothing");
    ensure!(format!("{x:?}") == t, "printing twice", "{t} printed otherwise when printed again");
    let _ = format!("{x:#?} {x:x?} {x:20?} {x:.3?} {x:<5.1?}");
    c.ev("values printed");
    Ok(())
}

fn displayed<T: Debug + Display>(c: &mut Case<'_>, x: &T) -> R {
    printable(c, x)?;
    let t = x.to_string();
    ensure!(t == format!("{x}"), "printing twice", "{t}");
    let _ = format!("{x:>30} {x:.2} {x:^1} {x:#}");
    Ok(())
}

/// An error says what happened, and so do its causes.
fn explained<E: Error + 'static>(c: &mut Case<'_>, e: &E) -> R {
    displayed(c, e)?;
    let mut next: Option<&dyn Error> = Some(e);
    let mut depth = 0;
    while let Some(e) = next {
        ensure!(!e.to_string().trim().is_empty(), "empty text", "the error {e:?} has no text");
        ensure!(!format!("{e:?}").is_empty(), "empty text", "an error has no debug text");
        depth += 1;
        ensure!(depth < 10, "endless causes", "{e:?}");
        next = e.source();
    }
    c.ev(&format!("errors with {} causes", depth - 1));
    Ok(())
}

/// Everything else there is to print.
fn c31_printing(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let mut bytes = match r.below(5) {
        0 => gen::field_value(r),
        1 => gen::word(r),
        2 => (0..gen::size(r, 300)).map(|_| r.u64() as u8).collect(),
        3 => {
            // long texts of many characters of several bytes, in part damaged
            let mut b = vec![b'a'; r.below(8)];
            for _ in 0..gen::size(r, 2000) {
                b.extend(r.pick(&["é", "字", "🎆", "a", "é"]).bytes());
            }
            for _ in 0..r.below(4) {
                let at = r.below(b.len() + 1);
                b.insert(at, *r.pick(&[0xff, 0x80, 0xc3, b'\\', b'"']));
            }
            b
        }
        _ => gen::body(r, 20),
    };
    if r.one_in(4) {
        bytes.extend(*r.pick(&[&b"\0"[..], b"\xc3\x28", b"\xf0\x9f\x98\x80", b"\r\n \r\n", b";", b"="]));
    }
    let text = match r.below(4) {
        0 => gen::domain(r),
        1 => gen::record_any(r, world::key("ed_a"), 30),
        2 => gen::field_name(r),
        _ => String::from_utf8_lossy(&bytes).into_owned(),
    };
    macro_rules! either {
        ($e:expr) => {
            match $e {
                Ok(x) => {
                    printable(c, &x)?;
                    Some(x)
                }
                Err(e) => {
                    explained(c, &e)?;
                    None
                }
            }
        };
    }
    if let Some(x) = either!(FieldName::new(text.as_str())) {
        displayed(c, &x)?;
    }
    let body = either!(FieldBody::new(bytes.as_slice()));
    if let Some(x) = either!(DomainName::new(text.as_str())) {
        displayed(c, &x)?;
    }
    if let Some(x) = either!(Selector::new(text.as_str())) {
        displayed(c, &x)?;
    }
    if let Some(x) = either!(Identity::new(&format!("{}@{text}", if text.len() % 2 == 0 { "me" } else { "" }))) {
        displayed(c, &x)?;
    }
    either!(text.parse::<DkimSignature>());
    either!(text.parse::<DkimKeyRecord>());
    either!(text.parse::<HeaderFields>());
    if let Some(x) = either!(text.parse::<SigningAlgorithm>()) {
        displayed(c, &x)?;
    }
    if let Some(x) = either!(text.parse::<Canonicalization>()) {
        displayed(c, &x)?;
    }
    if let Some(x) = either!(text.parse::<CanonicalizationAlgorithm>()) {
        displayed(c, &x)?;
    }
    either!(quoted_printable::decode(&text));
    either!(viadkim::decode_base64(&text));
    either!(SigningKey::from_pkcs8_pem(&text));
    if let Some(b) = body {
        let n = FieldName::new("X").unwrap();
        either!(HeaderFields::new(vec![(n, b)]));
    }
    either!(HeaderFields::new(Vec::new()));
    // Keys, hashes
    let k: &TestKey = r.pick(world::keys());
    let kt = if k.ed { KeyType::Ed25519 } else { KeyType::Rsa };
    displayed(c, &kt)?;
    let data = if r.coin() { k.public(r.coin()) } else { bytes.clone() };
    match VerifyingKey::from_key_data(kt, &data) {
        Ok(x) => {
            printable(c, &x)?;
            if let Err(e) = x.validate_min_key_size() {
                explained(c, &e)?;
            }
        }
        Err(e) => {
            ensure!(!e.to_string().trim().is_empty(), "empty text", "the error {e:?} has no text");
            c.ev("unusable key data");
        }
    }
    let alg = world::hash_alg(world::SHA1 && r.coin());
    displayed(c, &alg)?;
    let n = r.below(bytes.len() + 3);
    let mut hasher = crypto::CountingHasher::new(alg, Some(n));
    printable(c, &hasher.update(&bytes))?;
    either!(hasher.finish());
    let mut b = BodyHasherBuilder::new(r.coin());
    b.register_canonicalization(Some(n), alg, gen::canon_alg(r.coin()));
    let mut b = b.build();
    let st: BodyHasherStance = b.hash_chunk(&bytes);
    printable(c, &st)?;
    let f = b.finish();
    printable(c, &f)?;
    match crypto::sign_rsa(alg, match &*world::key("rsa512").signing {
        SigningKey::Rsa(k) => k,
        _ => return fail("harness", "key type"),
    }, &bytes) {
        Ok(s) => printable(c, &s)?,
        Err(e) => {
            ensure!(!e.to_string().trim().is_empty(), "empty text", "the error {e:?} has no text");
        }
    }
    if bytes.is_empty() {
        let none: [SignRequest<SigningKey>; 0] = [];
        let h = mk(&[("From".into(), b" a".to_vec())]);
        if let Err(e) = Signer::prepare_signing(h, none) {
            explained(c, &e)?;
        }
    }
    c.nontrivial(&[text.as_bytes(), b"\0", &bytes].concat());
    c.sample(|| format!("{text:?}"));
    Ok(())
}
