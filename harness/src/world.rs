//! The world around the library: keys, a scripted resolver, and thin wrappers
//! that drive complete signing and verification runs.

use crate::model::{self, Hdr};
use num_bigint_dig::BigUint;
use rsa::{
    pkcs8::DecodePrivateKey,
    traits::{PrivateKeyParts, PublicKeyParts},
    RsaPrivateKey,
};
use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    io::{self, ErrorKind},
    pin::Pin,
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use viadkim::{
    crypto::{HashAlgorithm, SigningKey},
    header::{FieldBody, FieldName, HeaderFields},
    message_hash::BodyHasherStance,
    signature::SigningAlgorithm,
    signer::{RequestError, SignRequest, Signer, SigningError, SigningOutput},
    verifier::{Config, LookupTxt, VerificationResult, Verifier},
};

pub const SHA1: bool = cfg!(feature = "sha1");

// ---------------------------------------------------------------- keys

pub struct TestKey {
    pub name: &'static str,
    pub pem: &'static str,
    pub ed: bool,
    pub bits: usize,
    pub signing: Arc<SigningKey>,
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
    /// raw public key of an Ed25519 key
    pub raw: Vec<u8>,
}

impl TestKey {
    /// The public key data in one of its two encodings.
    pub fn public(&self, alt: bool) -> Vec<u8> {
        match (self.ed, alt) {
            (false, false) => model::spki_rsa(&self.n, &self.e),
            (false, true) => model::pkcs1_public(&self.n, &self.e),
            (true, false) => self.raw.clone(),
            (true, true) => model::spki_ed25519(&self.raw),
        }
    }

    pub fn k(&self) -> &'static str {
        if self.ed {
            "ed25519"
        } else {
            "rsa"
        }
    }

    pub fn record(&self) -> String {
        format!("v=DKIM1; k={}; p={}", self.k(), model::b64_encode(&self.public(false)))
    }

    pub fn sign_digest(&self, sha1: bool, digest: &[u8]) -> Vec<u8> {
        match &*self.signing {
            SigningKey::Rsa(k) => {
                use rsa::Pkcs1v15Sign;
                if sha1 {
                    k.sign(Pkcs1v15Sign::new::<sha1::Sha1>(), digest).unwrap()
                } else {
                    k.sign(Pkcs1v15Sign::new::<sha2::Sha256>(), digest).unwrap()
                }
            }
            SigningKey::Ed25519(k) => {
                use ed25519_dalek::Signer;
                k.sign(digest).to_bytes().to_vec()
            }
        }
    }

    /// Independent verification of a signature over a digest.
    pub fn check(&self, sha1: bool, digest: &[u8], sig: &[u8]) -> bool {
        if self.ed {
            use ed25519_dalek::{Signature, VerifyingKey};
            let mut raw = [0; 32];
            raw.copy_from_slice(&self.raw);
            match (VerifyingKey::from_bytes(&raw), Signature::from_slice(sig)) {
                (Ok(k), Ok(s)) => k.verify_strict(digest, &s).is_ok(),
                _ => false,
            }
        } else {
            model::rsa_verify(&self.n, &self.e, sha1, digest, sig)
        }
    }
}

macro_rules! pems {
    ($($n:literal),*) => { &[$(($n, include_str!(concat!("../keys/", $n, ".pem")))),*] };
}

pub const EC_PEM: &str = include_str!("../keys/ec.pem");

static PEMS: &[(&str, &str)] = pems![
    "ed_a", "ed_b", "ed_c", "ed_d", "rsa1024", "rsa1024b", "rsa1024e3", "rsa1025", "rsa1032",
    "rsa1536", "rsa2047", "rsa2048", "rsa2048b", "rsa3072", "rsa4096", "rsa496", "rsa504",
    "rsa511", "rsa512", "rsa520", "rsa768", "rsa1000", "rsa1016", "rsa1023"
];

pub fn keys() -> &'static [TestKey] {
    static K: OnceLock<Vec<TestKey>> = OnceLock::new();
    K.get_or_init(|| {
        PEMS.iter()
            .map(|&(name, pem)| {
                if name.starts_with("ed") {
                    let k = ed25519_dalek::SigningKey::from_pkcs8_pem(pem).expect(name);
                    let raw = k.verifying_key().to_bytes().to_vec();
                    TestKey {
                        name,
                        pem,
                        ed: true,
                        bits: 256,
                        signing: Arc::new(SigningKey::Ed25519(k)),
                        n: BigUint::from(0u8),
                        e: BigUint::from(0u8),
                        d: BigUint::from(0u8),
                        raw,
                    }
                } else {
                    let k = RsaPrivateKey::from_pkcs8_pem(pem).expect(name);
                    TestKey {
                        name,
                        pem,
                        ed: false,
                        bits: k.n().bits(),
                        n: k.n().clone(),
                        e: k.e().clone(),
                        d: k.d().clone(),
                        signing: Arc::new(SigningKey::Rsa(k)),
                        raw: vec![],
                    }
                }
            })
            .collect()
    })
}

pub fn key(name: &str) -> &'static TestKey {
    keys().iter().find(|k| k.name == name).expect("no such key")
}

// ---------------------------------------------------------------- resolver

#[derive(Clone, Debug)]
pub enum Answer {
    Txt(Vec<Result<Vec<u8>, ErrorKind>>),
    Err(ErrorKind),
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub answer: Answer,
    /// None: answer at once. A duration in virtual time.
    pub delay: Option<Duration>,
    pub never: bool,
    /// number of times the query yields before answering
    pub yields: usize,
}

impl Entry {
    pub fn txt(s: impl Into<Vec<u8>>) -> Self {
        Self::of(Answer::Txt(vec![Ok(s.into())]))
    }

    pub fn of(answer: Answer) -> Self {
        Self { answer, delay: None, never: false, yields: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub name: String,
    pub start: tokio::time::Instant,
    pub end: Option<tokio::time::Instant>,
    /// when the query was given up without an answer
    pub dropped: Option<tokio::time::Instant>,
}

struct Guard<'a>(&'a DnsInner, usize);

impl Drop for Guard<'_> {
    fn drop(&mut self) {
        if let Ok(mut c) = self.0.calls.lock() {
            let c = &mut c[self.1];
            if c.end.is_none() {
                c.dropped = Some(tokio::time::Instant::now());
            }
        }
    }
}

#[derive(Default)]
pub struct DnsInner {
    map: HashMap<String, Entry>,
    calls: Mutex<Vec<Call>>,
}

/// A resolver that answers from a table and records the queries it is asked.
#[derive(Clone, Default)]
pub struct Dns(Arc<DnsInner>);

impl Dns {
    pub fn new(entries: impl IntoIterator<Item = (String, Entry)>) -> Self {
        let map = entries
            .into_iter()
            .map(|(k, e)| (k.to_ascii_lowercase(), e))
            .collect();
        Self(Arc::new(DnsInner { map, calls: Mutex::default() }))
    }

    pub fn calls(&self) -> Vec<Call> {
        self.0.calls.lock().unwrap().clone()
    }
}

/// The name to be queried, according to the specification.
pub fn query_name(selector: &str, domain: &str) -> String {
    let s = model::a_label(selector).unwrap();
    let d = model::a_label(domain).unwrap();
    format!("{s}._domainkey.{d}.")
}

struct YieldNow(usize);

impl Future for YieldNow {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        if self.0 == 0 {
            return std::task::Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        std::task::Poll::Pending
    }
}

impl LookupTxt for Dns {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;

    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let domain = domain.to_string();
        Box::pin(async move {
            let i = {
                let mut c = self.0.calls.lock().unwrap();
                c.push(Call {
                    name: domain.clone(),
                    start: tokio::time::Instant::now(),
                    end: None,
                    dropped: None,
                });
                c.len() - 1
            };
            let _guard = Guard(&self.0, i);
            let e = self.0.map.get(&domain.to_ascii_lowercase());
            if let Some(e) = e {
                if e.yields > 0 {
                    YieldNow(e.yields).await;
                }
                if let Some(d) = e.delay {
                    tokio::time::sleep(d).await;
                }
                if e.never {
                    std::future::pending::<()>().await;
                }
            }
            self.0.calls.lock().unwrap()[i].end = Some(tokio::time::Instant::now());
            match e.map(|e| &e.answer) {
                None => Err(ErrorKind::NotFound.into()),
                Some(Answer::Err(k)) => Err((*k).into()),
                Some(Answer::Txt(v)) => Ok(v
                    .iter()
                    .map(|r| r.clone().map_err(io::Error::from))
                    .collect()),
            }
        })
    }
}

// ---------------------------------------------------------------- execution

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

pub struct Stuck;

/// Runs the future in virtual time; `Stuck` if it never completes.
pub fn block_on<F: Future>(f: F) -> Result<F::Output, Stuck> {
    let rt = RT.with(|r| r.borrow_mut().take()).unwrap_or_else(|| {
        tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .unwrap()
    });
    // A year of virtual time, which passes only when nothing else can happen.
    let r = rt.block_on(async {
        tokio::time::timeout(Duration::from_secs(365 * 86400), f).await
    });
    RT.with(|c| *c.borrow_mut() = Some(rt));
    r.map_err(|_| Stuck)
}

pub fn to_headers(h: &[Hdr]) -> Option<HeaderFields> {
    let v = h
        .iter()
        .map(|(n, b)| Some((FieldName::new(n.as_str()).ok()?, FieldBody::new(b.as_slice()).ok()?)))
        .collect::<Option<Vec<_>>>()?;
    HeaderFields::new(v).ok()
}

pub type SignResults = Vec<Result<SigningOutput, SigningError>>;

pub fn sign(
    headers: HeaderFields,
    requests: Vec<SignRequest<Arc<SigningKey>>>,
    chunks: &[&[u8]],
    stop_when_done: bool,
) -> Result<SignResults, RequestError> {
    let mut s = Signer::prepare_signing(headers, requests)?;
    for c in chunks {
        if let BodyHasherStance::Done = s.process_body_chunk(c) {
            if stop_when_done {
                break;
            }
        }
    }
    match block_on(s.sign()) {
        Ok(r) => Ok(r),
        Err(Stuck) => panic!("LIBRARY-STUCK: signing never completed"),
    }
}

pub fn verify(
    headers: &HeaderFields,
    dns: &Dns,
    config: &Config,
    chunks: &[&[u8]],
    stop_when_done: bool,
) -> Option<Vec<VerificationResult>> {
    let v = match block_on(Verifier::verify_header(dns, headers, config)) {
        Ok(v) => v,
        Err(Stuck) => panic!("LIBRARY-STUCK: verify_header never completed"),
    };
    let mut v = v?;
    for c in chunks {
        if let BodyHasherStance::Done = v.process_body_chunk(c) {
            if stop_when_done {
                break;
            }
        }
    }
    Some(v.finish())
}

pub fn alg_of(key: &TestKey, sha1: bool) -> SigningAlgorithm {
    if key.ed {
        SigningAlgorithm::Ed25519Sha256
    } else {
        #[cfg(feature = "sha1")]
        if sha1 {
            return SigningAlgorithm::RsaSha1;
        }
        let _ = sha1;
        SigningAlgorithm::RsaSha256
    }
}

pub fn hash_alg(sha1: bool) -> HashAlgorithm {
    #[cfg(feature = "sha1")]
    if sha1 {
        return HashAlgorithm::Sha1;
    }
    let _ = sha1;
    HashAlgorithm::Sha256
}

pub fn is_sha1(h: HashAlgorithm) -> bool {
    format!("{h}") == "sha1"
}
