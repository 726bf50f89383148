//! Generators for messages, requests, signatures and records.

use crate::{
    model::{self, Hdr},
    rng::Rng,
    world::{self, TestKey},
};
use std::{cmp::Ordering, num::NonZeroUsize, sync::Arc, time::Duration};
use viadkim::{
    crypto::SigningKey,
    header::FieldName,
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DomainName, Identity, Selector,
    },
    signer::{BodyLength, HeaderSelection, OutputFormat, SignRequest, Timestamp},
};

const EDGES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 76, 77, 78, 79, 99, 100, 101,
    127, 128, 129, 255, 256, 257, 511, 512, 513, 997, 998, 999, 1000, 1001, 1023, 1024, 1025, 2047,
    2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769,
    65535, 65536, 65537, 131071, 131072, 131073, 262143, 262144, 262145, 1048575, 1048576, 1048577,
];

/// A size up to `max`, with a preference for small and for edge values.
pub fn size(r: &mut Rng, max: usize) -> usize {
    match r.below(10) {
        0..=5 => r.range(0, max.min(6)),
        6 | 7 => r.range(0, max.min(40)),
        _ => {
            let n = EDGES.iter().take_while(|e| **e <= max).count();
            EDGES[r.below(n)]
        }
    }
}

pub fn edge(r: &mut Rng, max: usize) -> usize {
    let n = EDGES.iter().take_while(|e| **e <= max).count();
    EDGES[r.below(n)]
}

pub fn wsp(r: &mut Rng, n: usize) -> Vec<u8> {
    let mode = r.below(4);
    (0..n)
        .map(|_| match mode {
            0 => b' ',
            1 => b'\t',
            _ => *r.pick(b" \t"),
        })
        .collect()
}

pub fn word(r: &mut Rng) -> Vec<u8> {
    let n = 1 + r.below(8);
    match r.below(14) {
        0 => r.bytes(n),
        1 => "grüße".into(),
        2 => vec![*r.pick(&[0u8, 0x0b, 0x0c, 0x1f, 0x7f, 0x80, 0x85, 0xa0, 0xff, b'.', b'=', b'-'])],
        _ => (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0189.,;:=-<>@")).collect(),
    }
}

/// Bytes other than whitespace and line ends.
fn dense(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = r.bytes(n);
    for b in &mut v {
        if b" \t\r\n".contains(b) {
            *b ^= 0x80;
        }
    }
    v
}

/// A count of things, with a preference for edges up to a few thousands.
pub fn many(r: &mut Rng, max: usize) -> usize {
    let n = match r.below(20) {
        0..=2 => r.range(20, 300),
        3 | 4 => r.range(200, 1500),
        5 => r.range(1500, 9000),
        _ => {
            let e = *r.pick(&[
                32, 48, 50, 64, 64, 96, 100, 128, 128, 192, 200, 256, 256, 256, 257, 300, 500, 512,
                512, 600, 768, 1000, 1000, 1024, 1024, 1500, 2000, 2048, 3000, 4000, 4096, 5000, 8000,
                8192, 10_000, 16_384, 32_768, 65_535, 65_536,
            ]);
            e + r.below(3) - 1
        }
    };
    if n > max { r.range(max / 3, max) } else { n }
}

/// A message body; `big` is the largest run generated.
pub fn body(r: &mut Rng, big: usize) -> Vec<u8> {
    let mut v = vec![];
    if r.one_in(10) {
        // lines without whitespace
        for _ in 0..1 + r.below(4) {
            let n = if r.coin() { edge(r, big) + r.below(3) } else { size(r, big) };
            v.extend(if r.coin() { dense(r, n) } else { vec![b'y'; n] });
            v.extend(b"\r\n");
        }
        match r.below(4) {
            0 => v.truncate(v.len() - 2),
            1 => v.extend(b"\r\n"),
            _ => {}
        }
        return v;
    }
    let pieces = match r.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => 1 + r.below(8),
        _ => 1 + r.below(40),
    };
    // Large runs are rare within a body.
    let runmax = if r.one_in(4) { big } else { 20.min(big) };
    for _ in 0..pieces {
        match r.below(20) {
            0..=4 => v.extend(word(r)),
            5..=8 => {
                v.extend(word(r));
                v.extend(b"\r\n");
            }
            9..=11 => v.extend(b"\r\n"),
            12 => {
                for _ in 0..size(r, runmax) {
                    v.extend(b"\r\n");
                }
            }
            13 | 14 => {
                let n = 1 + size(r, runmax);
                v.extend(wsp(r, n));
            }
            15 => {
                let n = 1 + size(r, runmax.min(100));
                v.extend(wsp(r, n));
                v.extend(b"\r\n");
            }
            16 => v.push(*r.pick(b"\r\n")),
            17 => v.extend(*r.pick(&[
                &b"\r\r\n"[..],
                b"\n\r",
                b"\r\n\r",
                b" \r",
                b"\r ",
                b" \r\r\n",
                b"\t\n",
                b"\r\n \r\n",
                b"\r\r",
                b" \r \r\n",
                b"\0",
            ])),
            18 => {
                // lines of whitespace only
                for _ in 0..size(r, runmax.min(300)) {
                    let n = r.below(3);
                    v.extend(wsp(r, n));
                    v.extend(b"\r\n");
                }
            }
            _ => {
                let n = size(r, runmax);
                if r.coin() {
                    v.extend(std::iter::repeat(b'x').take(n));
                } else {
                    v.extend(dense(r, n));
                }
            }
        }
    }
    match r.below(6) {
        0 => {}
        1 => {
            let n = size(r, 10);
            v.extend(b"\r\n".repeat(n));
        }
        _ => v.extend(b"\r\n"),
    }
    v
}

/// Cuts bytes into chunks.
pub fn chunks<'a>(r: &mut Rng, b: &'a [u8]) -> Vec<&'a [u8]> {
    let mut cuts: Vec<usize> = vec![];
    match r.below(10) {
        0 => {}
        1 if b.len() <= 3000 => cuts.extend(0..=b.len()),
        2 => {
            // inside every CRLF
            cuts.extend((1..b.len()).filter(|&i| b[i - 1] == b'\r' && b[i] == b'\n'));
        }
        3 => {
            let n = 1 + edge(r, 70000);
            cuts.extend((0..b.len()).step_by(n.max(b.len() / 500 + 1)));
        }
        4 => {
            // around white space
            cuts.extend((1..b.len()).filter(|&i| b" \t\r\n".contains(&b[i]) && r.coin()).take(2000));
        }
        5 => {
            // between runs of space and of other bytes
            let sp = |i: usize| b" \t\r\n".contains(&b[i]);
            let often = r.one_in(3);
            let keep = 1 + r.below(4);
            cuts.extend((1..b.len()).filter(|&i| sp(i) != sp(i - 1) && (often || r.one_in(keep))).take(3000));
        }
        6 => {
            // around the long runs of other bytes
            let sp = |i: usize| b" \t\r\n".contains(&b[i]);
            let mut start = 0;
            for i in 0..=b.len() {
                if i == b.len() || sp(i) {
                    if i - start >= 30 {
                        cuts.extend([start, i]);
                    }
                    start = i + 1;
                }
            }
            cuts.truncate(4000);
        }
        _ => {
            for _ in 0..r.below(7) {
                cuts.push(r.range(0, b.len()));
            }
        }
    }
    cuts.sort_unstable();
    let mut v = vec![];
    let mut last = 0;
    for c in cuts {
        v.push(&b[last..c]);
        last = c;
    }
    v.push(&b[last..]);
    if r.one_in(3) {
        for _ in 0..1 + r.below(3) {
            let i = r.below(v.len() + 1);
            v.insert(i, &[]);
        }
    }
    v
}

// ---------------------------------------------------------------- headers

/// Hundreds or thousands of fields with few distinct names.
pub fn crowded(r: &mut Rng, max: usize) -> Vec<Hdr> {
    let n = many(r, max);
    let k = r.below(4);
    let mut names: Vec<String> = (0..k).map(|_| field_name(r)).collect();
    if r.one_in(3) {
        names.push("From".into());
    }
    let single = r.one_in(3) || names.is_empty();
    let main = if names.is_empty() || r.one_in(4) { "Received".into() } else { r.pick(&names).clone() };
    let mut h: Vec<Hdr> = (0..n)
        .map(|i| {
            let s = if single { &main } else { r.pick(&names) };
            let s = if r.one_in(9) { recase(r, s) } else { s.clone() };
            (s, format!(" {i}").into_bytes())
        })
        .collect();
    for _ in 0..1 + r.below(4) {
        let i = *r.pick(&[0, h.len(), h.len() / 2, h.len().min(256)]);
        let name = if !names.is_empty() && r.coin() { r.pick(&names).clone() } else { field_name(r) };
        h.insert(i, (name, field_value(r)));
    }
    if !h.iter().any(|h| h.0.eq_ignore_ascii_case("from")) {
        let i = *r.pick(&[0, h.len(), h.len() / 3]);
        h.insert(i, ("From".into(), field_value(r)));
    }
    h
}

/// Names of a crowded header, many of them or few.
pub fn crowded_list(r: &mut Rng, h: &[Hdr], max: usize) -> Vec<String> {
    let mut counts: Vec<(String, usize)> = vec![];
    for (n, _) in h {
        match counts.iter_mut().find(|c| c.0.eq_ignore_ascii_case(n)) {
            Some(c) => c.1 += 1,
            None => counts.push((n.clone(), 1)),
        }
    }
    if r.coin() {
        counts.push((field_name(r), 0));
    }
    r.shuffle(&mut counts);
    let mut v: Vec<String> = vec![];
    for (n, c) in counts {
        let k = match r.below(9) {
            0 => 0,
            1 => 1,
            2 => c + 1,
            3 => c.saturating_sub(1),
            4 => c % 256,
            5 => c.saturating_sub(256),
            6 => many(r, 2 * c + 10),
            _ => c,
        };
        for _ in 0..k.min(max) {
            v.push(if r.one_in(9) { recase(r, &n) } else { n.clone() });
        }
    }
    if r.coin() {
        r.shuffle(&mut v);
    }
    v.retain(|n| !n.contains(';'));
    if !v.iter().any(|n| n.eq_ignore_ascii_case("from")) {
        let i = *r.pick(&[0, v.len()]);
        v.insert(i, "From".into());
    }
    v
}

pub const COMMON: &[&str] = &[
    "To", "Subject", "Date", "Cc", "Reply-To", "Message-ID", "MIME-Version", "Content-Type",
    "In-Reply-To", "References", "Sender", "Received", "Return-Path", "List-Id", "List-Help",
    "List-Unsubscribe", "List-Subscribe", "List-Post", "List-Owner", "List-Archive",
    "Resent-Date", "Resent-From", "Resent-To", "Resent-Cc", "X-Mailer", "Comments", "Keywords",
    "Authentication-Results", "Subject-X", "Fro", "Froma", "X",
];

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_ascii_lowercase(),
        1 => s.to_ascii_uppercase(),
        2 => s
            .chars()
            .map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
            .collect(),
        _ => s.to_string(),
    }
}

pub fn field_name(r: &mut Rng) -> String {
    match r.below(20) {
        0 => {
            // any permitted characters
            let n = 1 + size(r, 80);
            (0..n)
                .map(|_| loop {
                    let c = r.range(0x21, 0x7e) as u8 as char;
                    if c != ':' && c != ';' {
                        break c;
                    }
                })
                .collect()
        }
        1 => (*r.pick(&["a|b", "|", "x=3Dy", "=", "=41", "X-_~", "b", "h", "x,y", "\"q\"", "(c)", "-"])).into(),
        2 => {
            let s = *r.pick(COMMON);
            recase(r, s)
        }
        _ => (*r.pick(COMMON)).into(),
    }
}

/// A valid field body; never folded into whitespace-only lines.
pub fn field_value(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    if r.one_in(12) {
        // empty, or whitespace only
        let n = size(r, 20);
        return wsp(r, n);
    }
    match r.below(4) {
        0 => {}
        1 => {
            let n = 1 + r.below(3);
            v.extend(wsp(r, n));
        }
        2 if r.one_in(4) => {
            v.extend(b"\r\n");
            v.extend(wsp(r, 1));
        }
        _ => v.push(b' '),
    }
    let n = if r.one_in(15) { 1 + size(r, 300) } else { 1 + r.below(6) };
    for i in 0..n {
        if i > 0 {
            let k = if r.one_in(20) { 1 + size(r, 70) } else { r.below(3) };
            v.extend(wsp(r, k));
            if r.one_in(5) {
                v.extend(b"\r\n");
                let k = 1 + r.below(3);
                v.extend(wsp(r, k));
            }
        }
        match r.below(12) {
            0 => {
                let k = 1 + r.below(4);
                v.extend(r.bytes(k).into_iter().map(|b| b | 0x80));
            }
            1 if r.coin() => v.extend("Grüße, 中文 😀".bytes()),
            // whitespace that is not WSP
            1 => v.extend(
                r.pick(&["\u{a0}", "\u{3000}", "\u{2028}", "\u{85}", "\u{feff}", "\u{200b}", "\u{2003}", "\u{1680}"])
                    .bytes(),
            ),
            2 => v.extend(*r.pick(&[
                &b";"[..], b"=", b"|", b":", b"=41", b"a=b;", b"b=", b";b=x;", b"\"q\"", b"==", b"=3D", b"=0D=0A",
            ])),
            3 if r.one_in(6) => {
                let k = edge(r, 4100);
                v.extend(std::iter::repeat(*r.pick(b"xyz|;=")).take(k));
                v.push(b'.');
            }
            _ => {
                let k = 1 + r.below(9);
                for _ in 0..k {
                    v.push(*r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHI0123456789.,<>@()-_"));
                }
            }
        }
    }
    if r.one_in(4) {
        let k = 1 + r.below(3);
        v.extend(wsp(r, k));
    }
    debug_assert!(model::valid_field_body(&v), "{}", crate::case::show(&v));
    v
}

/// A message header with at least one From field.
pub fn headers(r: &mut Rng, max: usize) -> Vec<Hdr> {
    let n = match r.below(6) {
        0 => 0,
        1..=4 => r.below(max.min(9)),
        _ => size(r, max),
    };
    let mut h: Vec<Hdr> = (0..n)
        .map(|_| {
            let n = field_name(r);
            (n, field_value(r))
        })
        .collect();
    // duplicates
    if !h.is_empty() && r.one_in(3) {
        for _ in 0..1 + r.below(3) {
            let s = h[r.below(h.len())].0.clone();
            let (n, v) = (recase(r, &s), field_value(r));
            let i = r.below(h.len() + 1);
            h.insert(i, (n, v));
        }
    }
    for _ in 0..if r.one_in(6) { 1 + r.below(4) } else { 1 } {
        let name = if r.one_in(4) { recase(r, "From") } else { "From".into() };
        let i = r.below(h.len() + 1);
        let v = field_value(r);
        h.insert(i, (name, v));
    }
    // other signature headers, mostly no signatures
    if r.one_in(10) {
        for _ in 0..1 + r.below(2) {
            let name = if r.one_in(4) { recase(r, "DKIM-Signature") } else { "DKIM-Signature".into() };
            let i = r.below(h.len() + 1);
            let v = if r.coin() { field_value(r) } else { b" v=1; a=rsa-sha256; d=example.org; s=x; h=From;\r\n\tbh=; b=".to_vec() };
            h.insert(i, (name, v));
        }
    }
    h
}

// ---------------------------------------------------------------- names

pub fn label(r: &mut Rng) -> String {
    match r.below(16) {
        14 => {
            // names with a meaning here or elsewhere
            let l = *r.pick(&["_domainkey", "_domainkey", "_DomainKey", "domainkey", "_dmarc", "www", "com", "localhost", "default", "test", "_", "x--y", "txt", "all", "n", "b", "d"]);
            if r.one_in(4) { odd_a_label(r) } else { l.into() }
        }
        13 => {
            // any script
            const L: &[&str] = &[
                "éüñøçžłđ", "ßς", "абвгдежя", "αβγδ", "中文日本語例", "한글", "ひらカナ", "🎆😀", "कखग", "ÉÜЯΩ", "אבג",
            ];
            let set: Vec<char> = r.pick(L).chars().collect();
            let n = if r.one_in(4) { 1 + r.below(30) } else { 1 + r.below(9) };
            let k = r.below(4);
            let mut v: String = (0..n).map(|_| if k > 0 && r.one_in(k + 1) { 'a' } else { *r.pick(&set) }).collect();
            if r.one_in(3) {
                let k = r.below(20);
                v.push_str(&"x".repeat(k));
            }
            if is_plain_label(&v) {
                v
            } else {
                "ünï".into()
            }
        }
        0 => "a".repeat(63),
        1 => "münchen".into(),
        2 => "例え".into(),
        3 => "xn--mnchen-3ya".into(),
        4 => "_x-y_".into(),
        5 => "BüCHER".into(),
        6 => "7".into(),
        7 => {
            let n = edge(r, 63).max(1);
            "b".repeat(n)
        }
        8 => "ExAmPlE".into(),
        9 => "é".into(),
        _ => (*r.pick(&["example", "mail", "a", "sub", "dkim", "s1", "x-1", "brisbane"])).into(),
    }
}

/// A valid label that is the Punycode form of some odd text.
fn odd_a_label(r: &mut Rng) -> String {
    const PIECES: &[&str] = &["xn--", "-", "a", "b", "0", "_", "é", "ß", "中", "例", "א", "à", "🎆", "क", "l·l", "ç", "ø"];
    let n = 1 + r.below(5);
    let u: String = (0..n).map(|_| *r.pick(PIECES)).collect();
    let l = format!("xn--{}", idna::punycode::encode_str(&u).unwrap_or_default());
    if is_plain_label(&l) { l } else { "xn--bcher-kva".into() }
}

fn is_plain_label(s: &str) -> bool {
    model::valid_name(&format!("{s}.com"), true)
}

pub fn domain(r: &mut Rng) -> String {
    loop {
        let n = match r.below(5) {
            0 => 1,
            1 => 3 + r.below(6),
            _ => 2,
        };
        let mut l: Vec<String> = (0..n).map(|_| label(r)).collect();
        if n > 1 && r.coin() {
            *l.last_mut().unwrap() = (*r.pick(&["com", "org", "test", "COM", "рф", "xn--p1ai"])).into();
        }
        let d = l.join(".");
        if model::valid_name(&d, true) {
            return d;
        }
    }
}

pub fn selector(r: &mut Rng) -> String {
    loop {
        let n = if r.one_in(5) { 2 + r.below(2) } else { 1 };
        let d = (0..n).map(|_| label(r)).collect::<Vec<_>>().join(".");
        if model::valid_name(&d, false) {
            return d;
        }
    }
}

/// A domain equal to or below `d`, maybe written differently.
pub fn subdomain(r: &mut Rng, d: &str) -> String {
    let mut s = match r.below(4) {
        0 => model::a_label(d).unwrap(),
        1 => model::u_label(d),
        2 if d.is_ascii() => recase(r, d),
        _ => d.to_string(),
    };
    for _ in 0..r.below(3) {
        s = format!("{}.{s}", label(r));
    }
    if model::valid_name(&s, true) && model::eq_or_sub(&s, d) {
        s
    } else {
        d.to_string()
    }
}

pub fn local_part(r: &mut Rng) -> String {
    match r.below(12) {
        0 => "\"a b;c\"".into(),
        1 => "\"=\\\"x\\\\|@\"".into(),
        2 => "jürgen".into(),
        3 => "x".repeat(64),
        4 => "a=b|c".into(),
        5 => "!#$%&'*+-/=?^_`{|}~".into(),
        6 => "\"\"".into(),
        7 => {
            let n = 1 + r.below(20);
            let s: String = (0..n)
                .map(|_| *r.pick(&[' ', ';', '=', '@', ':', 'é', '<', '|', '中', '.', 'a']))
                .collect();
            let s = format!("\"{s}\"");
            if s.len() <= 64 { s } else { "me".into() }
        }
        8 => "a.b.c".into(),
        _ => (*r.pick(&["me", "joe", "Joe.SixPack", "x"])).into(),
    }
}

// ---------------------------------------------------------------- requests

#[derive(Clone, Debug, PartialEq)]
pub enum Order {
    Default,
    Reverse,
    Alpha,
    /// by a pseudo-random rank of the name
    Rank(u64),
    /// all tags are equal: stable
    Equal,
    /// the named tag is first or last, others are equal
    First(&'static str),
    Last(&'static str),
}

impl Order {
    pub fn cmp(&self, a: &str, b: &str) -> Ordering {
        let rank = |s: &str, k: u64| crate::rng::hash_bytes(k, s.as_bytes());
        match self {
            Order::Default | Order::Equal => Ordering::Equal,
            Order::Reverse => b.cmp(a),
            Order::Alpha => a.cmp(b),
            Order::Rank(k) => rank(a, *k).cmp(&rank(b, *k)).then(a.cmp(b)),
            Order::First(t) => (b == *t).cmp(&(a == *t)),
            Order::Last(t) => (a == *t).cmp(&(b == *t)),
        }
    }
}

/// The names that are no extension tags.
const TAGS: [&str; 14] = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];

#[derive(Clone, Debug, PartialEq)]
pub enum Ts {
    None,
    Now,
    Exact(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Bl {
    No,
    All,
    Exact(u64),
}

/// All there is to a signing request, as plain data.
#[derive(Clone)]
pub struct Spec {
    pub key: &'static TestKey,
    pub sha1: bool,
    pub hc: bool,
    pub bc: bool,
    pub domain: String,
    pub selector: String,
    pub manual: Option<Vec<String>>,
    pub identity: Option<String>,
    pub bl: Bl,
    pub ts: Ts,
    pub valid: Option<Duration>,
    pub copy: bool,
    pub ext: Vec<(String, String)>,
    pub name: String,
    pub width: usize,
    pub indent: String,
    pub order: Order,
    pub ascii: bool,
}

impl std::fmt::Debug for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(
            f,
            "key={} sha1={} c={}/{} d={:?} s={:?} h={:?} i={:?} l={:?} t={:?} valid={:?} copy={} ext={:?} name={:?} width={} indent={:?} order={:?} ascii={}",
            self.key.name, self.sha1, canon_name(self.hc), canon_name(self.bc), self.domain,
            self.selector, self.manual, self.identity, self.bl, self.ts, self.valid, self.copy,
            self.ext, self.name, self.width, self.indent, self.order, self.ascii
        )
    }
}

pub fn canon_name(relaxed: bool) -> &'static str {
    if relaxed {
        "relaxed"
    } else {
        "simple"
    }
}

pub fn canon_alg(relaxed: bool) -> CanonicalizationAlgorithm {
    if relaxed {
        CanonicalizationAlgorithm::Relaxed
    } else {
        CanonicalizationAlgorithm::Simple
    }
}

impl Spec {
    /// An ordinary request.
    pub fn plain(key: &'static TestKey) -> Self {
        Spec {
            key,
            sha1: false,
            hc: true,
            bc: false,
            domain: "example.com".into(),
            selector: "sel".into(),
            manual: None,
            identity: None,
            bl: Bl::No,
            ts: Ts::Exact(1_700_000_000),
            valid: None,
            copy: false,
            ext: vec![],
            name: "DKIM-Signature".into(),
            width: 78,
            indent: "\t".into(),
            order: Order::Default,
            ascii: false,
        }
    }

    pub fn a(&self) -> &'static str {
        match (self.key.ed, self.sha1) {
            (true, _) => "ed25519-sha256",
            (false, true) => "rsa-sha1",
            (false, false) => "rsa-sha256",
        }
    }

    pub fn request(&self) -> SignRequest<Arc<SigningKey>> {
        let mut q = SignRequest::new(
            DomainName::new(self.domain.as_str()).unwrap(),
            Selector::new(self.selector.as_str()).unwrap(),
            world::alg_of(self.key, self.sha1),
            self.key.signing.clone(),
        );
        q.canonicalization = Canonicalization::from((canon_alg(self.hc), canon_alg(self.bc)));
        q.header_selection = match &self.manual {
            None => HeaderSelection::Auto,
            Some(v) => HeaderSelection::Manual(
                v.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect(),
            ),
        };
        q.identity = self.identity.as_ref().map(|i| Identity::new(i).unwrap());
        q.body_length = match self.bl {
            Bl::No => BodyLength::NoLimit,
            Bl::All => BodyLength::MessageContent,
            Bl::Exact(n) => BodyLength::Exact(n),
        };
        q.timestamp = match self.ts {
            Ts::None => Timestamp::None,
            Ts::Now => Timestamp::Now,
            Ts::Exact(t) => Timestamp::Exact(t),
        };
        q.valid_duration = self.valid;
        q.copy_headers = self.copy;
        q.ext_tags = self.ext.clone();
        let order = self.order.clone();
        q.format = OutputFormat {
            header_name: self.name.clone(),
            line_width: NonZeroUsize::new(self.width).unwrap(),
            indentation: self.indent.clone(),
            tag_order: match order {
                Order::Default => None,
                o => Some(Box::new(move |a: &str, b: &str| o.cmp(a, b))),
            },
            ascii_only: self.ascii,
        };
        q
    }

    /// The names that the signature is to list, given the message.
    pub fn expected_h(&self, h: &[Hdr]) -> Vec<String> {
        match &self.manual {
            Some(v) => v.clone(),
            None => h
                .iter()
                .rev()
                .filter(|(n, _)| DEFAULT_SIGNED.iter().any(|d| d.eq_ignore_ascii_case(n)))
                .map(|(n, _)| n.clone())
                .collect(),
        }
    }

    pub fn query_name(&self) -> String {
        world::query_name(&self.selector, &self.domain)
    }
}

/// RFC 6376 section 5.4.1, as documented by the library.
pub const DEFAULT_SIGNED: &[&str] = &[
    "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To",
    "Resent-Cc", "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe",
    "List-Subscribe", "List-Post", "List-Owner", "List-Archive",
];

pub fn good_key(r: &mut Rng) -> &'static TestKey {
    world::key(match r.below(40) {
        0 => "rsa4096",
        1 => "rsa3072",
        2 => "rsa2047",
        3 | 4 => "rsa2048",
        5 => "rsa1536",
        6 => "rsa1025",
        7 => "rsa1032",
        8 => "rsa1024e3",
        9..=14 => "rsa1024",
        15..=18 => "rsa1024b",
        19..=24 => "ed_b",
        25..=28 => "ed_c",
        _ => "ed_a",
    })
}

pub fn ext_value(r: &mut Rng, ascii: bool) -> String {
    loop {
        let mut s = match r.below(12) {
            0 => String::new(),
            1 => "x".repeat(edge(r, 300)),
            2 => "a=b=".into(),
            3 => "x y\tz".into(),
            4 if r.coin() => "x\r\n y".into(),
            5 => "ümläut 中".into(),
            6 => "!\"#$%&'()*+,-./:<=>?@[\\]^_`{|}~".into(),
            7 => "b=c".into(),
            _ => {
                let n = 1 + r.below(12);
                (0..n).map(|_| *r.pick(b"abcxyz0189:,/=-") as char).collect()
            }
        };
        if ascii {
            s = s.replace(|c: char| !c.is_ascii(), "");
        }
        if s.trim() == s {
            return s;
        }
    }
}

/// Removes requests for more DKIM-Signature fields than there are. Those would
/// not survive another signature being put on top.
pub fn no_spare_signatures(s: &mut Spec, h: &[Hdr]) {
    let Some(names) = &mut s.manual else { return };
    let mut n = h.iter().filter(|h| crate::refv::is_sig(h)).count();
    names.retain(|m| {
        let sig = m.eq_ignore_ascii_case("DKIM-Signature");
        if sig && n == 0 {
            return false;
        }
        n -= sig as usize;
        true
    });
}

/// The names for a manual selection.
pub fn manual_names(r: &mut Rng, h: &[Hdr]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (n, _) in h {
        if r.coin() && !n.contains(';') {
            v.push(if r.one_in(4) { recase(r, n) } else { n.clone() });
        }
    }
    // absent names and oversigning
    for _ in 0..r.below(4) {
        let n = match r.below(7) {
            0 | 1 => field_name(r),
            2 | 3 => "From".into(),
            4 if r.coin() => "DKIM-Signature".into(),
            _ if !h.is_empty() => h[r.below(h.len())].0.clone(),
            _ => "To".into(),
        };
        if !n.contains(';') {
            v.push(n);
        }
    }
    if r.one_in(40) {
        for _ in 0..edge(r, 300) {
            v.push((*r.pick(COMMON)).into());
        }
    }
    if r.one_in(3) {
        r.shuffle(&mut v);
    }
    if !v.iter().any(|n| n.eq_ignore_ascii_case("from")) {
        let i = r.below(v.len() + 1);
        let n = if r.one_in(4) { recase(r, "From") } else { "From".into() };
        v.insert(i, n);
    }
    v
}

pub const BIG_TIMES: &[u64] = &[
    0, 1, 2, 299, 300, 301, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff,
    0x1_0000_0000, 999_999_999_999, 1 << 53, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
    u64::MAX - 301, u64::MAX - 300, u64::MAX - 1, u64::MAX,
];

/// A request that is valid for the message. Body lengths may be excessive.
pub fn spec(r: &mut Rng, h: &[Hdr], canon_len: impl Fn(bool) -> usize) -> Spec {
    let key = good_key(r);
    let mut s = Spec::plain(key);
    s.sha1 = world::SHA1 && !key.ed && r.one_in(3);
    s.hc = r.coin();
    s.bc = r.coin();
    s.domain = domain(r);
    s.selector = selector(r);
    if r.coin() {
        s.manual = Some(manual_names(r, h));
    }
    s.ascii = r.one_in(3);
    if r.one_in(2) {
        let d = subdomain(r, &s.domain);
        s.identity = Some(if r.one_in(3) { format!("@{d}") } else { format!("{}@{d}", local_part(r)) });
    }
    let len = canon_len(s.bc) as u64;
    s.bl = match r.below(6) {
        0 => Bl::All,
        1 => Bl::Exact(if len == 0 { 0 } else { r.below(len as usize + 1) as u64 }),
        2 => Bl::Exact(*r.pick(&[0, 1, len, len.saturating_sub(1), len.saturating_sub(2)]).min(&len)),
        _ => Bl::No,
    };
    s.ts = match r.below(6) {
        0 => Ts::None,
        1 => Ts::Now,
        2 => Ts::Exact(*r.pick(BIG_TIMES)),
        _ => Ts::Exact(1_600_000_000 + r.below(200_000_000) as u64),
    };
    s.valid = match r.below(6) {
        0 => Some(Duration::from_secs(1)),
        1 => Some(Duration::from_millis(1000 + r.below(5000) as u64)),
        2 => Some(Duration::from_secs((*r.pick(BIG_TIMES)).max(1))),
        3 => Some(Duration::from_secs(432_000)),
        _ => None,
    };
    // The expiration must lie after the timestamp, or else it is not a valid
    // signature; this happens only at the end of time.
    if matches!(s.ts, Ts::Exact(u64::MAX)) {
        s.valid = None;
    }
    s.copy = r.one_in(3);
    for _ in 0..r.below(3) {
        let n = match r.below(5) {
            0 => "r".to_string(),
            1 => "X_1".into(),
            2 => (*r.pick(&["B", "bb", "hh", "b_", "BH", "zz", "V", "ab", "cs", "tt"])).into(),
            3 => "n".repeat(1 + edge(r, 90)),
            _ => format!("x{}", r.below(100)),
        };
        if !s.ext.iter().any(|e| e.0 == n) {
            let v = ext_value(r, s.ascii);
            s.ext.push((n, v));
        }
        // names that differ in case only
        let other = s.ext.last().map(|e| e.0.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>());
        if let Some(n) = other.filter(|n| !TAGS.contains(&n.as_str()) && !s.ext.iter().any(|e| e.0 == *n)) {
            if r.one_in(6) {
                let v = ext_value(r, s.ascii);
                s.ext.push((n, v));
            }
        }
    }
    if r.one_in(3) {
        s.name = recase(r, "DKIM-Signature");
    }
    s.width = match r.below(5) {
        0 => 1 + r.below(40),
        1 => 1 + r.below(120),
        2 => *r.pick(&[1, 2, 3, 14, 15, 16, 17, 18, 19, 20, 72, 76, 77, 79, 80, 998, 1000, usize::MAX]),
        _ => 78,
    };
    if r.one_in(3) {
        let n = if r.one_in(6) { edge(r, 100).max(1) } else { 1 + r.below(5) };
        s.indent = String::from_utf8(wsp(r, n)).unwrap();
    }
    s.order = match r.below(10) {
        0 => Order::Reverse,
        1 => Order::Alpha,
        2 | 3 => Order::Rank(r.u64()),
        4 => Order::Equal,
        5 => Order::First(*r.pick(&["b", "bh", "h", "z", "t", "a"])),
        6 => Order::Last(*r.pick(&["b", "v", "h", "d", "bh", "z"])),
        _ => Order::Default,
    };
    s
}

/// Several requests with distinct key locations.
/// A request like the given one but for a few things, possibly none.
pub fn related(r: &mut Rng, s: &Spec, h: &[Hdr], canon_len: impl Fn(bool) -> usize) -> Spec {
    let d = spec(r, h, canon_len);
    let mut s = s.clone();
    for _ in 0..r.below(4) {
        match r.below(13) {
            0 => s.manual = d.manual.clone(),
            1 => (s.bl, s.bc) = (d.bl.clone(), d.bc),
            2 => s.hc = d.hc,
            3 => (s.ts, s.valid) = (d.ts.clone(), d.valid),
            4 => s.copy = d.copy,
            5 => s.name = d.name.clone(),
            6 => s.width = d.width,
            7 => s.indent = d.indent.clone(),
            8 => s.order = d.order.clone(),
            9 => s.identity = None,
            10 => (s.ext, s.ascii) = (d.ext.clone(), d.ascii),
            11 => (s.key, s.sha1, s.selector) = (d.key, d.sha1, d.selector.clone()),
            _ => (s.domain, s.identity) = (d.domain.clone(), d.identity.clone()),
        }
    }
    s
}

/// Several requests, independent of each other or related.
pub fn some_specs(r: &mut Rng, n: usize, h: &[Hdr], canon_len: impl Fn(bool) -> usize) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    while v.len() < n {
        let s = if v.is_empty() || !r.one_in(3) {
            spec(r, h, &canon_len)
        } else {
            let o = r.pick(&v).clone();
            related(r, &o, h, &canon_len)
        };
        v.push(s);
    }
    v
}

pub fn specs(r: &mut Rng, n: usize, h: &[Hdr], canon_len: impl Fn(bool) -> usize) -> Vec<Spec> {
    let mut v: Vec<Spec> = vec![];
    while v.len() < n {
        let s = if v.is_empty() || !r.one_in(3) {
            spec(r, h, &canon_len)
        } else {
            let o = r.pick(&v).clone();
            related(r, &o, h, &canon_len)
        };
        if v.iter().all(|o| o.query_name() != s.query_name() || o.key.name == s.key.name) {
            v.push(s);
        }
    }
    if n > 1 {
        v.iter_mut().for_each(|s| no_spare_signatures(s, h));
    }
    v
}

// ---------------------------------------------------------------- foreign signer

/// Folding whitespace the grammar permits, single fold.
pub fn fws(r: &mut Rng) -> String {
    let a = {
        let n = r.below(3);
        String::from_utf8(wsp(r, n)).unwrap()
    };
    if r.one_in(3) {
        let n = 1 + r.below(3);
        format!("{a}\r\n{}", String::from_utf8(wsp(r, n)).unwrap())
    } else {
        a
    }
}

pub fn maybe_fws(r: &mut Rng, pct: usize) -> String {
    if r.pct(pct) {
        fws(r)
    } else {
        String::new()
    }
}

/// Inserts folding whitespace between the characters of base64 text.
pub fn sprinkle(r: &mut Rng, s: &str, pct: usize) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && r.pct(pct) {
            o.push_str(&fws(r));
        }
        o.push(c);
    }
    o
}

/// Quoted-printable with arbitrary choices of what to encode.
pub fn qp_any(r: &mut Rng, b: &[u8], protect: &[u8], pct: usize) -> String {
    let mut o = String::new();
    let lossless = std::str::from_utf8(b).is_ok();
    let s: Vec<char> = if lossless { String::from_utf8(b.to_vec()).unwrap().chars().collect() } else { vec![] };
    let enc = |o: &mut String, r: &mut Rng, x: u8| {
        if r.coin() {
            o.push_str(&format!("={x:02X}"));
        } else {
            o.push_str(&format!("={x:02x}"));
        }
    };
    if lossless {
        for c in s {
            let safe = !c.is_ascii()
                || (c.is_ascii_graphic() && c != ';' && c != '=' && !protect.contains(&(c as u8)));
            if safe && !r.pct(pct) {
                o.push(c);
            } else {
                let mut buf = [0; 4];
                for x in c.encode_utf8(&mut buf).bytes() {
                    enc(&mut o, r, x);
                }
            }
        }
    } else {
        for &x in b {
            let safe = x.is_ascii_graphic() && x != b';' && x != b'=' && !protect.contains(&x);
            if safe && !r.pct(pct) {
                o.push(x as char);
            } else {
                enc(&mut o, r, x);
            }
        }
    }
    o
}

/// A valid random tag list piece order with FWS around; `trail` adds a final `;`.
pub fn join_tags(r: &mut Rng, tags: &[(String, String)], pct: usize) -> String {
    let mut o = String::new();
    for (i, (n, v)) in tags.iter().enumerate() {
        if i > 0 {
            o.push(';');
        }
        // the leading whitespace of a header value matters not at all
        o.push_str(&maybe_fws(r, pct));
        o.push_str(n);
        o.push_str(&maybe_fws(r, pct / 3));
        o.push('=');
        o.push_str(&maybe_fws(r, pct / 3));
        o.push_str(v);
        if !v.is_empty() {
            o.push_str(&maybe_fws(r, pct / 3));
        }
    }
    if r.one_in(3) {
        o.push(';');
    }
    o
}

/// A signature made by an independent signer.
#[derive(Clone)]
pub struct Foreign {
    pub name: String,
    pub value: String,
    pub key: &'static TestKey,
    pub domain: String,
    pub selector: String,
    pub h: Vec<String>,
    pub hc: bool,
    pub bc: bool,
    pub l: Option<u64>,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub identity: Option<String>,
    pub sha1: bool,
}

/// Parameters of a foreign signature, by default plain.
#[derive(Clone)]
pub struct ForeignSpec {
    pub key: &'static TestKey,
    pub sha1: bool,
    pub hc: bool,
    pub bc: bool,
    pub domain: String,
    pub selector: String,
    pub h: Vec<String>,
    pub l: Option<u64>,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub identity: Option<String>,
    /// corrupt the body hash, the data hash, or the signature itself
    pub bad_bh: bool,
    pub bad_data: bool,
    pub bad_sig: bool,
    /// percentage of folding whitespace; 0 is a plain layout
    pub odd: usize,
    pub extra: Vec<(String, String)>,
}

impl ForeignSpec {
    pub fn plain(key: &'static TestKey) -> Self {
        ForeignSpec {
            key,
            sha1: false,
            hc: true,
            bc: true,
            domain: "example.com".into(),
            selector: "sel".into(),
            h: vec!["From".into()],
            l: None,
            t: None,
            x: None,
            identity: None,
            bad_bh: false,
            bad_data: false,
            bad_sig: false,
            odd: 0,
            extra: vec![],
        }
    }

    /// Signs headers and body. The canonical body is that of the model.
    pub fn sign(&self, r: &mut Rng, h: &[Hdr], body: &[u8]) -> Foreign {
        let canon = model::body_canon(self.bc, body).remove(0);
        let cut = match self.l {
            Some(l) => &canon[..canon.len().min(l.try_into().unwrap_or(usize::MAX))],
            None => &canon[..],
        };
        let mut bh = model::hash(self.sha1, cut);
        if self.bad_bh {
            match r.below(6) {
                0 => bh.truncate(1 + r.clone().below(31)),
                1 => bh.push(0),
                2 => bh = model::hash(!self.sha1, cut),
                _ => {
                    let i = r.below(bh.len());
                    bh[i] ^= 1 << r.below(8);
                }
            }
        }
        let odd = self.odd;
        let rc = |r: &mut Rng, s: &str| if odd > 0 { recase(r, s) } else { s.to_string() };
        let a = match (self.key.ed, self.sha1) {
            (true, _) => "ed25519-sha256",
            (false, true) => "rsa-sha1",
            (false, false) => "rsa-sha256",
        };
        let mut tags: Vec<(String, String)> = vec![
            ("v".into(), "1".into()),
            ("a".into(), rc(r, a)),
            ("d".into(), self.domain.clone()),
            ("s".into(), self.selector.clone()),
        ];
        let c = match (self.hc, self.bc) {
            (false, false) if r.coin() => None,
            (false, false) if r.coin() => Some("simple".to_string()),
            (true, false) if r.coin() => Some("relaxed".to_string()),
            (h, b) => Some(format!("{}/{}", canon_name(h), canon_name(b))),
        };
        if let Some(c) = c {
            tags.push(("c".into(), rc(r, &c)));
        }
        if let Some(i) = &self.identity {
            let p = if odd > 0 { 20 } else { 0 };
            let mut v = qp_any(r, i.as_bytes(), b"", p);
            if odd > 0 && r.coin() {
                // whitespace between encoded characters, not within one
                let k: Vec<usize> =
                    (1..v.len()).filter(|&k| v.is_char_boundary(k) && !v[..k].ends_with('=') && !(k >= 2 && v.as_bytes()[k - 2] == b'=')).collect();
                if !k.is_empty() {
                    let k = *r.pick(&k);
                    let w = fws(r);
                    v.insert_str(k, &w);
                }
            }
            tags.push(("i".into(), v));
        }
        if let Some(l) = self.l {
            tags.push(("l".into(), zeros(r, l, odd)));
        }
        if let Some(t) = self.t {
            tags.push(("t".into(), zeros(r, t, odd)));
        }
        if let Some(x) = self.x {
            tags.push(("x".into(), zeros(r, x, odd)));
        }
        let mut hv = String::new();
        for (i, n) in self.h.iter().enumerate() {
            if i > 0 {
                hv.push_str(&maybe_fws(r, odd / 2));
                hv.push(':');
                hv.push_str(&maybe_fws(r, odd / 2));
            }
            hv.push_str(n);
        }
        tags.push(("h".into(), hv));
        let bh64 = model::b64_encode(&bh);
        tags.push(("bh".into(), sprinkle(r, &bh64, odd / 8)));
        tags.push(("b".into(), "\0".into()));
        if odd > 0 {
            if r.one_in(3) {
                tags.push(("q".into(), (*r.pick(&["dns/txt", "DNS/TXT", "x:dns/txt", "dns/txt : foo/bar"])).into()));
            }
            if r.one_in(3) {
                let n = 1 + r.below(3);
                let mut z = vec![];
                for _ in 0..n {
                    let (n, v) = (field_name(r), field_value(r));
                    let n = qp_any(r, n.as_bytes(), b"|:", 5);
                    z.push(format!("{n}:{}", qp_any(r, &v, b"|", 5)));
                }
                tags.push(("z".into(), z.join("|")));
            }
            if r.one_in(3) {
                tags.push(("r".into(), "y".into()));
            }
        }
        tags.extend(self.extra.iter().cloned());
        if odd > 0 {
            r.shuffle(&mut tags);
        }
        let template = loop {
            let t = if odd > 0 {
                join_tags(r, &tags, odd)
            } else {
                let v: Vec<String> = tags.iter().map(|(n, v)| format!("{n}={v}")).collect();
                format!(" {}", v.join("; "))
            };
            // must not end in a fold
            if model::valid_field_body(t.replace('\0', "x").as_bytes()) {
                break t;
            }
        };
        let name = if odd > 0 && r.one_in(3) { recase(r, "DKIM-Signature") } else { "DKIM-Signature".into() };
        let without = model::empty_b(&template);
        let mut data = vec![];
        for i in model::select(h, &self.h) {
            data.extend(model::header_canon(self.hc, &h[i].0, &h[i].1));
            data.extend(b"\r\n");
        }
        data.extend(model::header_canon(self.hc, &name, without.as_bytes()));
        let mut digest = model::hash(self.sha1, &data);
        if self.bad_data {
            let i = r.below(digest.len());
            digest[i] ^= 1 << r.below(8);
        }
        let mut sig = self.key.sign_digest(self.sha1, &digest);
        if self.bad_sig {
            let i = r.below(sig.len());
            sig[i] ^= 1 << r.below(8);
        }
        let b = model::b64_encode(&sig);
        let b = sprinkle(r, &b, odd / 10);
        let value = template.replacen('\0', &b, 1);
        Foreign {
            name,
            value,
            key: self.key,
            domain: self.domain.clone(),
            selector: self.selector.clone(),
            h: self.h.clone(),
            hc: self.hc,
            bc: self.bc,
            l: self.l,
            t: self.t,
            x: self.x,
            identity: self.identity.clone(),
            sha1: self.sha1,
        }
    }
}

fn zeros(r: &mut Rng, n: u64, odd: usize) -> String {
    if odd > 0 && r.one_in(5) {
        let k = 1 + r.below(5);
        format!("{}{n}", "0".repeat(k))
    } else {
        n.to_string()
    }
}

/// A word nearly, or not at all, the given one.
pub fn near_word(r: &mut Rng, w: &str) -> String {
    let mut v: Vec<char> = w.chars().collect();
    let any = |r: &mut Rng| *r.pick(&['a', 'x', 's', '0', '1', '2', '3', '5', '6', '-', '-', '/', '_', 'S', 'Z']);
    for _ in 0..1 + r.below(3) {
        let i = r.below(v.len() + 1);
        match r.below(7) {
            0 if v.len() > 1 => {
                v.remove(i.min(v.len() - 1));
            }
            1 if !v.is_empty() => {
                let k = i.min(v.len() - 1);
                v[k] = any(r);
            }
            2 => {
                // something put in: sha3-256, sha512-256
                let k = 1 + r.below(4);
                for _ in 0..k {
                    let a = any(r);
                    v.insert(i, a);
                }
            }
            3 => {
                let a = any(r);
                v.push(a);
            }
            4 => {
                let a = any(r);
                v.insert(0, a);
            }
            5 => v.truncate(i.max(1)),
            _ => {
                let w: Vec<char> = (*r.pick(&["sha3", "sha512", "sha-256", "sha1", "y", "s", "em", "rsa", "txt"])).chars().collect();
                v.splice(0..i, w);
            }
        }
    }
    v.into_iter().collect()
}

/// A list of known words, nearly known ones and unknown ones.
pub fn word_list(r: &mut Rng, known: &[&str]) -> String {
    let n = 1 + r.below(3);
    let mut v = String::new();
    for i in 0..n {
        if i > 0 {
            v.push_str(r.pick(&[":", ":", " : ", ": "]));
        }
        let w = *r.pick(known);
        let w = match r.below(5) {
            0 => w.to_string(),
            1 => recase(r, w),
            2 => (*r.pick(&["x", "foo", "sha512", "sha3-256", "sha512-256", "sha224", "none", "all", "yes", "e-mail"])).into(),
            _ => near_word(r, w),
        };
        v.push_str(&w);
    }
    v
}

/// A key record for the key in any permitted form.
pub fn record_any(r: &mut Rng, key: &TestKey, odd: usize) -> String {
    let p = model::b64_encode(&key.public(r.coin()));
    let mut tags = vec![];
    if !key.ed && r.coin() {
    } else {
        tags.push(("k".to_string(), recase(r, key.k())));
    }
    tags.push(("p".into(), sprinkle(r, &p, odd / 10)));
    if r.one_in(3) {
        let v = if world::SHA1 {
            *r.pick(&["sha1:sha256", "SHA256:sha1", "sha1 : sha256:x"])
        } else {
            *r.pick(&["sha256", "sha1:sha256", "SHA256", "foo : sha256"])
        };
        tags.push(("h".into(), v.into()));
    }
    if r.one_in(3) {
        tags.push(("s".into(), (*r.pick(&["*", "email", "EMAIL", "foo:*", "email : *"])).into()));
    }
    if r.one_in(3) {
        tags.push(("t".into(), (*r.pick(&["y", "Y", "y:z", "q"])).into()));
    }
    if r.one_in(4) {
        tags.push(("n".into(), (*r.pick(&["", "hello=20you", "hi there", "ümlaut"])).into()));
    }
    if r.one_in(4) {
        tags.push(("x_".into(), "foo".into()));
    }
    r.shuffle(&mut tags);
    if r.coin() {
        tags.insert(0, ("v".into(), "DKIM1".into()));
    }
    join_tags(r, &tags, odd)
}
