//! Reference models written from RFC 6376/8463/5321 and independent of the
//! library's code. They look at complete inputs at once, with no state machine.
//! Trusted from outside: the `idna` crate for non-ASCII and `xn--` names, and
//! the hash functions.

use num_bigint_dig::BigUint;
use std::collections::HashSet;

pub type Hdr = (String, Vec<u8>);

// ---------------------------------------------------------------- bodies

fn lines_of(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
    let mut lines = vec![];
    let mut start = 0;
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == b'\r' && b[i + 1] == b'\n' {
            lines.push(&b[start..i]);
            i += 2;
            start = i;
        } else {
            i += 1;
        }
    }
    (lines, &b[start..])
}

pub fn body_simple(b: &[u8]) -> Vec<u8> {
    let mut s = b;
    while s.ends_with(b"\r\n") {
        s = &s[..s.len() - 2];
    }
    let mut v = s.to_vec();
    v.extend(b"\r\n");
    v
}

fn relax_line(l: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for &c in l {
        if c == b' ' || c == b'\t' {
            if v.last() != Some(&b' ') {
                v.push(b' ');
            }
        } else {
            v.push(c);
        }
    }
    if v.last() == Some(&b' ') {
        v.pop();
    }
    v
}

/// Is the body's final line unterminated and whitespace only (unspecified)?
pub fn body_relaxed_unspecified(b: &[u8]) -> bool {
    let (_, f) = lines_of(b);
    !f.is_empty() && f.iter().all(|c| matches!(c, b' ' | b'\t'))
}

pub fn body_relaxed(b: &[u8]) -> Vec<u8> {
    let (lines, f) = lines_of(b);
    let mut ls: Vec<Vec<u8>> = lines.into_iter().map(relax_line).collect();
    ls.push(relax_line(f));
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    let mut v = vec![];
    for l in ls {
        v.extend(l);
        v.extend(b"\r\n");
    }
    v
}

/// The permissible canonical forms of a body.
pub fn body_canon(relaxed: bool, b: &[u8]) -> Vec<Vec<u8>> {
    if relaxed {
        let c = body_relaxed(b);
        if body_relaxed_unspecified(b) {
            let mut d = c.clone();
            d.extend(b"\r\n");
            vec![c, d]
        } else {
            vec![c]
        }
    } else {
        vec![body_simple(b)]
    }
}

// ---------------------------------------------------------------- headers

pub fn header_canon(relaxed: bool, name: &str, value: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    if !relaxed {
        out.extend(name.as_bytes());
        out.push(b':');
        out.extend(value);
        return out;
    }
    out.extend(name.bytes().map(|c| c.to_ascii_lowercase()));
    out.push(b':');
    let words: Vec<&[u8]> = value
        .split(|c| matches!(c, b' ' | b'\t' | b'\r' | b'\n'))
        .filter(|w| !w.is_empty())
        .collect();
    out.extend(words.join(&b' '));
    out
}

/// Indexes of the selected header instances, bottom-up per name.
pub fn select(headers: &[Hdr], list: &[String]) -> Vec<usize> {
    let mut used = HashSet::new();
    let mut r = vec![];
    for n in list {
        let i = (0..headers.len())
            .rev()
            .find(|i| headers[*i].0.eq_ignore_ascii_case(n) && !used.contains(i));
        if let Some(i) = i {
            used.insert(i);
            r.push(i);
        }
    }
    r
}

pub fn signed_data(
    relaxed: bool,
    headers: &[Hdr],
    list: &[String],
    sig_name: &str,
    sig_value: &str,
) -> Vec<u8> {
    let mut v = vec![];
    for i in select(headers, list) {
        v.extend(header_canon(relaxed, &headers[i].0, &headers[i].1));
        v.extend(b"\r\n");
    }
    v.extend(header_canon(relaxed, sig_name, empty_b(sig_value).as_bytes()));
    v
}

/// The signature header value with the value of the b= tag removed.
pub fn empty_b(value: &str) -> String {
    let pieces: Vec<String> = value
        .split(';')
        .map(|p| match p.split_once('=') {
            Some((n, _)) if n.trim_matches(|c| matches!(c, ' ' | '\t' | '\r' | '\n')) == "b" => {
                format!("{n}=")
            }
            _ => p.to_string(),
        })
        .collect();
    pieces.join(";")
}

pub fn valid_field_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| (0x21..=0x7e).contains(&c) && c != b':')
}

pub fn valid_field_body(b: &[u8]) -> bool {
    let (lines, last) = lines_of(b);
    for (i, l) in lines.iter().copied().chain([last]).enumerate() {
        if l.iter().any(|&c| (c < 0x20 && c != b'\t') || c == 0x7f) {
            return false;
        }
        if i > 0 {
            if !matches!(l.first(), Some(b' ' | b'\t')) {
                return false;
            }
            if !l.iter().any(|c| !matches!(c, b' ' | b'\t')) {
                return false;
            }
        }
    }
    true
}

// ---------------------------------------------------------------- base64, qp

pub enum Dec {
    Ok(Vec<u8>),
    Bad,
    Unspec,
}

pub fn b64_encode(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(T[(v >> (18 - 6 * k)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn b64_decode(s: &str) -> Dec {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Dec::Bad;
    }
    let mut out = vec![];
    let mut unspec = false;
    let n = b.len() / 4;
    for (i, q) in b.chunks(4).enumerate() {
        let pads = q.iter().rev().take_while(|c| **c == b'=').count();
        if pads > 2 || (pads > 0 && i + 1 != n) {
            return Dec::Bad;
        }
        let mut v = 0u32;
        for c in &q[..4 - pads] {
            let d = match c {
                b'A'..=b'Z' => c - b'A',
                b'a'..=b'z' => c - b'a' + 26,
                b'0'..=b'9' => c - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return Dec::Bad,
            };
            v = v << 6 | d as u32;
        }
        v <<= 6 * pads;
        let by = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if by[3 - pads..].iter().any(|x| *x != 0) {
            unspec = true; // non-canonical trailing bits
        }
        out.extend(&by[..3 - pads]);
    }
    if unspec {
        Dec::Unspec
    } else {
        Dec::Ok(out)
    }
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ws {
    Empty,
    Fws,
    Multi,
    Bad,
}

pub fn ws_class(r: &str) -> Ws {
    if r.is_empty() {
        return Ws::Empty;
    }
    let parts: Vec<&str> = r.split("\r\n").collect();
    for (i, p) in parts.iter().enumerate() {
        if p.contains(['\r', '\n']) {
            return Ws::Bad;
        }
        if i > 0 && p.is_empty() {
            return Ws::Bad;
        }
    }
    if parts.len() <= 2 {
        Ws::Fws
    } else {
        Ws::Multi
    }
}

fn take_ws(c: &[char], i: &mut usize) -> Ws {
    let a = *i;
    while *i < c.len() && is_ws(c[*i]) {
        *i += 1;
    }
    ws_class(&c[a..*i].iter().collect::<String>())
}

fn safe_char(c: char) -> bool {
    !c.is_ascii() || (c.is_ascii_graphic() && c != ';' && c != '=')
}

pub fn qp_decode(s: &str) -> Dec {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    let mut unspec = false;
    let mut ws = |c: &[char], i: &mut usize| match take_ws(c, i) {
        Ws::Bad => false,
        Ws::Multi => {
            unspec = true;
            true
        }
        _ => true,
    };
    while i < c.len() {
        if is_ws(c[i]) {
            if !ws(&c, &mut i) {
                return Dec::Bad;
            }
        } else if c[i] == '=' {
            i += 1;
            let mut v = 0;
            for _ in 0..2 {
                if !ws(&c, &mut i) {
                    return Dec::Bad;
                }
                match c.get(i).and_then(|c| c.to_digit(16)) {
                    Some(d) => v = v * 16 + d,
                    None => return Dec::Bad,
                }
                i += 1;
            }
            out.push(v as u8);
        } else if safe_char(c[i]) {
            out.extend(c[i].to_string().bytes());
            i += 1;
        } else {
            return Dec::Bad;
        }
    }
    if unspec {
        Dec::Unspec
    } else {
        Dec::Ok(out)
    }
}

pub fn qp_section_decode(s: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        if c[i] == '=' {
            let h = c.get(i + 1).and_then(|c| c.to_digit(16))?;
            let l = c.get(i + 2).and_then(|c| c.to_digit(16))?;
            out.push((h * 16 + l) as u8);
            i += 3;
        } else if safe_char(c[i]) || c[i] == ' ' || c[i] == '\t' {
            out.extend(c[i].to_string().bytes());
            i += 1;
        } else {
            return None;
        }
    }
    Some(out)
}

// ---------------------------------------------------------------- tag lists

#[derive(Debug, PartialEq)]
pub enum TagErr {
    Bad,
    Unspec,
}

pub fn tag_list(s: &str) -> Result<Vec<(String, String)>, TagErr> {
    let mut pieces: Vec<&str> = s.split(';').collect();
    if pieces.len() > 1 && pieces.last() == Some(&"") {
        pieces.pop();
    }
    let mut tags: Vec<(String, String)> = vec![];
    let mut unspec = false;
    for p in pieces {
        let (l, r) = p.split_once('=').ok_or(TagErr::Bad)?;
        let name = l.trim_matches(is_ws);
        let value = r.trim_matches(is_ws);
        let mut it = name.chars();
        if !it.next().map_or(false, |c| c.is_ascii_alphabetic())
            || !it.all(|c| c.is_ascii_alphanumeric() || c == '_')
        {
            return Err(TagErr::Bad);
        }
        let lead_l = &l[..l.len() - l.trim_start_matches(is_ws).len()];
        let trail_l = &l[l.trim_end_matches(is_ws).len()..];
        let mut runs = vec![lead_l, trail_l];
        if value.is_empty() {
            runs.push(r);
        } else {
            runs.push(&r[..r.len() - r.trim_start_matches(is_ws).len()]);
            runs.push(&r[r.trim_end_matches(is_ws).len()..]);
            for w in value.split(|c| !is_ws(c)) {
                runs.push(w);
            }
        }
        for w in runs {
            match ws_class(w) {
                Ws::Bad => return Err(TagErr::Bad),
                Ws::Multi => unspec = true,
                _ => {}
            }
        }
        if value
            .chars()
            .any(|c| !is_ws(c) && c.is_ascii() && (!c.is_ascii_graphic() || c == ';'))
        {
            return Err(TagErr::Bad);
        }
        tags.push((name.into(), value.into()));
    }
    let names: HashSet<&String> = tags.iter().map(|t| &t.0).collect();
    if names.len() != tags.len() {
        return Err(TagErr::Bad);
    }
    if unspec {
        return Err(TagErr::Unspec);
    }
    Ok(tags)
}

// ---------------------------------------------------------------- names

fn is_label(s: &str) -> bool {
    !s.is_empty()
        && s.len() <= 63
        && !s.starts_with('-')
        && !s.ends_with('-')
        && s.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-' || c == b'_')
}

fn plain_ascii(s: &str) -> bool {
    s.is_ascii() && !s.to_ascii_lowercase().contains("xn--")
}

pub fn a_label(s: &str) -> Option<String> {
    if plain_ascii(s) {
        Some(s.to_ascii_lowercase())
    } else {
        idna::domain_to_ascii(s).ok()
    }
}

pub fn u_label(s: &str) -> String {
    if plain_ascii(s) {
        s.to_ascii_lowercase()
    } else {
        idna::domain_to_unicode(s).0
    }
}

pub fn valid_name(s: &str, domain: bool) -> bool {
    let Some(a) = a_label(s) else { return false };
    if !plain_ascii(s) {
        // The Unicode form must be convertible back, or names so written, as
        // in signatures produced, could not be read again.
        let (u, r) = idna::domain_to_unicode(s);
        if r.is_err() || idna::domain_to_ascii(&u).ok().as_ref() != Some(&a) {
            return false;
        }
    }
    if a.is_empty() || a.len() > 253 {
        return false;
    }
    let labels: Vec<&str> = a.split('.').collect();
    if !labels.iter().all(|l| is_label(l)) {
        return false;
    }
    !(domain && labels.last().unwrap().bytes().all(|c| c.is_ascii_digit()))
}

/// Is `name` equal to or a subdomain of `of`?
pub fn eq_or_sub(name: &str, of: &str) -> bool {
    let a = a_label(name).unwrap().to_ascii_lowercase();
    let b = a_label(of).unwrap().to_ascii_lowercase();
    let a: Vec<&str> = a.rsplit('.').collect();
    let b: Vec<&str> = b.rsplit('.').collect();
    a.len() >= b.len() && a[..b.len()] == b[..]
}

pub fn valid_local_part(s: &str) -> bool {
    if s.is_empty() || s.len() > 64 {
        return false;
    }
    let c: Vec<char> = s.chars().collect();
    if c[0] == '"' {
        let mut i = 1;
        loop {
            match c.get(i) {
                None => return false,
                Some('"') => return i + 1 == c.len(),
                Some('\\') => {
                    match c.get(i + 1) {
                        Some(c) if (' '..='~').contains(c) => {}
                        _ => return false,
                    }
                    i += 2;
                }
                Some(c) if !c.is_ascii() || (' '..='~').contains(c) => i += 1,
                Some(_) => return false,
            }
        }
    }
    s.split('.').all(|atom| {
        !atom.is_empty()
            && atom.chars().all(|c| {
                !c.is_ascii() || c.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(c)
            })
    })
}

/// (local-part, domain)
pub fn identity(s: &str) -> Option<(Option<String>, String)> {
    let i = s.rfind('@')?;
    let (l, d) = (&s[..i], &s[i + 1..]);
    if !l.is_empty() && !valid_local_part(l) {
        return None;
    }
    if !valid_name(d, true) {
        return None;
    }
    Some(((!l.is_empty()).then(|| l.to_string()), d.to_string()))
}

// ---------------------------------------------------------------- signatures

#[derive(Clone, Debug, PartialEq, Default)]
pub struct SigM {
    pub alg: String,
    pub b: Vec<u8>,
    pub bh: Vec<u8>,
    pub hc: bool,
    pub bc: bool,
    pub d: String,
    pub h: Vec<String>,
    pub i: Option<(Option<String>, String)>,
    pub l: Option<u64>,
    pub s: String,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub z: Vec<(String, Vec<u8>)>,
    pub ext: Vec<(String, String)>,
}

#[derive(Debug)]
pub enum Parse<T> {
    Ok(T),
    /// The defects present, by error name; and for signatures the raw a, b, d, i, s.
    Err(Vec<&'static str>, Option<[Option<String>; 5]>),
    Unspec,
}

fn strip_ws(s: &str) -> String {
    s.chars().filter(|c| !is_ws(*c)).collect()
}

fn colon_list(s: &str) -> Vec<String> {
    s.split(':').map(|p| p.trim_matches(is_ws).to_string()).collect()
}

fn number(s: &str) -> Option<u64> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for c in s.bytes() {
        v = v.checked_mul(10)?.checked_add((c - b'0') as u64)?;
    }
    Some(v)
}

fn canon_name(s: &str) -> Option<bool> {
    if s.eq_ignore_ascii_case("simple") {
        Some(false)
    } else if s.eq_ignore_ascii_case("relaxed") {
        Some(true)
    } else {
        None
    }
}

pub fn signature(s: &str, sha1: bool) -> Parse<SigM> {
    let tags = match tag_list(s) {
        Ok(t) => t,
        Err(TagErr::Bad) => return Parse::Err(vec!["TagListFormat"], None),
        Err(TagErr::Unspec) => return Parse::Unspec,
    };
    let get = |n: &str| tags.iter().find(|t| t.0 == n).map(|t| t.1.clone());
    let mut m = SigM::default();
    let mut bad: Vec<&'static str> = vec![];
    let mut unspec = false;
    match get("v").as_deref() {
        None => bad.push("MissingVersionTag"),
        Some("1") => {}
        Some(_) => bad.push("IncompatibleVersion"),
    }
    match get("a").map(|a| a.to_ascii_lowercase()).as_deref() {
        None => bad.push("MissingAlgorithmTag"),
        Some(a @ ("rsa-sha256" | "ed25519-sha256")) => m.alg = a.into(),
        Some("rsa-sha1") if sha1 => m.alg = "rsa-sha1".into(),
        Some("rsa-sha1") => bad.push("HistoricAlgorithm"),
        Some(_) => bad.push("UnsupportedAlgorithm"),
    }
    for (n, miss, empty) in [
        ("b", "MissingSignatureTag", "EmptySignatureTag"),
        ("bh", "MissingBodyHashTag", "EmptyBodyHashTag"),
    ] {
        match get(n) {
            None => bad.push(miss),
            Some(v) => match b64_decode(&strip_ws(&v)) {
                Dec::Ok(v) if v.is_empty() => bad.push(empty),
                Dec::Ok(v) => {
                    if n == "b" {
                        m.b = v
                    } else {
                        m.bh = v
                    }
                }
                Dec::Bad => bad.push("InvalidBase64"),
                Dec::Unspec => unspec = true,
            },
        }
    }
    if let Some(c) = get("c") {
        let (h, b) = match c.split_once('/') {
            Some((h, b)) => (canon_name(h), canon_name(b)),
            None => (canon_name(&c), Some(false)),
        };
        match (h, b) {
            (Some(h), Some(b)) => (m.hc, m.bc) = (h, b),
            _ => bad.push("UnsupportedCanonicalization"),
        }
    }
    let mut d_ok = false;
    match get("d") {
        None => bad.push("MissingDomainTag"),
        Some(d) if valid_name(&d, true) => {
            m.d = d;
            d_ok = true;
        }
        Some(_) => bad.push("InvalidDomain"),
    }
    match get("s") {
        None => bad.push("MissingSelectorTag"),
        Some(d) if valid_name(&d, false) => m.s = d,
        Some(_) => bad.push("InvalidSelector"),
    }
    match get("h") {
        None => bad.push("MissingSignedHeadersTag"),
        Some(h) if h.is_empty() => bad.push("EmptySignedHeadersTag"),
        Some(h) => {
            m.h = colon_list(&h);
            let valid = m.h.iter().all(|n| valid_field_name(n));
            if !valid {
                bad.push("InvalidSignedHeaderName");
            }
            if !m.h.iter().any(|n| n.eq_ignore_ascii_case("from")) {
                bad.push("FromHeaderNotSigned");
            }
        }
    }
    if let Some(i) = get("i") {
        match qp_decode(&i) {
            Dec::Bad => bad.push("InvalidIdentity"),
            Dec::Unspec => unspec = true,
            Dec::Ok(v) => match String::from_utf8(v).ok().and_then(|s| identity(&s)) {
                None => bad.push("InvalidIdentity"),
                Some(i) => {
                    if d_ok && !eq_or_sub(&i.1, &m.d) {
                        bad.push("DomainMismatch");
                    }
                    m.i = Some(i);
                }
            },
        }
    }
    for (n, e) in [("l", "InvalidBodyLength"), ("t", "InvalidTimestamp"), ("x", "InvalidExpiration")]
    {
        if let Some(v) = get(n) {
            let v = number(&v);
            if v.is_none() {
                bad.push(e);
            }
            match n {
                "l" => m.l = v,
                "t" => m.t = v,
                _ => m.x = v,
            }
        }
    }
    if let (Some(t), Some(x)) = (m.t, m.x) {
        if x <= t {
            bad.push("ExpirationNotAfterTimestamp");
        }
    }
    if let Some(q) = get("q") {
        let l = colon_list(&q);
        if l.iter().any(|e| e.is_empty()) {
            bad.push("InvalidQueryMethod");
        }
        if !l.iter().any(|e| e.eq_ignore_ascii_case("dns/txt")) {
            bad.push("NoSupportedQueryMethods");
        }
    }
    if let Some(z) = get("z") {
        for p in z.split('|') {
            match qp_decode(p) {
                Dec::Unspec => unspec = true,
                Dec::Bad => bad.push("InvalidCopiedHeaderField"),
                Dec::Ok(v) => {
                    let f = v.iter().position(|c| *c == b':').and_then(|i| {
                        let n = String::from_utf8(v[..i].to_vec()).ok()?;
                        valid_field_name(&n).then(|| (n, v[i + 1..].to_vec()))
                    });
                    match f {
                        Some(f) => m.z.push(f),
                        None => bad.push("InvalidCopiedHeaderField"),
                    }
                }
            }
        }
    }
    const KNOWN: [&str; 14] =
        ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"];
    m.ext = tags.iter().filter(|t| !KNOWN.contains(&t.0.as_str())).cloned().collect();
    if unspec {
        return Parse::Unspec;
    }
    if bad.is_empty() {
        Parse::Ok(m)
    } else {
        Parse::Err(bad, Some([get("a"), get("b"), get("d"), get("i"), get("s")]))
    }
}

// ---------------------------------------------------------------- key records

#[derive(Clone, Debug, PartialEq, Default)]
pub struct KeyM {
    pub h: Vec<&'static str>,
    pub k: &'static str,
    pub n: Option<String>,
    pub p: Vec<u8>,
    pub s: Vec<&'static str>,
    pub t: Vec<&'static str>,
    pub ext: Vec<(String, String)>,
}

pub fn key_record(s: &str, sha1: bool) -> Parse<KeyM> {
    let tags = match tag_list(s) {
        Ok(t) => t,
        Err(TagErr::Bad) => return Parse::Err(vec!["TagListFormat"], None),
        Err(TagErr::Unspec) => return Parse::Unspec,
    };
    let get = |n: &str| tags.iter().find(|t| t.0 == n).map(|t| t.1.clone());
    let mut bad: Vec<&'static str> = vec![];
    let mut unspec = false;
    let mut m = KeyM {
        h: if sha1 { vec!["sha256", "sha1"] } else { vec!["sha256"] },
        k: "rsa",
        s: vec!["*"],
        ..KeyM::default()
    };
    for (i, t) in tags.iter().enumerate() {
        if t.0 == "v" {
            if i != 0 {
                bad.push("MisplacedVersionTag");
            }
            if t.1 != "DKIM1" {
                bad.push("IncompatibleVersion");
            }
        }
    }
    if let Some(h) = get("h") {
        let l = colon_list(&h);
        if l.iter().any(|e| e.is_empty()) {
            bad.push("InvalidHashAlgorithm");
        }
        m.h = l
            .iter()
            .filter_map(|e| match e.to_ascii_lowercase().as_str() {
                "sha256" => Some("sha256"),
                "sha1" if sha1 => Some("sha1"),
                _ => None,
            })
            .collect();
        if m.h.is_empty() {
            bad.push("NoSupportedHashAlgorithms");
        }
    }
    if let Some(k) = get("k") {
        match k.to_ascii_lowercase().as_str() {
            "rsa" => m.k = "rsa",
            "ed25519" => m.k = "ed25519",
            _ => bad.push("UnsupportedKeyType"),
        }
    }
    if let Some(n) = get("n") {
        match qp_section_decode(&n) {
            Some(v) => m.n = Some(String::from_utf8_lossy(&v).into_owned()),
            None => bad.push("InvalidQuotedPrintable"),
        }
    }
    match get("p") {
        None => bad.push("MissingKeyTag"),
        Some(p) => match b64_decode(&strip_ws(&p)) {
            Dec::Ok(v) => m.p = v,
            Dec::Bad => bad.push("InvalidBase64"),
            Dec::Unspec => unspec = true,
        },
    }
    if let Some(s) = get("s") {
        let l = colon_list(&s);
        if l.iter().any(|e| e.is_empty()) {
            bad.push("InvalidServiceType");
        }
        m.s = l
            .iter()
            .filter_map(|e| match e.to_ascii_lowercase().as_str() {
                "*" => Some("*"),
                "email" => Some("email"),
                _ => None,
            })
            .collect();
        if m.s.is_empty() {
            bad.push("NoSupportedServiceTypes");
        }
    }
    if let Some(s) = get("t") {
        let l = colon_list(&s);
        if l.iter().any(|e| e.is_empty()) {
            bad.push("InvalidFlag");
        }
        m.t = l
            .iter()
            .filter_map(|e| match e.to_ascii_lowercase().as_str() {
                "y" => Some("y"),
                "s" => Some("s"),
                _ => None,
            })
            .collect();
    }
    const KNOWN: [&str; 7] = ["v", "h", "k", "n", "p", "s", "t"];
    m.ext = tags.iter().filter(|t| !KNOWN.contains(&t.0.as_str())).cloned().collect();
    if unspec {
        return Parse::Unspec;
    }
    if bad.is_empty() {
        Parse::Ok(m)
    } else {
        Parse::Err(bad, None)
    }
}

// ---------------------------------------------------------------- crypto

pub fn hash(sha1: bool, b: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    if sha1 {
        sha1::Sha1::digest(b).to_vec()
    } else {
        sha2::Sha256::digest(b).to_vec()
    }
}

fn digest_info(sha1: bool, digest: &[u8]) -> Vec<u8> {
    let mut v: Vec<u8> = if sha1 {
        vec![0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]
    } else {
        vec![
            0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02,
            0x01, 0x05, 0x00, 0x04, 0x20,
        ]
    };
    v.extend(digest);
    v
}

/// EMSA-PKCS1-v1_5 encoded message of `k` bytes.
pub fn emsa(sha1: bool, digest: &[u8], k: usize) -> Option<Vec<u8>> {
    let t = digest_info(sha1, digest);
    if k < t.len() + 11 {
        return None;
    }
    let mut em = vec![0, 1];
    em.resize(k - t.len() - 1, 0xff);
    em.push(0);
    em.extend(t);
    Some(em)
}

/// RSASSA-PKCS1-v1_5 verification, RFC 8017 section 8.2.2.
pub fn rsa_verify(n: &BigUint, e: &BigUint, sha1: bool, digest: &[u8], sig: &[u8]) -> bool {
    let k = (n.bits() + 7) / 8;
    if sig.len() != k {
        return false;
    }
    let s = BigUint::from_bytes_be(sig);
    if &s >= n {
        return false;
    }
    let m = s.modpow(e, n).to_bytes_be();
    let mut em = vec![0; k - m.len()];
    em.extend(m);
    emsa(sha1, digest, k) == Some(em)
}

/// RSASSA-PKCS1-v1_5 signature generation.
pub fn rsa_sign(n: &BigUint, d: &BigUint, sha1: bool, digest: &[u8]) -> Option<Vec<u8>> {
    let k = (n.bits() + 7) / 8;
    let em = BigUint::from_bytes_be(&emsa(sha1, digest, k)?);
    let m = em.modpow(d, n).to_bytes_be();
    let mut s = vec![0; k - m.len()];
    s.extend(m);
    Some(s)
}

// DER, as far as needed for public keys.

pub fn der(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    let n = content.len();
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.extend([0x81, n as u8]);
    } else {
        v.extend([0x82, (n >> 8) as u8, n as u8]);
    }
    v.extend(content);
    v
}

pub fn der_uint(n: &BigUint) -> Vec<u8> {
    let mut b = n.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    der(2, &b)
}

pub fn pkcs1_public(n: &BigUint, e: &BigUint) -> Vec<u8> {
    der(0x30, &[der_uint(n), der_uint(e)].concat())
}

pub fn spki_rsa(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let alg = der(0x30, &[0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00]);
    let mut bits = vec![0];
    bits.extend(pkcs1_public(n, e));
    der(0x30, &[alg, der(3, &bits)].concat())
}

pub fn spki_ed25519(k: &[u8]) -> Vec<u8> {
    let alg = der(0x30, &[0x06, 0x03, 0x2b, 0x65, 0x70]);
    let mut bits = vec![0];
    bits.extend(k);
    der(0x30, &[alg, der(3, &bits)].concat())
}

// Ed25519 according to RFC 8032, plain and slow.

pub mod ed {
    use num_bigint_dig::BigUint;
    use sha2::{Digest, Sha512};
    use std::sync::OnceLock;

    struct Curve {
        p: BigUint,
        l: BigUint,
        d: BigUint,
        sqrt_m1: BigUint,
        base: Point,
    }

    /// Extended coordinates.
    #[derive(Clone)]
    pub struct Point {
        x: BigUint,
        y: BigUint,
        z: BigUint,
        t: BigUint,
    }

    fn num(s: &str) -> BigUint {
        s.parse().unwrap()
    }

    fn curve() -> &'static Curve {
        static C: OnceLock<Curve> = OnceLock::new();
        C.get_or_init(|| {
            let one = BigUint::from(1u8);
            let p = (&one << 255) - 19u8;
            let l = (&one << 252) + num("27742317777372353535851937790883648493");
            let inv = |n: BigUint| n.modpow(&(&p - 2u8), &p);
            let d = (&p - BigUint::from(121665u32)) * inv(BigUint::from(121666u32)) % &p;
            let sqrt_m1 = BigUint::from(2u8).modpow(&((&p - 1u8) / 4u8), &p);
            let y = BigUint::from(4u8) * inv(BigUint::from(5u8)) % &p;
            let mut c = Curve {
                p: p.clone(),
                l,
                d,
                sqrt_m1,
                base: Point { x: one.clone(), y: y.clone(), z: one.clone(), t: one },
            };
            let x = recover_x(&c, &y, false).unwrap();
            c.base = affine(&c, x, y);
            c
        })
    }

    fn affine(c: &Curve, x: BigUint, y: BigUint) -> Point {
        let t = &x * &y % &c.p;
        Point { x, y, z: BigUint::from(1u8), t }
    }

    fn recover_x(c: &Curve, y: &BigUint, sign: bool) -> Option<BigUint> {
        let (zero, one) = (BigUint::from(0u8), BigUint::from(1u8));
        let y2 = y * y % &c.p;
        let u = (&y2 + &c.p - &one) % &c.p;
        let v = (&c.d * &y2 + &one) % &c.p;
        let x2 = u * v.modpow(&(&c.p - 2u8), &c.p) % &c.p;
        if x2 == zero {
            return (!sign).then_some(zero);
        }
        let mut x = x2.modpow(&((&c.p + 3u8) / 8u8), &c.p);
        if &x * &x % &c.p != x2 {
            x = x * &c.sqrt_m1 % &c.p;
        }
        if &x * &x % &c.p != x2 {
            return None;
        }
        if (&x % 2u8 == one) != sign {
            x = &c.p - x;
        }
        Some(x)
    }

    /// The point encoded in the 32 bytes; only in canonical encoding.
    pub fn decode(b: &[u8]) -> Option<Point> {
        let c = curve();
        if b.len() != 32 {
            return None;
        }
        let mut b = b.to_vec();
        let sign = b[31] & 0x80 != 0;
        b[31] &= 0x7f;
        let y = BigUint::from_bytes_le(&b);
        if y >= c.p {
            return None;
        }
        let x = recover_x(c, &y, sign)?;
        Some(affine(c, x, y))
    }

    fn le32(n: &BigUint) -> Vec<u8> {
        let mut v = n.to_bytes_le();
        v.resize(32, 0);
        v
    }

    pub fn encode(q: &Point) -> Vec<u8> {
        let c = curve();
        let zi = q.z.modpow(&(&c.p - 2u8), &c.p);
        let (x, y) = (&q.x * &zi % &c.p, &q.y * &zi % &c.p);
        let mut v = le32(&y);
        if x % 2u8 == BigUint::from(1u8) {
            v[31] |= 0x80;
        }
        v
    }

    fn add(q: &Point, r: &Point) -> Point {
        let c = curve();
        let p = &c.p;
        let a = (&q.y + p - &q.x) * (&r.y + p - &r.x) % p;
        let b = (&q.y + &q.x) * (&r.y + &r.x) % p;
        let cc = &q.t * &r.t % p * 2u8 * &c.d % p;
        let d = &q.z * &r.z * 2u8 % p;
        let (e, f, g, h) = ((&b + p - &a) % p, (&d + p - &cc) % p, (&d + &cc) % p, (&b + &a) % p);
        Point { x: &e * &f % p, y: &g * &h % p, z: &f * &g % p, t: &e * &h % p }
    }

    fn neg(q: &Point) -> Point {
        let p = &curve().p;
        Point { x: (p - &q.x) % p, t: (p - &q.t) % p, ..q.clone() }
    }

    fn mul(n: &BigUint, q: &Point) -> Point {
        let mut r = affine(curve(), BigUint::from(0u8), BigUint::from(1u8));
        for byte in n.to_bytes_be() {
            for i in (0..8).rev() {
                r = add(&r, &r);
                if byte >> i & 1 == 1 {
                    r = add(&r, q);
                }
            }
        }
        r
    }

    fn h512(parts: &[&[u8]]) -> BigUint {
        let mut h = Sha512::new();
        for p in parts {
            h.update(p);
        }
        BigUint::from_bytes_le(&h.finalize())
    }

    pub fn order() -> BigUint {
        curve().l.clone()
    }

    fn secret(seed: &[u8]) -> (BigUint, Vec<u8>) {
        let h = Sha512::digest(seed);
        let mut a = h[..32].to_vec();
        a[0] &= 248;
        a[31] &= 127;
        a[31] |= 64;
        (BigUint::from_bytes_le(&a), h[32..].to_vec())
    }

    pub fn public(seed: &[u8]) -> Vec<u8> {
        encode(&mul(&secret(seed).0, &curve().base))
    }

    pub fn sign(seed: &[u8], msg: &[u8]) -> Vec<u8> {
        let c = curve();
        let (a, prefix) = secret(seed);
        let pk = public(seed);
        let r = h512(&[&prefix, msg]) % &c.l;
        let rp = encode(&mul(&r, &c.base));
        let k = h512(&[&rp, &pk, msg]) % &c.l;
        let s = (r + k * a) % &c.l;
        [rp, le32(&s)].concat()
    }

    pub fn verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
        let c = curve();
        if sig.len() != 64 {
            return false;
        }
        let s = BigUint::from_bytes_le(&sig[32..]);
        let Some(a) = decode(pk) else { return false };
        if s >= c.l {
            return false;
        }
        let k = h512(&[&sig[..32], pk, msg]) % &c.l;
        encode(&add(&mul(&s, &c.base), &neg(&mul(&k, &a)))) == sig[..32]
    }
}
