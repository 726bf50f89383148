//! Changes to signed messages: C02 and C03. One oracle serves both: the model
//! tells whether the signed data, the covered body and b= are the same as
//! before; if so the signature must still verify, else it must not.

use super::*;
use crate::{
    case::{fail, show, show_headers, Case, R},
    ensure, refv,
};
use num_bigint_dig::BigUint;

pub fn c02() -> Vec<Workload> {
    vec![
        wl("random-changes", 6000, 500_000, c02_random),
        wl("each-byte", 8000, 400_000, c02_each),
        wl("signature-value", 4000, 200_000, c02_b),
        wl("signature-header", 5000, 300_000, c02_sig),
        wl("other-key", 800, 30_000, c02_key),
        wl("body-boundary", 4000, 250_000, c02_body),
        wl("odd-hashes", 4000, 200_000, c02_hashes),
        wl("signature-headers", 3000, 150_000, c02_signatures),
    ]
}

pub fn c03() -> Vec<Workload> {
    vec![
        wl("relaxed-headers", 4000, 300_000, c03_headers),
        wl("bodies", 5000, 300_000, c03_body),
        wl("b-whitespace", 3000, 150_000, c03_b),
        wl("unrelated-fields", 4000, 200_000, c03_extra),
        wl("mixture", 5000, 400_000, c03_mix),
    ]
}

#[derive(Clone)]
struct Msg {
    h: Vec<Hdr>,
    /// position of the signature under test
    sig: usize,
    body: Vec<u8>,
}

/// What a signature commits to.
#[derive(PartialEq, Debug)]
struct Commit {
    data: Vec<u8>,
    b: Vec<u8>,
    body: Vec<u8>,
}

enum State {
    Is(Commit),
    /// no valid signature, or not enough content
    Broken,
    Unspec,
}

fn commit(m: &Msg) -> State {
    let (n, v) = &m.h[m.sig];
    if !n.eq_ignore_ascii_case("DKIM-Signature") {
        return State::Broken;
    }
    let Ok(v) = std::str::from_utf8(v) else { return State::Broken };
    let s = match model::signature(v, world::SHA1) {
        model::Parse::Ok(s) => s,
        model::Parse::Err(..) => return State::Broken,
        model::Parse::Unspec => return State::Unspec,
    };
    if model::body_canon(s.bc, &m.body).len() > 1 {
        return State::Unspec;
    }
    let canon = model::body_canon(s.bc, &m.body).remove(0);
    let n_l = s.l.unwrap_or(canon.len() as u64);
    if n_l > canon.len() as u64 {
        return State::Broken;
    }
    State::Is(Commit {
        data: model::signed_data(s.hc, &refv::others(&m.h, m.sig), &s.h, n, v),
        b: s.b,
        body: canon[..n_l as usize].to_vec(),
    })
}

fn show_msg(m: &Msg) -> String {
    format!("{}\n    (signature is field {})\n    body {}", show_headers(&m.h), m.sig, show(&m.body))
}

struct Signed {
    msg: Msg,
    spec: Spec,
    record: String,
}

/// A signed message; None when signing did not succeed or the model leaves
/// the body open.
fn signed(r: &mut Rng, cheap: bool) -> Option<Signed> {
    let h = gen::headers(r, 12);
    let body = gen::body(r, 60);
    let mut s = gen::spec(r, &h, canon_len(&body));
    if cheap {
        s.key = world::key(if r.one_in(8) { "rsa1024" } else { "ed_a" });
        s.sha1 = false;
    }
    // Expirations and time stamps are of no interest.
    if matches!(s.ts, Ts::Exact(_)) {
        s.ts = Ts::Exact(1_700_000_000);
    }
    s.copy = r.one_in(6);
    finish(r, h, body, s)
}

fn finish(_r: &mut Rng, h: Vec<Hdr>, body: Vec<u8>, spec: Spec) -> Option<Signed> {
    let outs = sign_all(&h, std::slice::from_ref(&spec), &[&body], false).ok()?;
    let o = outs.into_iter().next()?.ok()?;
    let all = stack(&[&o], &h);
    let msg = Msg { h: all, sig: 0, body };
    let record = spec.key.record();
    Some(Signed { msg, spec, record })
}

fn outcome(m: &Msg, spec: &Spec, record: &str, chunks: &[&[u8]]) -> String {
    let d = Dns::new([(spec.query_name(), Entry::txt(record))]);
    match world::verify(&mk(&m.h), &d, &permissive(), chunks, false) {
        None => "no verifier".into(),
        Some(v) => v
            .iter()
            .find(|r| r.index == m.sig)
            .map_or("no result".into(), |r| refv::status(&r.status)),
    }
}

#[derive(PartialEq, Clone, Copy)]
enum Side {
    Changed,
    Same,
}

/// Verifies the changed message and judges the outcome, for one property.
fn judge(c: &mut Case<'_>, s: &Signed, new: &Msg, what: &[&'static str], side: Side) -> R {
    if world::to_headers(&new.h).is_none() {
        c.ev("invalid header skipped");
        return Ok(());
    }
    let before = match commit(&s.msg) {
        State::Is(x) => x,
        _ => {
            c.ev("baseline left open");
            return Ok(());
        }
    };
    let same = match commit(new) {
        State::Is(x) => x == before,
        State::Broken => false,
        State::Unspec => {
            c.ev("left open");
            return Ok(());
        }
    };
    if same != (side == Side::Same) {
        c.ev(if same { "change without effect (not judged here)" } else { "effective change (not judged here)" });
        return Ok(());
    }
    let chunks = gen::chunks(&mut c.rng, &new.body);
    let base = outcome(&s.msg, &s.spec, &s.record, &[&s.msg.body]);
    if base != "Success" {
        // That is the business of C01.
        c.ev("baseline does not verify");
        return Ok(());
    }
    let got = outcome(new, &s.spec, &s.record, &chunks);
    let desc = || format!("changes {what:?}\n  original:{}\n  changed:{}\n  request {:?}", show_msg(&s.msg), show_msg(new), s.spec);
    match side {
        Side::Changed => {
            ensure!(got != "Success", "change goes unnoticed", "verifies although signed content changed\n  {}", desc());
            c.ev("change noticed");
            c.ev(&format!("noticed as {got}"));
        }
        Side::Same => {
            ensure!(got == "Success", format!("harmless change breaks signature: {got}"), "{got} although no signed content changed\n  {}", desc());
            c.ev("change tolerated");
        }
    }
    for w in what {
        c.ev(&format!("change: {w}"));
    }
    let mut id = new.h[new.sig].1.clone();
    id.extend(&new.body);
    for h in &new.h {
        id.extend(h.0.as_bytes());
        id.extend(&h.1);
    }
    c.nontrivial(&id);
    c.sample(|| format!("{what:?}: {got}; body {}", show(&new.body)));
    Ok(())
}

// ---------------------------------------------------------------- changes

fn is_ws(c: u8) -> bool {
    matches!(c, b' ' | b'\t' | b'\r' | b'\n')
}

/// Changes folding and white space between the words of a field value.
fn refold(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let ws = |r: &mut Rng, must: bool| -> Vec<u8> {
        let k = r.below(3) + must as usize;
        let mut w = gen::wsp(r, k);
        if r.one_in(3) {
            w.extend(b"\r\n");
            let k = 1 + r.below(3);
            w.extend(gen::wsp(r, k));
        }
        w
    };
    let words: Vec<&[u8]> = v.split(|c| is_ws(*c)).filter(|w| !w.is_empty()).collect();
    for (i, w) in words.iter().enumerate() {
        out.extend(ws(r, i > 0));
        out.extend(*w);
    }
    if !words.is_empty() || r.coin() {
        let k = r.below(3);
        out.extend(gen::wsp(r, k));
    }
    out
}

fn change_bytes(r: &mut Rng, v: &mut Vec<u8>, at: Option<usize>) -> &'static str {
    let n = v.len();
    let i = at.unwrap_or_else(|| r.below(n + 1)).min(n);
    match r.below(8) {
        0 if i < n => {
            v.remove(i);
            "byte removed"
        }
        1 => {
            v.insert(i, *r.pick(b"ax0 \t;=:"));
            "byte inserted"
        }
        2 if i < n => {
            v[i] ^= 0x20;
            "case bit flipped"
        }
        3 if i < n => {
            v[i] ^= 1 << r.below(8);
            "bit flipped"
        }
        4 if i + 1 < n => {
            v.swap(i, i + 1);
            "bytes swapped"
        }
        5 if i < n => {
            let x = v[i];
            v.insert(i, x);
            "byte doubled"
        }
        6 if i < n => {
            v.truncate(i);
            "cut off"
        }
        _ => {
            if i < n {
                v[i] = *r.pick(b"qQ9. \t");
            } else {
                v.push(b'q');
            }
            "byte replaced"
        }
    }
}

/// A change anywhere in the message.
fn any_change(r: &mut Rng, m: &mut Msg) -> &'static str {
    let others: Vec<usize> = (0..m.h.len()).filter(|i| *i != m.sig).collect();
    let pick = |r: &mut Rng| *r.pick(&others);
    match r.below(24) {
        0..=2 => {
            let i = pick(r);
            change_bytes(r, &mut m.h[i].1, None);
            "field value changed"
        }
        3 => {
            let i = pick(r);
            if m.h.len() > 2 {
                m.h.remove(i);
                if i < m.sig {
                    m.sig -= 1;
                }
            }
            "field removed"
        }
        4 | 5 => {
            let i = pick(r);
            let (n, v) = m.h[i].clone();
            let v = if r.coin() { v } else { gen::field_value(r) };
            let n = gen::recase(r, &n);
            let k = r.below(m.h.len() + 1);
            m.h.insert(k, (n, v));
            if k <= m.sig {
                m.sig += 1;
            }
            "like-named field added"
        }
        6 => {
            let k = r.below(m.h.len() + 1);
            m.h.insert(k, (gen::field_name(r), gen::field_value(r)));
            if k <= m.sig {
                m.sig += 1;
            }
            "field added"
        }
        7 => {
            let (i, j) = (pick(r), pick(r));
            m.h.swap(i, j);
            "fields swapped"
        }
        8 => {
            let i = pick(r);
            m.h[i].0 = gen::recase(r, &m.h[i].0.clone());
            "field name case"
        }
        9 => {
            let i = pick(r);
            let mut v = m.h[i].0.clone().into_bytes();
            change_bytes(r, &mut v, None);
            if let Ok(s) = String::from_utf8(v) {
                m.h[i].0 = s;
            }
            "field name changed"
        }
        10 | 11 => {
            let i = pick(r);
            m.h[i].1 = refold(r, &m.h[i].1);
            "field refolded"
        }
        12 => {
            // white space introduced or lost in the middle of words
            let i = pick(r);
            let v = &mut m.h[i].1;
            if r.coin() {
                let k = r.below(v.len() + 1);
                v.insert(k, b' ');
            } else {
                v.retain(|c| !is_ws(*c));
            }
            "white space in field"
        }
        13 => {
            let s = m.sig;
            change_bytes(r, &mut m.h[s].1, None);
            "signature header changed"
        }
        14 => {
            let s = m.sig;
            m.h[s].0 = gen::recase(r, "DKIM-Signature");
            "signature header name case"
        }
        15 => {
            let s = m.sig;
            m.h[s].1 = rewrite_b(r, &m.h[s].1);
            "b= refolded"
        }
        16..=18 => {
            change_bytes(r, &mut m.body, None);
            "body byte changed"
        }
        _ => body_edit(r, &mut m.body),
    }
}

/// Edits of a body at places where canonicalization matters.
fn body_edit(r: &mut Rng, b: &mut Vec<u8>) -> &'static str {
    let ends: Vec<usize> = (0..b.len()).filter(|i| b[*i..].starts_with(b"\r\n")).collect();
    match r.below(12) {
        0 => {
            let n = 1 + r.below(4);
            b.extend(b"\r\n".repeat(n));
            "empty lines appended"
        }
        1 => {
            while b.ends_with(b"\r\n") && !r.one_in(4) {
                b.truncate(b.len() - 2);
            }
            "final line ends removed"
        }
        2 => {
            b.extend(b"appended\r\n");
            "line appended"
        }
        3 | 4 => {
            if let Some(&i) = (!ends.is_empty()).then(|| r.pick(&ends)) {
                let k = 1 + r.below(3);
                let w = gen::wsp(r, k);
                b.splice(i..i, w);
            }
            "white space before line end"
        }
        5 => {
            // white space runs
            let w: Vec<usize> = (0..b.len()).filter(|i| matches!(b[*i], b' ' | b'\t')).collect();
            if !w.is_empty() {
                let i = *r.pick(&w);
                match r.below(3) {
                    0 => {
                        b.remove(i);
                    }
                    1 => b.insert(i, b'\t'),
                    _ => b[i] ^= b' ' ^ b'\t',
                }
            }
            "white space run changed"
        }
        6 => {
            let i = r.below(b.len() + 1);
            b.insert(i, *r.pick(b" \t"));
            "white space inserted"
        }
        7 => {
            if let Some(&i) = (!ends.is_empty()).then(|| r.pick(&ends)) {
                b.remove(i + r.below(2));
            }
            "half a line end lost"
        }
        8 => {
            if let Some(&i) = (!ends.is_empty()).then(|| r.pick(&ends)) {
                b.splice(i..i, *b"\r\n");
            }
            "empty line inserted"
        }
        9 => {
            if let Some(&i) = (!ends.is_empty()).then(|| r.pick(&ends)) {
                b.drain(i..i + 2);
            }
            "lines joined"
        }
        10 => {
            let k = 1 + r.below(3);
            let w = gen::wsp(r, k);
            b.extend(w);
            b.extend(b"\r\n");
            "white space line appended"
        }
        _ => {
            let i = r.below(b.len() + 1);
            b.truncate(i);
            "body cut off"
        }
    }
}

/// The range of the value of the b= tag.
fn b_range(v: &[u8]) -> (usize, usize) {
    let mut pos = 0;
    for p in v.split(|c| *c == b';') {
        if let Some(i) = p.iter().position(|c| *c == b'=') {
            let name: Vec<u8> = p[..i].iter().copied().filter(|c| !is_ws(*c)).collect();
            if name == b"b" {
                return (pos + i + 1, pos + p.len());
            }
        }
        pos += p.len() + 1;
    }
    (v.len(), v.len())
}

/// The same b= value with other white space.
fn rewrite_b(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let (a, e) = b_range(v);
    let raw: String = v[a..e].iter().filter(|c| !is_ws(**c)).map(|c| *c as char).collect();
    for _ in 0..20 {
        let pct = *r.pick(&[0, 0, 3, 10, 50, 90]);
        let mut s = if r.coin() { gen::fws(r) } else { String::new() };
        s.push_str(&gen::sprinkle(r, &raw, pct));
        if r.coin() {
            s.push_str(&gen::fws(r));
        }
        let mut o = v[..a].to_vec();
        o.extend(s.as_bytes());
        o.extend(&v[e..]);
        if model::valid_field_body(&o) {
            return o;
        }
    }
    v.to_vec()
}

fn with_b(v: &[u8], b: &str) -> Vec<u8> {
    let (a, e) = b_range(v);
    [&v[..a], b.as_bytes(), &v[e..]].concat()
}

// ---------------------------------------------------------------- C02

fn c02_random(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, false) else {
        c.ev("not signed");
        return Ok(());
    };
    // several mutants of each message
    for _ in 0..6 {
        let mut m = s.msg.clone();
        let mut what = vec![];
        for _ in 0..if c.rng.one_in(4) { 2 + c.rng.below(3) } else { 1 } {
            what.push(any_change(&mut c.rng, &mut m));
        }
        judge(c, &s, &m, &what, Side::Changed)?;
    }
    Ok(())
}

/// Successive byte positions of a message, each changed in several ways.
fn c02_each(c: &mut Case<'_>) -> R {
    let mut r = Rng::new(crate::rng::mix(c.index / 200 * 31 + 5));
    let Some(s) = signed(&mut r, true) else {
        c.ev("not signed");
        return Ok(());
    };
    let pos: usize = (c.index % 200) as usize;
    let total: usize = s.msg.h.iter().map(|h| h.0.len() + h.1.len()).sum::<usize>() + s.msg.body.len();
    let step = total / 200 + 1;
    // of large messages a sample
    for p in (pos * step..((pos + 1) * step).min(total)).step_by(step / 6 + 1) {
        for way in 0..3 {
            let mut m = s.msg.clone();
            let mut left = p;
            let mut done = false;
            let edit = |v: &mut Vec<u8>, i: usize| match way {
                0 => v[i] = if v[i] == b'k' { b'l' } else { b'k' },
                1 => {
                    v.remove(i);
                }
                _ => v.insert(i, if i % 2 == 0 { b' ' } else { b'0' }),
            };
            for h in &mut m.h {
                if left < h.0.len() {
                    let mut v = h.0.clone().into_bytes();
                    edit(&mut v, left);
                    h.0 = String::from_utf8_lossy(&v).into_owned();
                    done = true;
                    break;
                }
                left -= h.0.len();
                if left < h.1.len() {
                    edit(&mut h.1, left);
                    done = true;
                    break;
                }
                left -= h.1.len();
            }
            if !done {
                edit(&mut m.body, left);
            }
            judge(c, &s, &m, &[["byte replaced", "byte removed", "byte inserted"][way]], Side::Changed)?;
        }
    }
    Ok(())
}

fn c02_b(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, false) else {
        c.ev("not signed");
        return Ok(());
    };
    let r = &mut c.rng;
    let v = s.msg.h[0].1.clone();
    let (a, e) = b_range(&v);
    let raw: String = v[a..e].iter().filter(|c| !is_ws(**c)).map(|c| *c as char).collect();
    let model::Dec::Ok(sig) = model::b64_decode(&raw) else {
        return Ok(());
    };
    let key = s.spec.key;
    let mut new = sig.clone();
    let what = match r.below(9) {
        0 => {
            let i = r.below(new.len());
            new[i] ^= 1 << r.below(8);
            "bit of signature flipped"
        }
        1 => {
            new.insert(0, 0);
            "signature with leading zero"
        }
        2 => {
            new.push(0);
            "signature with trailing zero"
        }
        3 => {
            new.pop();
            "signature cut"
        }
        4 => {
            if key.ed {
                // S + L
                let l: [u8; 32] = [
                    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde,
                    0xf9, 0xde, 0x14, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
                ];
                let mut carry = 0u16;
                for i in 0..32 {
                    let x = new[32 + i] as u16 + l[i] as u16 + carry;
                    new[32 + i] = x as u8;
                    carry = x >> 8;
                }
            } else {
                // s + n, maybe one byte longer
                new = (BigUint::from_bytes_be(&new) + &key.n).to_bytes_be();
            }
            "signature plus modulus"
        }
        5 => {
            new = if key.ed { [0u8; 64].to_vec() } else { (&key.n - BigUint::from_bytes_be(&new)).to_bytes_be() };
            "signature negated"
        }
        6 => {
            new = r.bytes(sig.len());
            "random signature"
        }
        7 => {
            new.reverse();
            "signature reversed"
        }
        _ => {
            new = [new.clone(), new].concat();
            "signature doubled"
        }
    };
    if new == sig {
        return Ok(());
    }
    let mut m = s.msg.clone();
    m.h[0].1 = with_b(&v, &model::b64_encode(&new));
    judge(c, &s, &m, &[what], Side::Changed)
}

/// Edits at the level of tags of the signature header.
fn c02_sig(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, true) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..4 {
        let r = &mut c.rng;
        let v = String::from_utf8(s.msg.h[0].1.clone()).unwrap();
        let mut t: Vec<String> = v.split(';').map(String::from).collect();
        let i = r.below(t.len());
        let what = match r.below(12) {
            0 => {
                t.remove(i);
                "tag removed"
            }
            1 => {
                let j = r.below(t.len());
                t.swap(i, j);
                "tags reordered"
            }
            2 => {
                t.insert(i, (*r.pick(&[" foo=bar", " l=0", " l=1", " x=99999999999", " t=1", " q=dns/txt", " c=relaxed", " c=simple/simple", " i=@example.com", " z=a:b"])).into());
                "tag added"
            }
            3 => {
                t.push("".into());
                "semicolon added"
            }
            4 => {
                t[i] = t[i].to_ascii_uppercase();
                "tag case"
            }
            5 => {
                t[i].push(' ');
                "white space after tag"
            }
            6 => {
                t[i] = t[i].replacen('=', *r.pick(&[" =", "= ", "=\r\n ", " = "]), 1);
                "white space at equals sign"
            }
            7 => {
                let n = t[i].replace(char::is_whitespace, "");
                t[i] = format!("\r\n\t{n}");
                "tag refolded"
            }
            8 => {
                // h= edits
                if let Some(x) = t.iter_mut().find(|x| x.trim_start().starts_with("h=")) {
                    let k = r.below(4);
                    *x = match k {
                        0 => format!("{x}:Subject"),
                        1 => x.replacen(':', ": ", 1),
                        2 => x.replacen(':', "::", 1),
                        _ => x.to_ascii_lowercase(),
                    };
                }
                "signed header list"
            }
            9 => {
                // number edits
                if let Some(x) = t.iter_mut().find(|x| {
                    let x = x.trim_start();
                    x.starts_with("l=") || x.starts_with("t=") || x.starts_with("x=")
                }) {
                    *x = match r.below(3) {
                        0 => x.replacen('=', "=0", 1),
                        1 => format!("{x}0"),
                        _ => x.trim_end_matches(|c: char| c.is_ascii_digit()).to_string() + "7",
                    };
                }
                "number"
            }
            10 => {
                let mut b = t[i].clone().into_bytes();
                change_bytes(r, &mut b, None);
                t[i] = String::from_utf8_lossy(&b).into_owned();
                "tag text"
            }
            _ => {
                let x = t[i].clone();
                t.push(x);
                "tag repeated"
            }
        };
        let mut m = s.msg.clone();
        m.h[0].1 = t.join(";").into_bytes();
        judge(c, &s, &m, &[what], Side::Changed)?;
    }
    Ok(())
}

fn c02_key(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, false) else {
        c.ev("not signed");
        return Ok(());
    };
    if outcome(&s.msg, &s.spec, &s.record, &[&s.msg.body]) != "Success" {
        c.ev("baseline does not verify");
        return Ok(());
    }
    let key = s.spec.key;
    let other = loop {
        let k = gen::good_key(&mut c.rng);
        if k.name != key.name {
            break k;
        }
    };
    let (what, record) = match c.rng.below(6) {
        0 => {
            // another modulus or exponent of the same size
            if key.ed {
                let mut p = key.raw.clone();
                p[c.rng.below(32)] ^= 1 << c.rng.below(8);
                ("bit of the key flipped", format!("k=ed25519; p={}", model::b64_encode(&p)))
            } else {
                let n = &key.n + BigUint::from(2u8);
                ("another modulus", format!("p={}", model::b64_encode(&model::spki_rsa(&n, &key.e))))
            }
        }
        1 if !key.ed => {
            let e = BigUint::from(if key.e == BigUint::from(3u8) { 65537u32 } else { 3 });
            ("another exponent", format!("p={}", model::b64_encode(&model::pkcs1_public(&key.n, &e))))
        }
        _ => ("another key", other.record()),
    };
    let got = outcome(&s.msg, &s.spec, &record, &[&s.msg.body]);
    ensure!(got != "Success", "verifies with another key", "{what}: record {record:?}, signed with {}{}", key.name, show_msg(&s.msg));
    c.ev("change noticed");
    c.ev(&format!("change: {what}"));
    c.nontrivial(record.as_bytes());
    Ok(())
}

/// Messages with several signature headers, which are signed as well.
fn c02_signatures(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut h = gen::headers(r, 4);
    for _ in 0..1 + r.below(3) {
        let name = if r.one_in(3) { gen::recase(r, "DKIM-Signature") } else { "DKIM-Signature".into() };
        let v = if r.coin() { gen::field_value(r) } else { b" v=1; a=rsa-sha256; d=example.org; s=x; h=From; bh=YQ==; b=YQ==".to_vec() };
        let i = r.below(h.len() + 1);
        h.insert(i, (name, v));
    }
    let body = gen::body(r, 20);
    let mut s = gen::spec(r, &h, canon_len(&body));
    s.key = world::key("ed_a");
    s.sha1 = false;
    s.ts = Ts::None;
    s.valid = None;
    let mut names = gen::manual_names(r, &h);
    for _ in 0..r.below(3) {
        let i = r.below(names.len() + 1);
        names.insert(i, gen::recase(r, "DKIM-Signature"));
    }
    s.manual = Some(names);
    let Some(s) = finish(r, h, body, s) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..5 {
        let r = &mut c.rng;
        let mut m = s.msg.clone();
        let sigs: Vec<usize> = (0..m.h.len()).filter(|i| *i != m.sig && refv::is_sig(&m.h[*i])).collect();
        let what = if sigs.is_empty() || r.one_in(3) {
            any_change(r, &mut m)
        } else {
            let i = *r.pick(&sigs);
            match r.below(6) {
                0 => {
                    m.h.remove(i);
                    m.sig -= (i < m.sig) as usize;
                    "signature header removed"
                }
                1 => {
                    let x = (gen::recase(r, "DKIM-Signature"), gen::field_value(r));
                    let k = r.below(m.h.len() + 1);
                    m.h.insert(k, x);
                    m.sig += (k <= m.sig) as usize;
                    "signature header added"
                }
                2 => {
                    let x = m.h.remove(i);
                    m.sig -= (i < m.sig) as usize;
                    let k = r.below(m.h.len() + 1);
                    m.h.insert(k, x);
                    m.sig += (k <= m.sig) as usize;
                    "signature header moved"
                }
                3 => {
                    m.h[i].1 = gen::field_value(r);
                    "signature header replaced"
                }
                _ => {
                    change_bytes(r, &mut m.h[i].1, None);
                    "other signature header changed"
                }
            }
        };
        judge(c, &s, &m, &[what], Side::Changed)?;
    }
    Ok(())
}

/// Signatures by others whose hashes are not those of the message: cut,
/// lengthened, of another algorithm or otherwise wrong, though signed.
fn c02_hashes(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let k = if r.one_in(3) { "rsa1024" } else { *r.pick(&["ed_a", "ed_b"]) };
    let mut f = gen::ForeignSpec::plain(world::key(k));
    f.hc = r.coin();
    f.bc = r.coin();
    f.sha1 = world::SHA1 && !f.key.ed && r.coin();
    f.odd = if r.one_in(3) { 15 } else { 0 };
    let mut h = gen::headers(r, 3);
    let body = gen::body(r, 60);
    if r.one_in(3) {
        f.l = Some(r.below(body.len() + 1) as u64);
    }
    match r.below(4) {
        0 => f.bad_data = true,
        1 => f.bad_sig = true,
        _ => f.bad_bh = true,
    }
    f.h = gen::manual_names(r, &h);
    let s = f.sign(r, &h, &body);
    h.insert(0, (s.name, s.value.into_bytes()));
    let recs: HashMap<String, Entry> = [(world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record()))].into();
    let cfg = permissive();
    let exp = refv::predict(&refv::Scene { headers: &h, body: &body, config: &cfg, dns: &recs });
    let ch = gen::chunks(r, &body);
    let res = world::verify(&mk(&h), &dns(&recs), &cfg, &ch, r.coin()).unwrap_or_default();
    let Some(got) = res.iter().find(|g| g.index == 0) else { return Ok(()) };
    let got = refv::status(&got.status);
    let Some(due) = exp.first().and_then(|e| e.allowed.as_ref()) else { return Ok(()) };
    if !due.contains("Success") {
        ensure!(got != "Success", "wrong hash accepted", "Success instead of {due:?}: headers {} body {}", show_headers(&h), show(&body));
        c.ev(&format!("noticed as {got}"));
        c.nontrivial(&h[0].1);
    }
    Ok(())
}

/// Changes of the body near the ends of the covered part.
fn c02_body(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 3);
    let body = if c.rng.one_in(30) { gen::body(&mut c.rng, 100_000) } else { gen::body(&mut c.rng, 40) };
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    s.key = world::key("ed_a");
    s.sha1 = false;
    s.ts = Ts::None;
    s.valid = None;
    if c.rng.coin() {
        let n = canon_len(&body)(s.bc) as u64;
        s.bl = Bl::Exact(n - n.min(c.rng.below(8) as u64));
    }
    let (bc, bl) = (s.bc, s.bl.clone());
    let Some(s) = finish(&mut c.rng, h, body, s) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..5 {
        let mut m = s.msg.clone();
        let r = &mut c.rng;
        let n = m.body.len();
        let at = match (&bl, r.below(4)) {
            (Bl::Exact(l), 0 | 1) => (*l as usize + r.below(5)).saturating_sub(2),
            (_, 2) => n.saturating_sub(r.below(5)),
            (_, 3) => r.below(4),
            _ => r.below(n + 1),
        };
        let what = if r.coin() { change_bytes(r, &mut m.body, Some(at)) } else { body_edit(r, &mut m.body) };
        let _ = bc;
        judge(c, &s, &m, &[what], Side::Changed)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C03

fn c03_headers(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 20);
    let body = b"x\r\n".to_vec();
    let mut s = gen::spec(&mut c.rng, &h, |_| 3);
    s.hc = true;
    if c.rng.pct(80) {
        s.key = world::key("ed_a");
        s.sha1 = false;
    }
    if matches!(s.ts, Ts::Exact(_)) {
        s.ts = Ts::Exact(1_700_000_000);
    }
    let Some(s) = finish(&mut c.rng, h, body, s) else {
        c.ev("not signed");
        return Ok(());
    };
    let mut m = s.msg.clone();
    let r = &mut c.rng;
    for i in 0..m.h.len() {
        if r.coin() {
            m.h[i].0 = gen::recase(r, &m.h[i].0.clone());
        }
        if i == m.sig {
            // The white space inside the signature header may change, but
            // only where there is some, and in b= anywhere.
            if r.coin() {
                let v = refold(r, &m.h[i].1);
                if model::valid_field_body(&v) {
                    m.h[i].1 = v;
                }
            }
            if r.coin() {
                m.h[i].1 = rewrite_b(r, &m.h[i].1);
            }
        } else if r.coin() {
            m.h[i].1 = refold(r, &m.h[i].1);
        }
    }
    judge(c, &s, &m, &["fields refolded and names recased"], Side::Same)
}

/// A body that is different but canonically the same.
fn same_body(r: &mut Rng, relaxed: bool, b: &[u8]) -> Vec<u8> {
    let want = model::body_canon(relaxed, b).remove(0);
    let mut v = b.to_vec();
    if relaxed && r.coin() {
        // rewrite all white space of complete lines
        let mut o = vec![];
        let mut i = 0;
        while i < v.len() {
            if matches!(v[i], b' ' | b'\t') {
                let mut j = i;
                while j < v.len() && matches!(v[j], b' ' | b'\t') {
                    j += 1;
                }
                let end = v[j..].starts_with(b"\r\n");
                let k = if end { r.below(4) } else { 1 + r.below(4) };
                o.extend(gen::wsp(r, k));
                i = j;
            } else {
                if v[i..].starts_with(b"\r\n") && r.one_in(3) {
                    let k = 1 + gen::size(r, 70);
                    o.extend(gen::wsp(r, k));
                }
                o.push(v[i]);
                i += 1;
            }
        }
        v = o;
    }
    for _ in 0..r.below(3) {
        let mut w = v.clone();
        match r.below(4) {
            0 => {
                let k = 1 + gen::size(r, 300);
                w.extend(b"\r\n".repeat(k));
            }
            1 => {
                while w.ends_with(b"\r\n") {
                    w.truncate(w.len() - 2);
                }
            }
            2 => {
                let k = 1 + r.below(3);
                w.extend(gen::wsp(r, k));
                w.extend(b"\r\n\r\n");
            }
            _ => {
                body_edit(r, &mut w);
            }
        }
        let c = model::body_canon(relaxed, &w);
        if c.len() == 1 && c[0] == want {
            v = w;
        }
    }
    v
}

fn c03_body(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 3);
    let body = if c.rng.one_in(20) { gen::body(&mut c.rng, 40_000) } else { gen::body(&mut c.rng, 60) };
    let mut s = gen::spec(&mut c.rng, &h, canon_len(&body));
    s.key = world::key(if c.rng.one_in(8) { "rsa1024" } else { "ed_a" });
    s.sha1 = false;
    s.ts = Ts::None;
    s.valid = None;
    let Some(s) = finish(&mut c.rng, h, body, s) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..4 {
        let mut m = s.msg.clone();
        m.body = same_body(&mut c.rng, s.spec.bc, &m.body);
        let mut what = vec!["equivalent body"];
        if let Bl::Exact(l) = s.spec.bl {
            // replace what follows the covered part
            let canon = model::body_canon(s.spec.bc, &m.body).remove(0);
            if c.rng.coin() && (l as usize) < canon.len() {
                let mut b = canon[..l as usize].to_vec();
                let keep = b.clone();
                b.extend(gen::word(&mut c.rng));
                let t = gen::body(&mut c.rng, 60);
                b.extend(t);
                let nc = model::body_canon(s.spec.bc, &b);
                if nc.iter().all(|c| c.starts_with(&keep)) {
                    m.body = b;
                    what.push("content beyond signed length replaced");
                }
            }
        }
        if m.body == s.msg.body {
            continue;
        }
        judge(c, &s, &m, &what, Side::Same)?;
    }
    Ok(())
}

fn c03_b(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, false) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..3 {
        let mut m = s.msg.clone();
        m.h[0].1 = rewrite_b(&mut c.rng, &m.h[0].1);
        judge(c, &s, &m, &["b= refolded"], Side::Same)?;
    }
    Ok(())
}

fn c03_extra(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, true) else {
        c.ev("not signed");
        return Ok(());
    };
    let mut m = s.msg.clone();
    let r = &mut c.rng;
    let listed = s.spec.expected_h(&s.msg.h[1..]);
    let is_listed = |n: &str| listed.iter().any(|l| l.eq_ignore_ascii_case(n));
    let mut what = vec![];
    if r.one_in(30) && !listed.iter().any(|l| l.to_ascii_lowercase().starts_with("x-crowd-")) {
        let n = 200 + r.below(3000);
        let at = *r.pick(&[0, m.sig + 1, m.h.len()]);
        m.h.splice(at..at, (0..n).map(|i| (format!("X-Crowd-{}", i % 700), b" v".to_vec())));
        if at <= m.sig {
            m.sig += n;
        }
        what.push("hundreds of unnamed fields added");
    }
    for _ in 0..1 + r.below(6) {
        match r.below(5) {
            0 => {
                // unnamed field anywhere
                let n = gen::field_name(r);
                if !is_listed(&n) {
                    let k = r.below(m.h.len() + 1);
                    m.h.insert(k, (n, gen::field_value(r)));
                    if k <= m.sig {
                        m.sig += 1;
                    }
                    what.push("unnamed field added anywhere");
                }
            }
            1 => {
                // another signature on top
                m.h.insert(0, ("DKIM-Signature".into(), gen::field_value(r)));
                m.sig += 1;
                what.push("other signature added");
            }
            2 | 3 => {
                // named field on top, when all its occurrences are covered
                let n = if r.coin() { r.pick(&listed).clone() } else { gen::field_name(r) };
                m.h.insert(0, (gen::recase(r, &n), gen::field_value(r)));
                m.sig += 1;
                what.push("field added on top");
            }
            _ => {
                // remove one that is not covered
                let own = m.sig;
                let sel = model::select(&refv::others(&m.h, own), &listed);
                let sel: Vec<usize> = sel.into_iter().map(|i| i + (i >= own) as usize).collect();
                let free: Vec<usize> = (0..m.h.len()).filter(|i| *i != m.sig && !sel.contains(i)).collect();
                if !free.is_empty() && m.h.len() > 2 {
                    let i = *r.pick(&free);
                    m.h.remove(i);
                    if i < m.sig {
                        m.sig -= 1;
                    }
                    what.push("uncovered field removed");
                }
            }
        }
    }
    // An added field may well have been covered, if named more often than
    // present. The oracle knows.
    judge(c, &s, &m, &what, Side::Same)
}

fn c03_mix(c: &mut Case<'_>) -> R {
    let Some(s) = signed(&mut c.rng, false) else {
        c.ev("not signed");
        return Ok(());
    };
    for _ in 0..4 {
        let mut m = s.msg.clone();
        let mut what = vec![];
        for _ in 0..1 + c.rng.below(3) {
            let mut t = m.clone();
            let w = any_change(&mut c.rng, &mut t);
            // Keep harmless changes only.
            let ok = match (commit(&s.msg), commit(&t)) {
                (State::Is(a), State::Is(b)) => a == b,
                _ => false,
            };
            if ok && world::to_headers(&t.h).is_some() {
                m = t;
                what.push(w);
            }
        }
        if what.is_empty() {
            continue;
        }
        judge(c, &s, &m, &what, Side::Same)?;
    }
    let _: R = if false { fail("", "") } else { Ok(()) };
    Ok(())
}
