//! C08, C09, C21, C22, C25: parsers, encodings, names and header fields.

use super::wl;
use crate::{
    case::{fail, show, Case, Workload, R},
    ensure,
    gen::{self, maybe_fws, recase, ForeignSpec},
    model::{self, Dec, Parse},
    refv,
    rng::Rng,
    world,
};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
};
use viadkim::{
    crypto::{HashAlgorithm, KeyType},
    decode_base64, encode_base64,
    header::{FieldBody, FieldName, HeaderField, HeaderFields},
    quoted_printable as qp,
    record::DkimKeyRecord,
    signature::{
        Canonicalization, CanonicalizationAlgorithm, DkimSignature, DomainName, Identity, Selector,
        SigningAlgorithm,
    },
    CanonicalStr,
};

type Tags = Vec<(String, String)>;

// ---------------------------------------------------------------- mutation

const NASTY: &[&str] = &[
    ";", "=", ":", "|", " ", "\t", "\r\n ", "\r\n\t", "\r\n", "\r", "\n", "\0", "+", "-", "0", "1", "é", "中", "\u{a0}",
    "\u{2003}", "\u{85}", "\u{feff}", "\u{ff1d}", "=0", "=0D=0A", "=20", "=3B", "=zz", "=e", "==", "@", "\"", "\\", "/",
    ",", "a=", "; b=", "v=1;", ";;", "; ;", "DKIM1", "\x0b", "\x0c", "\x7f", "\x1f", " \r\n \r\n ", "*", "_", ".",
    "\u{200d}", "\u{ad}", "x=y", "rsa", "from", "sha1", "18446744073709551615", "18446744073709551616", "=C3=A9", "=ff",
];

/// Changes text at random places.
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() {
            c.extend(r.pick(NASTY).chars());
            continue;
        }
        let i = r.below(c.len());
        match r.below(9) {
            0 | 1 => {
                c.remove(i);
            }
            2..=4 => {
                let n: Vec<char> = r.pick(NASTY).chars().collect();
                c.splice(i..i, n);
            }
            5 => {
                let n: Vec<char> = r.pick(NASTY).chars().collect();
                c.splice(i..i + 1, n);
            }
            6 => {
                let j = r.below(c.len());
                c.swap(i, j);
            }
            7 => {
                let j = (i + 1 + r.below(6)).min(c.len());
                let part: Vec<char> = c[i..j].to_vec();
                let k = r.below(c.len());
                c.splice(k..k, part);
            }
            _ => {
                let j = (i + 1 + r.below(10)).min(c.len());
                c.drain(i..j);
            }
        }
    }
    c.into_iter().collect()
}

fn b64(r: &mut Rng) -> String {
    let n = match r.below(6) {
        0 => 1 + r.below(5),
        1 => 32,
        _ => 1 + r.below(70),
    };
    model::b64_encode(&r.bytes(n))
}

fn odd_b64(r: &mut Rng) -> String {
    let s = b64(r);
    match r.below(8) {
        0 => String::new(),
        1 => s.trim_end_matches('=').to_string(),
        2 => format!("{s}="),
        3 => s[..s.len() - 1].to_string(),
        4 => format!("{s}{}", b64(r)),
        5 => s.replacen(|_: char| true, "-", 1),
        6 => s.replacen(|_: char| true, "_", 1),
        _ => mutate(r, &s),
    }
}

fn number(r: &mut Rng) -> String {
    match r.below(8) {
        0 => gen::BIG_TIMES[r.below(gen::BIG_TIMES.len())].to_string(),
        1 => format!("{:0>30}", r.below(1000)),
        _ => r.below(2_000_000_000).to_string(),
    }
}

const BAD_NUMBERS: &[&str] = &[
    "", "-1", "+1", "+", "-", "0x10", "1.0", "1e3", "18446744073709551616", "99999999999999999999999", "1 2", "١", "1a",
    "a", "-0", "+0", "1_000", "1,0", "٣٤", "１",
];

// ---------------------------------------------------------------- C08

pub fn c08() -> Vec<Workload> {
    vec![
        wl("grammar", 60_000, 6_000_000, c08_grammar),
        wl("one-odd-tag", 40_000, 4_000_000, c08_odd),
        wl("mutations", 40_000, 4_000_000, c08_mutate),
        wl("signed-by-others", 4_000, 400_000, c08_foreign),
        wl("tag-structure", 30_000, 3_000_000, c08_structure),
        wl("cross-checks", 20_000, 2_000_000, c08_cross),
        wl("long-lists", 800, 60_000, c08_long),
    ]
}

/// A valid value for each tag.
fn good_tags(r: &mut Rng) -> Tags {
    let mut t: Tags = vec![];
    let d = gen::domain(r);
    let (odd, rc) = (r.coin(), r.coin());
    let case = |r: &mut Rng, s: &str| if rc { recase(r, s) } else { s.to_string() };
    t.push(("v".into(), "1".into()));
    let a = *r.pick(if world::SHA1 {
        &["rsa-sha256", "ed25519-sha256", "rsa-sha1"][..]
    } else {
        &["rsa-sha256", "ed25519-sha256"]
    });
    t.push(("a".into(), case(r, a)));
    for n in ["b", "bh"] {
        let v = b64(r);
        let p = if odd { 8 } else { 0 };
        t.push((n.into(), gen::sprinkle(r, &v, p)));
    }
    let mut names: Vec<String> = vec![];
    for _ in 0..r.below(6) {
        let n = gen::field_name(r);
        if !n.contains(';') {
            names.push(n);
        }
    }
    let i = r.below(names.len() + 1);
    let from = case(r, "From");
    names.insert(i, from);
    let mut h = String::new();
    for (i, n) in names.iter().enumerate() {
        if i > 0 {
            if odd {
                h.push_str(&maybe_fws(r, 15));
            }
            h.push(':');
            if odd {
                h.push_str(&maybe_fws(r, 15));
            }
        }
        h.push_str(n);
    }
    t.push(("h".into(), h));
    t.push(("s".into(), gen::selector(r)));
    if r.coin() {
        let c = *r.pick(&["simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed"]);
        t.push(("c".into(), case(r, c)));
    }
    if r.coin() {
        let sub = gen::subdomain(r, &d);
        let id = if r.one_in(3) { format!("@{sub}") } else { format!("{}@{sub}", gen::local_part(r)) };
        let mut v = gen::qp_any(r, id.as_bytes(), b"", if odd { 20 } else { 0 });
        if odd && r.coin() {
            let at: Vec<usize> = (1..v.len()).filter(|&k| v.is_char_boundary(k)).collect();
            if !at.is_empty() {
                let (k, w) = (*r.pick(&at), gen::fws(r));
                v.insert_str(k, &w);
            }
        }
        t.push(("i".into(), v));
    }
    t.push(("d".into(), d));
    if r.one_in(3) {
        t.push(("l".into(), number(r)));
    }
    let (a, b) = (number(r), number(r));
    match r.below(4) {
        0 => t.push(("t".into(), a)),
        1 => t.push(("x".into(), a)),
        2 => {
            let (x, y): (u64, u64) = (a.parse().unwrap(), b.parse().unwrap());
            if x != y {
                let (a, b) = if x < y { (a, b) } else { (b, a) };
                t.push(("t".into(), a));
                t.push(("x".into(), b));
            }
        }
        _ => {}
    }
    if r.one_in(3) {
        t.push(("q".into(), (*r.pick(&["dns/txt", "DNS/TXT", "x:dns/txt", "dns/txt : foo/bar", "a:b:dns/txt", "dns/txt:dns/txt"])).into()));
    }
    if r.one_in(3) {
        let n = 1 + r.below(4);
        let mut z = vec![];
        for _ in 0..n {
            let (n, mut v) = (gen::field_name(r), gen::field_value(r));
            v.truncate(300);
            let n = gen::qp_any(r, n.as_bytes(), b"|:", 5);
            let mut p = format!("{n}:{}", gen::qp_any(r, &v, b"|", 5));
            if odd {
                p = format!("{}{p}{}", maybe_fws(r, 20), maybe_fws(r, 20));
            }
            z.push(p);
        }
        t.push(("z".into(), z.join("|").trim().to_string()));
    }
    for _ in 0..r.below(3) {
        let n = match r.below(5) {
            0 => "r".to_string(),
            1 => (*r.pick(&["B", "BH", "V", "bb", "vv", "A", "I", "L", "T", "X", "Z", "H", "S", "D", "Q", "C", "hh"])).into(),
            2 => "n".repeat(1 + gen::edge(r, 300)),
            3 => format!("x_{}", r.below(100)),
            _ => format!("Z{}", r.below(100)),
        };
        if !t.iter().any(|e| e.0 == n) {
            t.push((n, gen::ext_value(r, false)));
        }
    }
    if r.pct(80) {
        r.shuffle(&mut t);
    }
    t
}

fn check_sig(c: &mut Case<'_>, s: &str) -> R {
    let got = s.parse::<DkimSignature>();
    c.nontrivial(s.as_bytes());
    match (model::signature(s, world::SHA1), got) {
        (Parse::Unspec, _) => c.ev("left open by the specification"),
        (Parse::Ok(m), Ok(g)) => {
            if let Some(d) = refv::diff_sig(&g, &m) {
                return fail("parsed to something else", format!("{}: {d}", show(s.as_bytes())));
            }
            c.ev("accepted");
            for (n, on) in [
                ("i", m.i.is_some()),
                ("l", m.l.is_some()),
                ("t", m.t.is_some()),
                ("x", m.x.is_some()),
                ("z", !m.z.is_empty()),
                ("extension", !m.ext.is_empty()),
            ] {
                if on {
                    c.ev(&format!("accepted with {n}"));
                }
            }
        }
        (Parse::Ok(m), Err(e)) => {
            return fail("valid value rejected", format!("{} rejected with {e:?}, but means {m:?}", show(s.as_bytes())))
        }
        (Parse::Err(k, _), Ok(g)) => {
            return fail(
                format!("invalid value accepted: {}", k.join(" ")),
                format!("{} accepted as {g:?}, but has defects {k:?}", show(s.as_bytes())),
            )
        }
        (Parse::Err(k, raw), Err(e)) => {
            let kind = format!("{:?}", e.kind);
            ensure!(
                k.contains(&kind.as_str()),
                format!("error kind {kind} does not apply"),
                "{} rejected with {kind}, but has defects {k:?}",
                show(s.as_bytes())
            );
            if let Some(raw) = raw {
                let st = |s: &Option<Box<str>>| s.as_ref().map(|s| s.to_string());
                let got = [
                    st(&e.algorithm_str),
                    st(&e.signature_data_str),
                    st(&e.domain_str),
                    st(&e.identity_str),
                    st(&e.selector_str),
                ];
                ensure!(got == raw, "raw values of rejected signature", "{}: raw values {got:?} instead of {raw:?}", show(s.as_bytes()));
            }
            c.ev(&format!("rejected {kind}"));
        }
    }
    Ok(())
}

/// A list of many items, perhaps with an odd one among them.
fn long_list(r: &mut Rng, n: usize, item: &dyn Fn(usize) -> String, odd: &[&str], sep: &str) -> String {
    let mut v: Vec<String> = (0..n).map(item).collect();
    if r.coin() {
        let i = *r.pick(&[0, v.len() / 2, v.len() - 1, v.len() - 1, v.len().min(257) - 1]);
        v[i] = (*r.pick(odd)).into();
    }
    if r.one_in(4) {
        let i = r.below(v.len());
        v[i] = format!("{}{}{}", gen::fws(r), v[i], gen::fws(r));
    }
    v.join(sep)
}

/// Puts tags of other names among the tags.
fn many_tags(r: &mut Rng, t: &mut Tags, n: usize) {
    let at = *r.pick(&[0, t.len(), t.len() / 2]);
    let mut v: Tags = (0..n).map(|i| (format!("x{i}"), "y".into())).collect();
    if r.one_in(4) {
        // a duplicate far off
        let e = if r.coin() { v[0].clone() } else { r.pick(t).clone() };
        v.push(e);
    }
    if r.one_in(8) {
        let e = (*r.pick(&["", "1x", "x-y", "é"])).into();
        let i = *r.pick(&[0, v.len() - 1]);
        v[i].0 = e;
    }
    t.splice(at..at, v);
}

fn set_tag(t: &mut Tags, n: &str, v: String) {
    match t.iter_mut().find(|e| e.0 == n) {
        Some(e) => e.1 = v,
        None => t.push((n.into(), v)),
    }
}

fn c08_long(c: &mut Case<'_>) -> R {
    let mut t = good_tags(&mut c.rng);
    let r = &mut c.rng;
    let n = gen::many(r, 6000);
    let what = match r.below(9) {
        0 | 1 => {
            let mut v = long_list(r, n, &|i| format!("X-{}", i % 700), &["From", "a b", "", "é", "a=b", "|"], ":");
            let from = recase(r, "From");
            v = match r.below(5) {
                0 => format!("{from}:{v}"),
                1 => v,
                _ => format!("{v}:{from}"),
            };
            set_tag(&mut t, "h", v);
            "names"
        }
        2 => {
            let v = long_list(r, n, &|i| format!("X-{}:v=3D{i}", i % 9), &["", "x", ":", "a:=", "a:=41", "a b:c", "é:x", "a:\u{e9}"], "|");
            set_tag(&mut t, "z", v);
            "copied fields"
        }
        3 => {
            many_tags(r, &mut t, n.min(1500));
            "tags"
        }
        4 => {
            let v = long_list(r, n, &|i| format!("m{i}"), &["dns/txt", "", "dns/", "DNS/TXT", "dns/txt "], ":");
            set_tag(&mut t, "q", v);
            "query methods"
        }
        5 => {
            let k = *r.pick(&["b", "bh"]);
            let mut v = model::b64_encode(&r.bytes(n));
            match r.below(6) {
                0 => v.push('='),
                1 => {
                    v.pop();
                }
                2 => {
                    let i = *r.pick(&[0, v.len() / 2, v.len() - 4]);
                    v.replace_range(i..i + 1, "-");
                }
                3 => {
                    let i = *r.pick(&[0, v.len() / 2, v.len() - 4]);
                    v.insert_str(i, "\r\n ");
                }
                _ => {}
            }
            set_tag(&mut t, k, v);
            "base64"
        }
        6 => {
            let k = *r.pick(&["l", "t", "x"]);
            let v = format!("{}{}", "0".repeat(n), number(r));
            set_tag(&mut t, k, v);
            "leading zeros"
        }
        7 => {
            let d = t.iter().find(|e| e.0 == "d").map(|e| e.1.clone()).unwrap_or_default();
            let v = match r.below(3) {
                0 => format!("{}@{d}", "x".repeat(gen::edge(r, 70).max(1))),
                1 => format!("@{}{d}", "a.".repeat(n.min(130))),
                _ => format!("@{}.{d}", "b".repeat(gen::edge(r, 70).max(1))),
            };
            set_tag(&mut t, "i", v);
            "identity"
        }
        _ => {
            let k = r.below(t.len());
            let w = String::from_utf8(gen::wsp(r, n)).unwrap();
            let w = if r.coin() { format!("{w}\r\n ") } else { w };
            t[k].1 = if r.coin() { format!("{w}{}", t[k].1) } else { format!("{}{}x", t[k].1, w) };
            "whitespace"
        }
    };
    c.ev(&format!("many or long: {what}"));
    let s = gen::join_tags(&mut c.rng, &t, 0);
    c.sample(|| format!("{n} {what}"));
    check_sig(c, &s)
}

fn c08_grammar(c: &mut Case<'_>) -> R {
    let t = good_tags(&mut c.rng);
    let pct = *c.rng.pick(&[0, 10, 40]);
    let s = gen::join_tags(&mut c.rng, &t, pct);
    c.sample(|| show(s.as_bytes()));
    check_sig(c, &s)
}

fn c08_odd(c: &mut Case<'_>) -> R {
    let mut t = good_tags(&mut c.rng);
    let r = &mut c.rng;
    for _ in 0..if r.one_in(5) { 2 } else { 1 } {
        let n = *r.pick(&["v", "a", "b", "bh", "c", "d", "h", "i", "l", "q", "s", "t", "x", "z"]);
        let old = t.iter().find(|e| e.0 == n).map_or(String::new(), |e| e.1.clone());
        if r.one_in(6) {
            t.retain(|e| e.0 != n);
            continue;
        }
        let v: String = if r.one_in(6) {
            mutate(r, &old)
        } else {
            match n {
                "v" => (*r.pick(&["", "2", "0", "01", "1.0", "11", "1 1", "DKIM1", "１", "+1"])).into(),
                "a" if r.one_in(3) => {
                    let w = *r.pick(&["rsa-sha256", "rsa-sha1", "ed25519-sha256"]);
                    gen::near_word(r, w)
                }
                "c" if r.one_in(3) => {
                    let w = |r: &mut Rng| {
                        let w = *r.pick(&["simple", "relaxed"]);
                        if r.coin() { w.to_string() } else { gen::near_word(r, w) }
                    };
                    if r.coin() { w(r) } else { format!("{}/{}", w(r), w(r)) }
                }
                "q" if r.coin() => gen::word_list(r, &["dns/txt"]),
                "a" => (*r.pick(&[
                    "", "rsa-sha1", "RSA-SHA1", "rsa", "sha256", "rsa-sha512", "ed25519-sha1", "rsa-sha256x", "rsa -sha256",
                    "rsa-\r\n sha256", "rsa_sha256", "ed25519", "rſa-sha256", "rsa-sha256:x",
                ]))
                .into(),
                "b" | "bh" => odd_b64(r),
                "c" => (*r.pick(&[
                    "", "/", "simple/", "/simple", "relaxed/", "nowsp", "simple/nowsp", "nowsp/simple",
                    "simple/simple/simple", "simple / simple", "relaxed/relaxed/", "simple,relaxed", "simple\r\n /simple",
                    "ſimple", "simplE/RELAXED", "Simple", "relaxed:simple",
                ]))
                .into(),
                "d" => odd_name(r),
                "s" => odd_name(r),
                "h" => match r.below(6) {
                    0 => String::new(),
                    1 => (*r.pick(&[":", "from:", ":from", "from::to", "from: :to", "from:to:", " from", "fr om", "from:a b", "from:é", "from;x"])).into(),
                    2 => (*r.pick(&["to", "to:subject", "fromm", "xfrom", "resent-from", "f\r\n rom", "ｆrom", "from\u{0}"])).into(),
                    3 => (*r.pick(&["FROM", "from:from:from", "From\r\n : To", "from:a\r\n b"])).into(),
                    4 => {
                        let n = gen::edge(r, 600);
                        format!("{}from", "x:".repeat(n))
                    }
                    _ => mutate(r, &old),
                },
                "i" => {
                    let v = odd_identity(r);
                    match r.below(3) {
                        0 => v,
                        1 => gen::qp_any(r, v.as_bytes(), b"", 10),
                        _ => {
                            let q = gen::qp_any(r, v.as_bytes(), b"", 0);
                            mutate(r, &q)
                        }
                    }
                }
                "l" | "t" | "x" => {
                    if r.coin() {
                        (*r.pick(BAD_NUMBERS)).into()
                    } else {
                        number(r)
                    }
                }
                "q" => (*r.pick(&["", ":", "dns", "dns/txt:", ":dns/txt", "dns/txt::x", "dns / txt", "dnstxt", "dns/txtx", "x", "dns/ſxt", "dns=2Ftxt"])).into(),
                _ => match r.below(4) {
                    0 => (*r.pick(&["", "|", "a:b|", "|a:b", "a:b||c:d", ":", "a", ":b", "a b:c", "=C3=A9:x", "é:x", "a=3A:b", "a=3Ab", "a=20:b", "a=:b", "a:=", "a:=4", "a:=zz", "a:x=\r\n 4\r\n 1", "a:b=7Cc:d", "=7C:x", "a : b"])).into(),
                    1 => {
                        let (n, v) = (gen::field_name(r), gen::word(r));
                        format!("{n}:{}", String::from_utf8_lossy(&v))
                    }
                    _ => mutate(r, &old),
                },
            }
        };
        match t.iter_mut().find(|e| e.0 == n) {
            Some(e) => e.1 = v,
            None => {
                let i = r.below(t.len() + 1);
                t.insert(i, (n.into(), v));
            }
        }
    }
    let s = gen::join_tags(r, &t, 0);
    c.sample(|| show(s.as_bytes()));
    check_sig(c, &s)
}

fn c08_mutate(c: &mut Case<'_>) -> R {
    let t = good_tags(&mut c.rng);
    let pct = *c.rng.pick(&[0, 0, 30]);
    let s = gen::join_tags(&mut c.rng, &t, pct);
    for _ in 0..4 {
        let m = mutate(&mut c.rng, &s);
        check_sig(c, &m)?;
    }
    // truncation
    let mut n = c.rng.below(s.len() + 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    check_sig(c, &s[..n])
}

fn c08_foreign(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut f = ForeignSpec::plain(world::key("ed_a"));
    f.odd = 10 + r.below(50);
    f.domain = gen::domain(r);
    f.selector = gen::selector(r);
    f.hc = r.coin();
    f.bc = r.coin();
    let h = gen::headers(r, 5);
    f.h = gen::manual_names(r, &h);
    let s = f.sign(r, &h, b"hello\r\n").value;
    check_sig(c, &s)
}

/// Text with the structure of a tag list, right or wrong.
fn structure(r: &mut Rng, words: &[&str]) -> String {
    let n = r.below(14);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(10) {
            0..=5 => s.push_str(*r.pick(words)),
            6 => s.push_str(*r.pick(&["=", ";", "; ", " ;", " = "])),
            7 => s.push_str(&gen::fws(r)),
            8 => s.push_str(*r.pick(&["\r\n ", " \r\n", "\r\n \r\n ", "\t", " "])),
            _ => s.push_str(*r.pick(NASTY)),
        }
    }
    s
}

fn c08_structure(c: &mut Case<'_>) -> R {
    // all required tags, and then some structure
    let base = "v=1;a=ed25519-sha256;b=AAAA;bh=AAAA;d=a.b;s=x;h=from";
    let w = structure(&mut c.rng, &["v=1", "a=", "_x=1", "1x=1", "x_1=", "é=1", "x=1", "a=b=c", "A=1", "k=v", "k=v;", ";", "", "y=1 2", "w=\t", "g=é", "b=AAAA", "e=\u{7f}"]);
    let s = match c.rng.below(4) {
        0 => format!("{base};{w}"),
        1 => format!("{w};{base}"),
        2 => w,
        _ => {
            let k: Vec<usize> = (0..base.len()).filter(|i| base.as_bytes()[*i] == b';').collect();
            let i = *c.rng.pick(&k);
            format!("{};{w}{}", &base[..i], &base[i..])
        }
    };
    c.sample(|| show(s.as_bytes()));
    check_sig(c, &s)
}

fn c08_cross(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut t: Tags = vec![
        ("v".into(), "1".into()),
        ("a".into(), "rsa-sha256".into()),
        ("b".into(), "AAAA".into()),
        ("bh".into(), "AAAA".into()),
        ("s".into(), "x".into()),
        ("h".into(), "from".into()),
    ];
    let d = gen::domain(r);
    let i = match r.below(6) {
        0 => gen::domain(r),
        1 => {
            // shares an end, but not at a label
            format!("x{d}")
        }
        2 => d.split_once('.').map_or(d.clone(), |x| x.1.to_string()),
        3 => format!("{d}x"),
        4 => format!("{d}.{}", gen::label(r)),
        _ => gen::subdomain(r, &d),
    };
    if r.coin() {
        t.push(("i".into(), gen::qp_any(r, format!("@{i}").as_bytes(), b"", 3)));
    }
    t.push(("d".into(), d));
    let a = *r.pick(gen::BIG_TIMES);
    let b = match r.below(4) {
        0 => a,
        1 => a.saturating_add(1),
        2 => a.saturating_sub(1),
        _ => *r.pick(gen::BIG_TIMES),
    };
    if r.pct(80) {
        t.push(("t".into(), a.to_string()));
    }
    if r.pct(80) {
        t.push(("x".into(), b.to_string()));
    }
    r.shuffle(&mut t);
    let s = gen::join_tags(r, &t, 0);
    check_sig(c, &s)
}

// ---------------------------------------------------------------- C09

pub fn c09() -> Vec<Workload> {
    vec![
        wl("grammar", 60_000, 6_000_000, c09_grammar),
        wl("odd-values", 60_000, 6_000_000, c09_odd),
        wl("mutations", 30_000, 3_000_000, c09_mutate),
        wl("tag-structure", 30_000, 3_000_000, c09_structure),
        wl("real-keys", 2_000, 200_000, c09_keys),
        wl("long-lists", 800, 60_000, c09_long),
    ]
}

fn check_key(c: &mut Case<'_>, s: &str) -> R {
    let got = s.parse::<DkimKeyRecord>();
    c.nontrivial(s.as_bytes());
    match (model::key_record(s, world::SHA1), got) {
        (Parse::Unspec, _) => c.ev("left open by the specification"),
        (Parse::Ok(m), Ok(g)) => {
            if let Some(d) = refv::diff_key(&g, &m) {
                return fail("parsed to something else", format!("{}: {d}", show(s.as_bytes())));
            }
            ensure!(g.is_testing() == m.t.contains(&"y"), "is_testing", "{}: {}", show(s.as_bytes()), g.is_testing());
            c.ev("accepted");
            for (n, on) in [
                ("empty key", m.p.is_empty()),
                ("notes", m.n.is_some()),
                ("flags", !m.t.is_empty()),
                ("extension", !m.ext.is_empty()),
                ("ed25519", m.k == "ed25519"),
            ] {
                if on {
                    c.ev(&format!("accepted with {n}"));
                }
            }
        }
        (Parse::Ok(m), Err(e)) => {
            return fail("valid record rejected", format!("{} rejected with {e:?}, but means {m:?}", show(s.as_bytes())))
        }
        (Parse::Err(k, _), Ok(g)) => {
            return fail(
                format!("invalid record accepted: {}", k.join(" ")),
                format!("{} accepted as {g:?}, but has defects {k:?}", show(s.as_bytes())),
            )
        }
        (Parse::Err(k, _), Err(e)) => {
            let kind = format!("{e:?}");
            ensure!(
                k.contains(&kind.as_str()),
                format!("error {kind} does not apply"),
                "{} rejected with {kind}, but has defects {k:?}",
                show(s.as_bytes())
            );
            c.ev(&format!("rejected {kind}"));
        }
    }
    Ok(())
}

const LISTS: &[&str] = &[
    "sha256", "SHA256", "sha1", "sha1:sha256", "sha256:sha1", "sha256:foo", "foo", "", ":", "sha256:", ":sha256", "sha256::x",
    "sha256 : sha1", "sha256\r\n : foo", "ſha256", "sha-256", "sha512:sha256:sha256", "*", "email", "EMAIL", "*:email",
    "email:*", "other", "other:email", "emai", "y", "s", "Y:S", "y:s", "s:y", "y:x", "x", "y:", "yes", "s s", "y y", "=", "*,email",
];

fn record_tags(r: &mut Rng, odd: bool) -> Tags {
    let mut t: Tags = vec![];
    let pick = |r: &mut Rng, good: &[&str]| -> String {
        if odd && r.one_in(3) {
            match r.below(8) {
                0 | 1 => {
                    let v = (*r.pick(good)).to_string();
                    mutate(r, &v)
                }
                2 | 3 => {
                    let known: Vec<&str> = good.iter().copied().filter(|g| !g.contains(':')).collect();
                    gen::word_list(r, &known)
                }
                _ => (*r.pick(LISTS)).into(),
            }
        } else {
            (*r.pick(good)).into()
        }
    };
    if r.coin() {
        let hs: &[&str] = if world::SHA1 {
            &["sha256", "sha1", "sha1:sha256", "SHA1", "foo:sha1", "sha256:sha1", "sha256 : sha1 : x"]
        } else {
            &["sha256", "sha1:sha256", "SHA256", "foo:sha256", "sha256:sha1", "sha256 : sha1 : x"]
        };
        t.push(("h".into(), pick(r, hs)));
    }
    if r.coin() {
        let k = if odd && r.one_in(6) {
            let w = *r.pick(&["rsa", "ed25519"]);
            gen::near_word(r, w)
        } else if odd && r.one_in(3) {
            (*r.pick(&["", "dsa", "rſa", "rsa:ed25519", "ed448", "ed25519 ", "RSA", "rsa256", "ed 25519"])).to_string()
        } else {
            let s = *r.pick(&["rsa", "ed25519"]);
            recase(r, s)
        };
        t.push(("k".into(), k));
    }
    if r.one_in(3) {
        let n = if odd && r.coin() {
            (*r.pick(&["=", "=4", "=zz", "=4 1", "x=", "a=3Bb", "=C3", "=ff=fe", "\u{1}", "a\r\n b", "=3d", "é=C3=A9"])).to_string()
        } else {
            let (b, p) = (gen::word(r), *r.pick(&[0, 20, 100]));
            let mut v = gen::qp_any(r, &b, b"", p);
            if r.coin() {
                v = format!("{v} x\t{v}");
            }
            v
        };
        t.push(("n".into(), n));
    }
    if !(odd && r.one_in(8)) {
        let p = match r.below(8) {
            0 => String::new(),
            1 if odd => odd_b64(r),
            _ => {
                let v = b64(r);
                let k = *r.pick(&[0, 0, 10]);
                gen::sprinkle(r, &v, k)
            }
        };
        t.push(("p".into(), p));
    }
    if r.one_in(3) {
        t.push(("s".into(), pick(r, &["*", "email", "EMAIL", "foo:*", "email : *", "*:x", "email:email"])));
    }
    if r.one_in(3) {
        t.push(("t".into(), pick(r, &["y", "s", "y:s", "S:Y", "q", "y : x", "s:s"])));
    }
    for _ in 0..r.below(3) {
        let n = (*r.pick(&["x", "g", "V", "P", "K", "pp", "x_y", "v1", "a", "H9"])).to_string();
        if !t.iter().any(|e| e.0 == n) {
            t.push((n, gen::ext_value(r, false)));
        }
    }
    r.shuffle(&mut t);
    if r.coin() {
        let v = if odd && r.one_in(3) { *r.pick(&["DKIM2", "dkim1", "1", "", "DKIM1 ", "DKIM 1", "DKIM11"]) } else { "DKIM1" };
        let i = if odd && r.one_in(4) { r.below(t.len() + 1) } else { 0 };
        t.insert(i, ("v".into(), v.into()));
    }
    if odd && r.one_in(10) && !t.is_empty() {
        let e = t[r.below(t.len())].clone();
        t.push(e);
    }
    t
}

fn c09_long(c: &mut Case<'_>) -> R {
    let odd = c.rng.one_in(4);
    let mut t = record_tags(&mut c.rng, odd);
    let r = &mut c.rng;
    let n = gen::many(r, 6000);
    let what = match r.below(6) {
        0 | 1 => {
            let (k, words): (&str, &[&str]) = *r.pick(&[
                ("h", &["sha256", "sha1", "", "sha 256", "é"][..]),
                ("s", &["*", "email", "", "e mail", "**"]),
                ("t", &["y", "s", "", "y s", "é"]),
            ]);
            let v = long_list(r, n, &|i| format!("x{i}"), words, ":");
            set_tag(&mut t, k, v);
            "list items"
        }
        2 if !t.is_empty() => {
            many_tags(r, &mut t, n.min(1500));
            if t.iter().skip(1).any(|e| e.0 == "v") && r.coin() {
                t.retain(|e| e.0 != "v");
            }
            "tags"
        }
        3 => {
            let mut v = model::b64_encode(&r.bytes(n));
            match r.below(5) {
                0 => v.push('='),
                1 => {
                    let i = *r.pick(&[0, v.len() / 2, v.len() - 4]);
                    v.replace_range(i..i + 1, "_");
                }
                2 => {
                    let i = *r.pick(&[0, v.len() / 2, v.len() - 4]);
                    v.insert_str(i, " ");
                }
                _ => {}
            }
            set_tag(&mut t, "p", v);
            "base64"
        }
        4 => {
            let mut v = "=41b".repeat(n);
            if r.coin() {
                let i = *r.pick(&[0, v.len() - 4]);
                v.replace_range(i..i + 2, "=g");
            }
            set_tag(&mut t, "n", v);
            "notes"
        }
        _ if !t.is_empty() => {
            let k = r.below(t.len());
            let w = String::from_utf8(gen::wsp(r, n)).unwrap();
            t[k].1 = if r.coin() { format!("{w}{}", t[k].1) } else { format!("{}{}x", t[k].1, w) };
            "whitespace"
        }
        _ => "nothing",
    };
    c.ev(&format!("many or long: {what}"));
    let s = gen::join_tags(&mut c.rng, &t, 0);
    c.sample(|| format!("{n} {what}"));
    check_key(c, &s)
}

fn c09_grammar(c: &mut Case<'_>) -> R {
    let t = record_tags(&mut c.rng, false);
    let pct = *c.rng.pick(&[0, 10, 40]);
    let s = gen::join_tags(&mut c.rng, &t, pct);
    c.sample(|| show(s.as_bytes()));
    check_key(c, &s)
}

fn c09_odd(c: &mut Case<'_>) -> R {
    let t = record_tags(&mut c.rng, true);
    let pct = *c.rng.pick(&[0, 0, 20]);
    let s = gen::join_tags(&mut c.rng, &t, pct);
    c.sample(|| show(s.as_bytes()));
    check_key(c, &s)
}

fn c09_mutate(c: &mut Case<'_>) -> R {
    let t = record_tags(&mut c.rng, false);
    let s = gen::join_tags(&mut c.rng, &t, 5);
    for _ in 0..4 {
        let m = mutate(&mut c.rng, &s);
        check_key(c, &m)?;
    }
    Ok(())
}

fn c09_structure(c: &mut Case<'_>) -> R {
    let w = structure(&mut c.rng, &["v=DKIM1", "p=", "p=AAAA", "k=rsa", "t=s", "n=x y", "_x=1", "1x=1", "é=1", "x=1", "a=b=c", "A=1", ";", "", "w=\t", "h=sha256"]);
    let s = match c.rng.below(4) {
        0 => format!("v=DKIM1;p=AAAA;{w}"),
        1 => format!("{w};p=AAAA"),
        2 => format!("p={w}"),
        _ => w,
    };
    check_key(c, &s)
}

fn c09_keys(c: &mut Case<'_>) -> R {
    let k = gen::good_key(&mut c.rng);
    let odd = c.rng.below(60);
    let s = gen::record_any(&mut c.rng, k, odd);
    check_key(c, &s)
}

// ---------------------------------------------------------------- C21

pub fn c21() -> Vec<Workload> {
    vec![
        wl("quoted-printable", 60_000, 6_000_000, c21_qp),
        wl("quoted-printable-decoding", 60_000, 6_000_000, c21_decode),
        wl("base64", 60_000, 6_000_000, c21_b64),
        wl("all-bytes", 66_000, 66_000, c21_small),
        wl("keywords", 20_000, 2_000_000, c21_words),
    ]
}

fn some_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => {
            let n = gen::size(r, 5000);
            r.bytes(n)
        }
        1 => gen::field_value(r),
        2 => {
            let n = r.below(8);
            r.bytes(n)
        }
        3 => {
            let mut v = vec![];
            for _ in 0..r.below(8) {
                v.extend(r.pick(NASTY).bytes());
            }
            v
        }
        4 => {
            // broken UTF-8
            let mut v: Vec<u8> = "é中😀x".bytes().collect();
            for _ in 0..1 + r.below(3) {
                if !v.is_empty() {
                    let i = r.below(v.len());
                    if r.coin() {
                        v.remove(i);
                    } else {
                        v[i] = r.u64() as u8;
                    }
                }
            }
            v
        }
        _ => {
            let mut v = vec![];
            for _ in 0..r.below(10) {
                v.extend(gen::word(r));
            }
            v
        }
    }
}

fn check_qp(c: &mut Case<'_>, b: &[u8], special: Option<char>, ascii: bool) -> R {
    let e = if ascii { qp::encode_ascii_only(b, special) } else { qp::encode(b, special) };
    c.nontrivial(b);
    let desc = || format!("{} (protect {special:?}, ASCII {ascii}) encoded as {}", show(b), show(e.as_bytes()));
    if ascii {
        ensure!(e.is_ascii(), "ASCII-only encoding is not ASCII", "{}", desc());
    }
    for (i, ch) in e.char_indices() {
        let safe = if ch.is_ascii() {
            ch.is_ascii_graphic() && ch != ';'
        } else {
            true
        };
        ensure!(safe, "encoded text is not safe in a tag value", "{}", desc());
        if ch == '=' {
            let h = e.as_bytes().get(i + 1..i + 3);
            ensure!(
                h.is_some_and(|h| h.iter().all(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(b))),
                "malformed escape",
                "{}",
                desc()
            );
        }
        if ch != '=' && !ch.is_ascii_hexdigit() {
            ensure!(special != Some(ch), "protected character not encoded", "{}", desc());
        }
    }
    match qp::decode(&e) {
        Ok(d) => ensure!(d == b, "quoted-printable does not round-trip", "{} decodes as {}", desc(), show(&d)),
        Err(_) => return fail("quoted-printable does not round-trip", format!("{} does not decode", desc())),
    }
    c.ev("round trips");
    // with white space between the encoded characters
    let mut w = String::new();
    let mut it = e.chars();
    while let Some(ch) = it.next() {
        if c.rng.one_in(6) {
            w.push_str(&gen::fws(&mut c.rng));
        }
        w.push(ch);
        if ch == '=' {
            w.extend(it.next());
            w.extend(it.next());
        }
    }
    if c.rng.one_in(4) {
        w.push_str(&gen::fws(&mut c.rng));
    }
    match qp::decode(&w) {
        Ok(d) if d == b => {}
        d => return fail("folded quoted-printable does not round-trip", format!("{}, folded {}: {d:?}", desc(), show(w.as_bytes()))),
    }
    c.ev("round trips with white space");
    Ok(())
}

fn c21_qp(c: &mut Case<'_>) -> R {
    let b = some_bytes(&mut c.rng);
    let special = match c.rng.below(4) {
        0 => None,
        1 => Some('|'),
        2 => Some(*c.rng.pick(&[':', '=', ';', 'é', 'a', '中', '"', ' ', '@', '|', 'A', '0', '😀'])),
        _ => Some(char::from_u32(c.rng.range(0x21, 0x7e) as u32).unwrap()),
    };
    let ascii = c.rng.coin();
    c.sample(|| format!("{} protecting {special:?}", show(&b)));
    check_qp(c, &b, special, ascii)
}

fn c21_decode(c: &mut Case<'_>) -> R {
    let b = some_bytes(&mut c.rng);
    let b = &b[..b.len().min(200)];
    let pct = *c.rng.pick(&[0, 30, 100]);
    let mut s = gen::qp_any(&mut c.rng, b, b"", pct);
    if c.rng.pct(80) {
        s = mutate(&mut c.rng, &s);
    }
    if c.rng.one_in(10) {
        s = String::from_utf8_lossy(&c.rng.bytes(6)).into_owned();
    }
    c.nontrivial(s.as_bytes());
    match (model::qp_decode(&s), qp::decode(&s)) {
        (Dec::Unspec, _) => c.ev("left open by the specification"),
        (Dec::Ok(m), Ok(g)) => {
            ensure!(m == g, "quoted-printable decodes differently", "{} decodes as {} instead of {}", show(s.as_bytes()), show(&g), show(&m));
            c.ev("decoded");
        }
        (Dec::Bad, Err(_)) => c.ev("malformed rejected"),
        (Dec::Ok(m), Err(_)) => return fail("quoted-printable rejected", format!("{} rejected, but is {}", show(s.as_bytes()), show(&m))),
        (Dec::Bad, Ok(g)) => return fail("malformed quoted-printable accepted", format!("{} decodes as {}", show(s.as_bytes()), show(&g))),
    }
    match (model::qp_section_decode(&s), qp::decode_qp_section(&s)) {
        (Some(m), Ok(g)) if m == g => c.ev("section decoded"),
        (None, Err(_)) => c.ev("malformed section rejected"),
        (m, g) => return fail("qp-section", format!("{} decodes as {g:?} instead of {m:?}", show(s.as_bytes()))),
    }
    Ok(())
}

fn c21_b64(c: &mut Case<'_>) -> R {
    let b = some_bytes(&mut c.rng);
    let e = encode_base64(&b);
    c.nontrivial(&b);
    ensure!(e == model::b64_encode(&b), "base64 encoding", "{} encoded as {e}", show(&b));
    ensure!(decode_base64(&e).as_deref() == Ok(&b[..]), "base64 does not round-trip", "{}", show(&b));
    c.ev("base64 round trips");
    let s = if c.rng.coin() { odd_b64(&mut c.rng) } else { mutate(&mut c.rng, &e) };
    match (model::b64_decode(&s), decode_base64(&s)) {
        (Dec::Unspec, _) => c.ev("left open by the specification"),
        (Dec::Ok(m), Ok(g)) => {
            ensure!(m == g, "base64 decodes differently", "{} decodes as {} instead of {}", show(s.as_bytes()), show(&g), show(&m));
            c.ev("base64 decoded");
        }
        (Dec::Bad, Err(_)) => c.ev("malformed base64 rejected"),
        (Dec::Ok(_), Err(_)) => return fail("base64 rejected", show(s.as_bytes())),
        (Dec::Bad, Ok(g)) => return fail("malformed base64 accepted", format!("{} decodes as {}", show(s.as_bytes()), show(&g))),
    }
    Ok(())
}

/// All strings of one and two bytes, every option.
fn c21_small(c: &mut Case<'_>) -> R {
    let n = c.index;
    if n > 65_792 {
        return Ok(());
    }
    let b = match n {
        0 => vec![],
        1..=256 => vec![(n - 1) as u8],
        _ => vec![((n - 257) >> 8) as u8, (n - 257) as u8],
    };
    let special = if b.is_empty() { Some('|') } else { Some(b[0] as char).filter(|c| *c != '=') };
    for ascii in [false, true] {
        check_qp(c, &b, None, ascii)?;
        check_qp(c, &b, special, ascii)?;
    }
    let e = encode_base64(&b);
    ensure!(decode_base64(&e).as_deref() == Ok(&b[..]), "base64 does not round-trip", "{}", show(&b));
    if let Ok(s) = std::str::from_utf8(&b) {
        match (model::qp_decode(s), qp::decode(s)) {
            (Dec::Ok(m), Ok(g)) if m == g => {}
            (Dec::Bad, Err(_)) => {}
            (Dec::Unspec, _) => {}
            _ => return fail("quoted-printable decodes differently", show(&b)),
        }
        match (model::b64_decode(s), decode_base64(s)) {
            (Dec::Ok(m), Ok(g)) if m == g => {}
            (Dec::Bad, Err(_)) => {}
            (Dec::Unspec, _) => {}
            _ => return fail("base64 decodes differently", show(&b)),
        }
    }
    Ok(())
}

fn c21_words(c: &mut Case<'_>) -> R {
    use CanonicalizationAlgorithm::{Relaxed, Simple};
    // what is printed
    let algs = [(Simple, "simple"), (Relaxed, "relaxed")];
    for (a, n) in algs {
        ensure!(a.canonical_str() == n && a.to_string() == n, "keyword", "{a}");
        ensure!(n.parse::<CanonicalizationAlgorithm>() == Ok(a), "keyword does not round-trip", "{n}");
        for (b, m) in algs {
            let v = Canonicalization::from((a, b));
            let s = v.to_string();
            ensure!(s == format!("{n}/{m}") && v.canonical_str() == s, "keyword", "{v:?} prints as {s}");
            ensure!(s.parse::<Canonicalization>() == Ok(v), "keyword does not round-trip", "{s}");
            ensure!(v.header == a && v.body == b, "canonicalization parts", "{v:?}");
        }
    }
    for h in HashAlgorithm::all() {
        for k in [KeyType::Rsa, KeyType::Ed25519] {
            let Some(a) = SigningAlgorithm::from_parts(k, h) else {
                ensure!(k == KeyType::Ed25519 && world::is_sha1(h), "algorithm from parts", "{k}/{h}");
                continue;
            };
            let s = a.to_string();
            ensure!(s == format!("{}-{}", k.canonical_str(), h.canonical_str()), "keyword", "{s}");
            ensure!(s.parse::<SigningAlgorithm>() == Ok(a) && a.canonical_str() == s, "keyword does not round-trip", "{s}");
            let p: (KeyType, HashAlgorithm) = a.into();
            ensure!(p == (k, h) && a.key_type() == k && a.hash_algorithm() == h, "algorithm parts", "{s}: {p:?}");
        }
    }
    c.ev("keywords printed");
    // what is read
    let words = [
        "simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed", "rsa-sha256",
        "ed25519-sha256", "rsa-sha1", "", "/", "none", "pass", "fail", "policy", "neutral", "temperror", "permerror",
    ];
    let w = *c.rng.pick(&words);
    let s = if c.rng.coin() { recase(&mut c.rng, w) } else { mutate(&mut c.rng, w) };
    c.nontrivial(s.as_bytes());
    let low = s.to_ascii_lowercase();
    let one = |s: &str| match s {
        "simple" => Some(Simple),
        "relaxed" => Some(Relaxed),
        _ => None,
    };
    let both = match low.split_once('/') {
        None => one(&low).map(|h| (h, Simple)),
        Some((h, b)) => one(h).and_then(|h| Some((h, one(b)?))),
    };
    let got = s.parse::<Canonicalization>().ok();
    ensure!(got == both.map(Canonicalization::from), "canonicalization keyword", "{} parses as {got:?}", show(s.as_bytes()));
    let got = s.parse::<CanonicalizationAlgorithm>().ok();
    ensure!(got == one(&low), "canonicalization keyword", "{} parses as {got:?}", show(s.as_bytes()));
    let got = s.parse::<SigningAlgorithm>().ok().map(|a| a.to_string());
    let want = match low.as_str() {
        "rsa-sha256" | "ed25519-sha256" => Some(low.clone()),
        "rsa-sha1" if world::SHA1 => Some(low.clone()),
        _ => None,
    };
    ensure!(got == want, "algorithm keyword", "{} parses as {got:?}", show(s.as_bytes()));
    use viadkim::DkimResult as D;
    let results = [
        (D::None, "none"),
        (D::Pass, "pass"),
        (D::Fail, "fail"),
        (D::Policy, "policy"),
        (D::Neutral, "neutral"),
        (D::Temperror, "temperror"),
        (D::Permerror, "permerror"),
    ];
    for (d, n) in results {
        ensure!(d.to_string() == n && d.canonical_str() == n, "result keyword", "{n}: {d}");
    }
    c.ev("keywords read");
    Ok(())
}

// ---------------------------------------------------------------- C22

pub fn c22() -> Vec<Workload> {
    vec![
        wl("names", 100_000, 10_000_000, c22_names),
        wl("comparison", 60_000, 6_000_000, c22_compare),
        wl("identities", 100_000, 10_000_000, c22_identity),
        wl("small-names", 20_000, 400_000, c22_small),
        wl("a-labels", 60_000, 6_000_000, c22_a_labels),
        wl("lengths", 30_000, 3_000_000, c22_lengths),
    ]
}

pub fn odd_name(r: &mut Rng) -> String {
    match r.below(20) {
        0 => String::new(),
        1 => ".".into(),
        2 => {
            let d = gen::domain(r);
            format!("{d}.")
        }
        3 => {
            let d = gen::domain(r);
            format!(".{d}")
        }
        4 => {
            let d = gen::domain(r);
            d.replacen('.', "..", 1)
        }
        5 => format!("{}.com", "a".repeat(r.range(60, 66))),
        6 => {
            // total lengths around the limit
            let n = r.range(245, 258);
            let mut s = String::new();
            while s.len() + 64 < n {
                s.push_str(&"c".repeat(60));
                s.push('.');
            }
            let k = (n - s.len()).max(1);
            s.push_str(&"d".repeat(k.min(63)));
            s
        }
        7 if r.coin() => {
            // a final label of digits only, or almost
            let n = if r.coin() { 1 + r.below(64) } else { 1 + r.below(6) };
            let mut d: Vec<u8> = (0..n).map(|_| b'0' + r.below(10) as u8).collect();
            if r.one_in(3) {
                let i = r.below(n);
                d[i] = *r.pick(b"axeXE_-+.");
            }
            let d = String::from_utf8(d).unwrap();
            if r.coin() { d } else { format!("{}.{d}", gen::label(r)) }
        }
        7 => (*r.pick(&["example.123", "1.2.3.4", "123", "a.1a", "a.0", "1", "x.١", "a.１２"])).into(),
        8 => (*r.pick(&["-a.com", "a-.com", "a.-com", "a.com-", "-", "a.b-", "a--b.com", "ab--c.de"])).into(),
        9 => (*r.pick(&["a b.com", "a\t.com", "a\0b.com", "a,b.com", "a*b", "a/b.c", "a:b.c", "a@b.c", "a;b.c", "[a].b", "a\u{7f}.c", "a%.c", "(a).b"])).into(),
        10 => (*r.pick(&["xn--", "xn--a.com", "xn--mnchen-3ya.de", "XN--MNCHEN-3YA.de", "xn--ls8h.la", "a.xn--p1ai", "xn--80ak6aa92e.com", "xn--a-ecp.ru", "xn--0", "xn---", "xn--zca.com", "xn--mnchen-3YA.com"])).into(),
        11 => (*r.pick(&["münchen.de", "MÜNCHEN.DE", "faß.de", "ａ.com", "a。b", "a．com", "a\u{200d}b.com", "\u{ad}.com", "a\u{ad}b.com", "é", "e\u{301}.com", "☃.net", "\u{10ffff}.com", "ß.com", "ﬁ.com", "א.com", "א1.com", "1א.com", "٠.com", "K.com", "x.рф", "中.中"])).into(),
        12 => {
            // an international label of a certain length
            let n = r.range(1, 60);
            format!("{}.com", "é".repeat(n))
        }
        13 => {
            let n = r.range(1, 70);
            format!("{}é.com", "a".repeat(n))
        }
        14 => {
            let n = 1 + r.below(200);
            "a.".repeat(n) + "b"
        }
        _ => {
            let d = gen::domain(r);
            if r.coin() {
                mutate(r, &d)
            } else {
                d
            }
        }
    }
}

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check_name(c: &mut Case<'_>, s: &str) -> R {
    c.nontrivial(s.as_bytes());
    let sh = show(s.as_bytes());
    macro_rules! one {
        ($t:ty, $domain:literal) => {{
            let want = model::valid_name(s, $domain);
            let got = <$t>::new(s);
            ensure!(got.is_ok() == want, concat!(stringify!($t), " validity"), "{sh}: accepted {} instead of {want}", got.is_ok());
            ensure!(s.parse::<$t>().is_ok() == want, concat!(stringify!($t), " validity"), "{sh} parsed, instead of {want}");
            if let Ok(n) = got {
                ensure!(n.as_ref() == s && n.to_string() == s, "name not kept as written", "{sh}: {n}");
                ensure!(s.parse::<$t>().unwrap().as_ref() == s, "name not kept as written", "{sh}: {n}");
                let (a, u) = (n.to_ascii(), n.to_unicode());
                ensure!(Some(&a) == model::a_label(s).as_ref(), "ASCII form", "{sh}: {a}");
                ensure!(a.is_ascii() && u == model::u_label(s), "Unicode form", "{sh}: {u}");
                // there and back
                let (na, nu) = (<$t>::new(a.as_str()), <$t>::new(u.as_str()));
                let (Ok(na), Ok(nu)) = (na, nu) else {
                    return fail("converted name is invalid", format!("{sh}: {a}, {u}"));
                };
                ensure!(na.to_ascii() == a, "conversion loses identity", "{sh}: {} and {a}", na.to_ascii());
                ensure!(nu.to_ascii() == a, "conversion loses identity", "{sh}: {} and {a}", nu.to_ascii());
                for k in 0..3 {
                    let t: String = match k {
                        0 => s.to_ascii_uppercase(),
                        1 => s.to_ascii_lowercase(),
                        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
                    };
                    // a name written in another case
                    if let Ok(o) = <$t>::new(t.as_str()) {
                        ensure!(o == n && hash(&o) == hash(&n), "comparison or hash depends on case", "{sh} and {t}");
                    }
                }
                c.ev(concat!(stringify!($t), " accepted"));
                if !s.is_ascii() {
                    c.ev("international name");
                }
            } else {
                c.ev(concat!(stringify!($t), " rejected"));
            }
        }};
    }
    one!(DomainName, true);
    one!(Selector, false);
    Ok(())
}

fn c22_names(c: &mut Case<'_>) -> R {
    let s = odd_name(&mut c.rng);
    c.sample(|| s.clone());
    check_name(c, &s)
}

/// A label in Punycode of anything.
fn odd_a_label(r: &mut Rng) -> String {
    const PIECES: &[&str] = &[
        "xn--", "XN--", "-", "--", "a", "b", "Z", "0", "_", "é", "e\u{301}", "É", "ß", "ſ", "ﬁ", "中", "例", "א", "ا", "١", "\u{200d}", "\u{200c}",
        "\u{ad}", "।", "。", ".", "ａ", "K", "İ", "ς", "🎆", "\u{301}", "क्", "·", "l·l", "à",
    ];
    let n = 1 + r.below(6);
    let u: String = (0..n).map(|_| *r.pick(PIECES)).collect();
    let p = idna::punycode::encode_str(&u).unwrap_or_default();
    let x = *r.pick(&["xn--", "xn--", "xn--", "XN--", "Xn--", "xn--xn--", "xn-"]);
    match r.below(8) {
        0 => format!("{x}{}", mutate(r, &p)),
        1 => format!("{x}{}", p.to_ascii_uppercase()),
        2 => u,
        _ => format!("{x}{p}"),
    }
}

fn c22_a_labels(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let mut s = odd_a_label(r);
    if r.coin() {
        let d = if r.coin() { gen::label(r) } else { odd_a_label(r) };
        s = if r.coin() { format!("{s}.{d}") } else { format!("{d}.{s}") };
    }
    c.sample(|| s.clone());
    check_name(c, &s)
}

/// Names and labels of lengths around the limits, in all manners of writing.
fn c22_lengths(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let some = |r: &mut Rng, max: usize| -> String {
        let n = 1 + r.below(max);
        match r.below(5) {
            0 => "é".repeat(n.div_ceil(2)),
            1 => format!("{}é", "a".repeat(n)),
            2 => format!("xn--{}", idna::punycode::encode_str(&format!("{}é", "a".repeat(n))).unwrap_or_default()),
            3 => format!("xn--{}", idna::punycode::encode_str(&"字".repeat(n)).unwrap_or_default()),
            _ => "b".repeat(n),
        }
    };
    let mut s = if r.coin() { some(r, 60) } else { "a".into() };
    if r.one_in(3) {
        // one label of about 63
        let n = r.range(58, 68);
        let a = model::a_label(&s).map_or(s.len(), |a| a.len());
        s = "c".repeat(n.saturating_sub(a)) + &s;
    } else {
        // 253 and somewhat more or less in all
        let n = r.range(248, 260);
        let len = |s: &str| model::a_label(s).map_or(s.len(), |a| a.len());
        while len(&s) + 64 < n {
            let l = if r.coin() { some(r, 55) } else { "d".repeat(1 + r.below(63)) };
            s = if r.coin() { format!("{s}.{l}") } else { format!("{l}.{s}") };
        }
        let have = len(&s) + 1;
        if have < n {
            let l = "e".repeat((n - have).min(63));
            s = if r.coin() { format!("{s}.{l}") } else { format!("{l}.{s}") };
        }
    }
    c.sample(|| s.clone());
    check_name(c, &s)
}

/// All short strings over an alphabet with every role.
fn c22_small(c: &mut Case<'_>) -> R {
    const A: &[char] = &['a', 'Z', '0', '-', '_', '.', 'é'];
    let mut n = c.index as usize;
    let mut s = String::new();
    while n > 0 {
        n -= 1;
        s.push(A[n % A.len()]);
        n /= A.len();
    }
    check_name(c, &s)
}

fn c22_compare(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let a = gen::domain(r);
    let b = match r.below(9) {
        0 => gen::domain(r),
        1 => format!("x{a}"),
        2 => a.split_once('.').map_or(a.clone(), |x| x.1.to_string()),
        3 => format!("{a}x"),
        4 => format!("{a}.{}", gen::label(r)),
        5 => recase(r, &a),
        6 => format!("x-{a}"),
        7 => {
            let mut v: Vec<char> = a.chars().collect();
            let i = r.below(v.len());
            v[i] = *r.pick(&['a', 'b', '.', '-', 'x']);
            v.into_iter().collect()
        }
        _ => gen::subdomain(r, &a),
    };
    if !model::valid_name(&b, true) {
        return Ok(());
    }
    c.nontrivial(format!("{a} {b}").as_bytes());
    let (x, y) = (DomainName::new(a.as_str()).unwrap(), DomainName::new(b.as_str()).unwrap());
    for (x, y, a, b) in [(&x, &y, &a, &b), (&y, &x, &b, &a), (&x, &x, &a, &a)] {
        let want = model::eq_or_sub(a, b);
        let got = x.eq_or_subdomain_of(y);
        ensure!(got == want, "equal or subdomain", "{a} of {b}: {got}");
        let same = a.eq_ignore_ascii_case(b);
        ensure!((x == y) == same, "equality", "{a} and {b}: {}", x == y);
        if same {
            ensure!(hash(x) == hash(y), "hash of equal names", "{a} and {b}");
        }
        c.ev(if want { "below" } else { "not below" });
    }
    let set: HashSet<DomainName> = [x, y].into();
    ensure!(set.len() == 2 - a.eq_ignore_ascii_case(&b) as usize, "hash set of names", "{a} and {b}");
    Ok(())
}

fn odd_identity(r: &mut Rng) -> String {
    let l = match r.below(10) {
        0 => String::new(),
        1 => "x".repeat(r.range(62, 66)),
        2 => format!("\"{}\"", "y".repeat(r.range(60, 64))),
        3 => "é".repeat(r.range(30, 34)),
        4 => (*r.pick(&[
            ".a", "a.", "a..b", "a b", "a\"b", "\"a", "a\"", "\"a\"b", "\"", "\"\"", "\"\\\"", "\"\\\\\"", "\"\\é\"", "\"\\ \"",
            "\"a\\\"", "\"a\u{7f}\"", "\"\t\"", "\"\\\t\"", "a,b", "a;b", "(a)", "a:b", "a\\b", "<a", "[a]", "a@b", "\"a@b\"", "@", "\u{a0}", "\u{85}", "\"\r\n \"",
        ]))
        .into(),
        5 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(&['"', '\\', 'a', ' ', '.', 'é', '@'])).collect()
        }
        6 => {
            let s = gen::local_part(r);
            mutate(r, &s)
        }
        _ => gen::local_part(r),
    };
    let d = if r.one_in(3) { odd_name(r) } else { gen::domain(r) };
    match r.below(12) {
        0 => l,
        1 => d,
        2 => format!("{l}@"),
        3 => format!("{l}@@{d}"),
        _ => format!("{l}@{d}"),
    }
}

fn c22_identity(c: &mut Case<'_>) -> R {
    let s = odd_identity(&mut c.rng);
    c.nontrivial(s.as_bytes());
    c.sample(|| s.clone());
    let sh = show(s.as_bytes());
    let want = model::identity(&s);
    let got = Identity::new(&s);
    let parsed = s.parse::<Identity>();
    match (&got, &want) {
        (Ok(g), Some(m)) => {
            ensure!(g.local_part.as_ref().map(|s| s.to_string()) == m.0 && g.domain.as_ref() == m.1, "identity parts", "{sh}: {g:?}");
            ensure!(g.to_string() == s, "identity does not print back", "{sh}: {g}");
            ensure!(parsed.as_ref() == Ok(g), "identity parsed differently", "{sh}");
            let d = Identity::from_domain(g.domain.clone());
            ensure!(d.local_part.is_none() && d.domain == g.domain && d.to_string() == format!("@{}", g.domain), "identity from domain", "{d}");
            ensure!((d == *g) == m.0.is_none(), "identity comparison", "{d} and {g}");
            c.ev("identity accepted");
        }
        (Err(_), None) => {
            ensure!(parsed.is_err(), "identity parsed differently", "{sh}");
            c.ev("identity rejected");
        }
        (g, m) => return fail("identity validity", format!("{sh}: {g:?}, but should be {m:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- C25

pub fn c25() -> Vec<Workload> {
    vec![
        wl("names", 60_000, 6_000_000, c25_names),
        wl("bodies", 100_000, 10_000_000, c25_bodies),
        wl("small-bodies", 20_000, 2_000_000, c25_small),
        wl("many-lines", 2_000, 60_000, c25_many_lines),
        wl("text", 40_000, 4_000_000, c25_text),
        wl("collections", 20_000, 2_000_000, c25_lists),
    ]
}

fn c25_names(c: &mut Case<'_>) -> R {
    let r = &mut c.rng;
    let s = match r.below(6) {
        0 => String::new(),
        1 => gen::field_name(r),
        2 => {
            let c = char::from_u32(r.below(0x180) as u32).unwrap();
            let s = gen::field_name(r);
            if r.coin() { format!("{s}{c}") } else { format!("{c}") }
        }
        _ => {
            let s = gen::field_name(r);
            mutate(r, &s)
        }
    };
    c.nontrivial(s.as_bytes());
    let want = model::valid_field_name(&s);
    let got = FieldName::new(s.as_str());
    ensure!(got.is_ok() == want, "field name validity", "{}: accepted {}", show(s.as_bytes()), got.is_ok());
    let Ok(n) = got else {
        c.ev("name rejected");
        return Ok(());
    };
    c.ev("name accepted");
    ensure!(n.as_ref() == s && n.to_string() == s, "name not kept as written", "{s}: {n}");
    let t = if c.rng.coin() { recase(&mut c.rng, &s) } else { gen::field_name(&mut c.rng) };
    let o = FieldName::new(t.as_str()).unwrap();
    let same = s.eq_ignore_ascii_case(&t);
    ensure!((n == o) == same && (n == t.as_str()) == same, "name comparison", "{s} and {t}");
    if same {
        ensure!(hash(&n) == hash(&o), "hash of equal names", "{s} and {t}");
        c.ev("equal names");
    }
    let set: HashSet<FieldName> = [n, o].into();
    ensure!(set.len() == 2 - same as usize, "hash set of names", "{s} and {t}");
    Ok(())
}

fn check_body(c: &mut Case<'_>, b: &[u8]) -> R {
    c.nontrivial(b);
    let want = model::valid_field_body(b);
    let got = FieldBody::new(b);
    ensure!(got.is_ok() == want, "field body validity", "{}: accepted {}", show(b), got.is_ok());
    if let Ok(g) = got {
        ensure!(g.as_ref() == b, "field body changed", "{}: {}", show(b), show(g.as_ref()));
        c.ev("body accepted");
    } else {
        c.ev("body rejected");
    }
    Ok(())
}

fn c25_bodies(c: &mut Case<'_>) -> R {
    let mut b = gen::field_value(&mut c.rng);
    if c.rng.pct(70) {
        for _ in 0..1 + c.rng.below(3) {
            let i = c.rng.below(b.len() + 1);
            match c.rng.below(6) {
                0 => b.insert(i, c.rng.u64() as u8),
                1 => b.insert(i, c.rng.below(0x20) as u8),
                2 => {
                    if i < b.len() {
                        b.remove(i);
                    }
                }
                3 => {
                    b.splice(i..i, *b"\r\n");
                }
                4 => {
                    let k = 1 + c.rng.below(3);
                    let w = gen::wsp(&mut c.rng, k);
                    b.splice(i..i, [&b"\r\n"[..], &w].concat());
                }
                _ => {
                    b.splice(i..i, c.rng.pick(NASTY).bytes());
                }
            }
        }
    }
    check_body(c, &b)
}

/// Very many lines, all good but one perhaps.
fn c25_many_lines(c: &mut Case<'_>) -> R {
    let mut rng = Rng::new(c.rng.u64());
    let r = &mut rng;
    let n = gen::many(r, 70_000);
    let text = r.one_in(3);
    let mut lines: Vec<Vec<u8>> = (0..n)
        .map(|_| if text && r.one_in(3) { b"X-Y: z".to_vec() } else { r.pick(&[&b" a"[..], b"\tbc", b" d e", b"  f "]).to_vec() })
        .collect();
    if text {
        lines[0] = b"From: me".to_vec();
    }
    if r.pct(65) {
        let bad = r.pick(&[&b""[..], b" ", b"\t \t", b"x", b"x y", b" \x01", b" a\x7f", b" a\rb", b" a\nb", b" \0", b"\x0ba", b"X Y: z", b": z"]).to_vec();
        let at = match r.below(5) {
            0 => n - 1,
            1 => *r.pick(&[15, 16, 17, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 65_535, 65_536]) % n,
            _ => r.below(n),
        };
        if r.one_in(4) {
            lines[at].extend_from_slice(&bad);
        } else {
            lines[at] = bad;
        }
    }
    c.ev("many lines");
    if text {
        let crlf = r.coin();
        let t: Vec<String> = lines.iter().map(|l| String::from_utf8_lossy(l).into_owned()).collect();
        check_text(c, &t.join(if crlf { "\r\n" } else { "\n" }))
    } else {
        check_body(c, &lines.join(&b"\r\n"[..]))
    }
}

fn c25_small(c: &mut Case<'_>) -> R {
    const A: &[u8] = b"\r\n \tx\x80\x01";
    let mut n = c.index as usize;
    let mut s = vec![];
    while n > 0 {
        n -= 1;
        s.push(A[n % A.len()]);
        n /= A.len();
    }
    check_body(c, &s)
}

/// What the header text means; None if it is not one.
fn read_text(s: &str) -> Option<Vec<(String, Vec<u8>)>> {
    let mut fields: Vec<(String, Vec<u8>)> = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        let (line, next) = rest.split_once('\n').map_or((rest, ""), |(l, n)| (l.strip_suffix('\r').unwrap_or(l), n));
        rest = next;
        if line.starts_with([' ', '\t']) {
            let f = fields.last_mut()?;
            f.1.extend(b"\r\n");
            f.1.extend(line.bytes());
        } else {
            let (n, v) = line.split_once(':')?;
            fields.push((n.into(), v.into()));
        }
    }
    let ok = !fields.is_empty() && fields.iter().all(|f| model::valid_field_name(&f.0) && model::valid_field_body(&f.1));
    ok.then_some(fields)
}

fn same_fields(h: &[HeaderField], m: &[(String, Vec<u8>)]) -> bool {
    h.len() == m.len() && h.iter().zip(m).all(|(a, b)| a.0.as_ref() == b.0 && a.1.as_ref() == &b.1[..])
}

fn c25_text(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 8);
    let mut s = String::new();
    let mode = c.rng.below(3);
    for (n, v) in &h {
        let mut t = format!("{n}:{}\r\n", String::from_utf8_lossy(v));
        if mode == 0 || (mode == 1 && c.rng.coin()) {
            t = t.replace("\r\n", "\n");
        }
        s.push_str(&t);
    }
    match c.rng.below(8) {
        0 => {
            s.pop();
        }
        1 => s.push_str("\r\n"),
        2..=4 => s = mutate(&mut c.rng, &s),
        _ => {}
    }
    if c.rng.one_in(30) {
        s = (*c.rng.pick(&["", "\n", "\r\n", " a:b", "a", "a:", ":", "a:b", "a:b\n\n", "\na:b", "a:b\n c", "a:b\n ", "a:\n b", "a\n:b", "\u{feff}a:b", "a:b\r"])).into();
    }
    check_text(c, &s)
}

fn check_text(c: &mut Case<'_>, s: &str) -> R {
    c.nontrivial(s.as_bytes());
    c.sample(|| show(s.as_bytes()));
    let want = read_text(s);
    match (s.parse::<HeaderFields>(), want) {
        (Ok(g), Some(m)) => {
            ensure!(same_fields(g.as_ref(), &m), "header text parsed differently", "{}: {g:?}", show(s.as_bytes()));
            c.ev("text accepted");
        }
        (Err(_), None) => c.ev("text rejected"),
        (g, m) => return fail("header text validity", format!("{}: {g:?}, but should be {m:?}", show(s.as_bytes()))),
    }
    Ok(())
}

fn c25_lists(c: &mut Case<'_>) -> R {
    let mut h = match c.rng.below(400) {
        0..=20 => vec![],
        21 => gen::crowded(&mut c.rng, 9000),
        _ => gen::headers(&mut c.rng, 60),
    };
    if c.rng.one_in(3) && !h.is_empty() {
        let i = c.rng.below(h.len());
        if c.rng.coin() {
            h[i].0 = mutate(&mut c.rng, &h[i].0.clone());
        } else {
            h[i].1.push(*c.rng.pick(b"\r\n\0\x0b x\x7f"));
        }
    }
    let desc = || crate::case::show_headers(&h);
    c.cov.distinct.insert(hash(&h));
    let ok = !h.is_empty() && h.iter().all(|f| model::valid_field_name(&f.0) && model::valid_field_body(&f.1));
    let got = HeaderFields::from_vec(h.clone());
    ensure!(got.is_ok() == ok, "header collection validity", "accepted {}: {}", got.is_ok(), desc());
    let Ok(g) = got else {
        c.ev("collection rejected");
        ensure!(HeaderFields::new(vec![]).is_err(), "empty header collection", "accepted");
        return Ok(());
    };
    ensure!(same_fields(g.as_ref(), &h), "header collection differs", "{}", desc());
    let again = HeaderFields::new(g.as_ref().to_vec()).unwrap();
    ensure!(again == g && same_fields(again.as_ref(), &h), "header collection differs", "{}", desc());
    let v: Vec<HeaderField> = g.clone().into();
    ensure!(same_fields(&v, &h), "conversion to vector", "{}", desc());
    let v: Vec<HeaderField> = g.into_iter().collect();
    ensure!(same_fields(&v, &h), "iteration", "{}", desc());
    c.ev("collection accepted");
    Ok(())
}
