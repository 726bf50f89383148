//! Bodies: C04, C05, C07.

use super::*;
use sha2::{Digest, Sha256};
use crate::{
    case::{show, show_chunks, show_headers, Case, R},
    ensure, refv,
};
use viadkim::{
    canonicalize::BodyCanonicalizer,
    crypto::{CountingHasher, HashStatus},
    message_hash::{BodyHashError, BodyHasherBuilder, BodyHasherKey, BodyHasherStance},
    signer::Signer,
    verifier::{VerificationResult, Verifier},
};

// ---------------------------------------------------------------- C04

pub fn c04() -> Vec<Workload> {
    vec![
        // all strings of up to 6 (8) symbols
        wl("small-bodies", 19_531, 488_281, c04_small),
        wl("small-words", 55_987, 335_923, c04_words),
        wl("random", 12_000, 1_000_000, c04_random),
        wl("large", 400, 20_000, c04_large),
    ]
}

fn lib_canon(relaxed: bool, chunks: &[&[u8]]) -> Vec<u8> {
    let mut b = BodyCanonicalizer::new(gen::canon_alg(relaxed));
    let mut v = vec![];
    for c in chunks {
        v.extend(b.canonicalize_chunk(c));
    }
    v.extend(b.finish());
    v
}

fn canon_check(c: &mut Case<'_>, relaxed: bool, chunks: &[&[u8]], want: &[Vec<u8>]) -> R {
    let got = lib_canon(relaxed, chunks);
    if !want.contains(&got) {
        let k: Vec<String> = want.iter().map(|w| show(w)).collect();
        ensure!(
            false,
            if relaxed { "relaxed body canonicalization" } else { "simple body canonicalization" },
            "{}\n  gives     {}\n  should be {}", show_chunks(chunks), show(&got), k.join(" or ")
        );
    }
    c.ev("canonical form compared");
    Ok(())
}

fn enumerate(mut i: usize, alphabet: &[&[u8]]) -> Vec<u8> {
    let k = alphabet.len();
    let (mut n, mut span) = (0, 1);
    while i >= span {
        i -= span;
        span *= k;
        n += 1;
    }
    let mut v = vec![];
    for _ in 0..n {
        v.extend(alphabet[i % k]);
        i /= k;
    }
    v
}

fn small(c: &mut Case<'_>, b: &[u8]) -> R {
    for relaxed in [false, true] {
        let want = model::body_canon(relaxed, b);
        if want.len() > 1 {
            c.ev("unterminated white space line (either form)");
        }
        for i in 0..=b.len() {
            canon_check(c, relaxed, &[&b[..i], &b[i..]], &want)?;
        }
        let single: Vec<&[u8]> = b.chunks(1).collect();
        canon_check(c, relaxed, &single, &want)?;
        canon_check(c, relaxed, &[&[], b, &[]], &want)?;
        if want[0] != b {
            c.nontrivial(&[&[relaxed as u8], b].concat());
        }
    }
    c.sample(|| show(b));
    Ok(())
}

fn c04_small(c: &mut Case<'_>) -> R {
    let b = enumerate(c.index as usize, &[b"\r", b"\n", b" ", b"\t", b"a"]);
    small(c, &b)
}

fn c04_words(c: &mut Case<'_>) -> R {
    let b = enumerate(c.index as usize, &[b"\r\n", b" ", b"a", b"\r", b"b \tc", b"  "]);
    small(c, &b)
}

fn c04_random(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 300);
    for relaxed in [false, true] {
        let want = model::body_canon(relaxed, &b);
        for _ in 0..3 {
            let ch = gen::chunks(&mut c.rng, &b);
            canon_check(c, relaxed, &ch, &want)?;
        }
        if want[0] != b {
            c.nontrivial(&[&[relaxed as u8], &b[..]].concat());
        }
    }
    Ok(())
}

fn c04_large(c: &mut Case<'_>) -> R {
    let big = *c.rng.pick(&[10_000, 20_000, 70_000, 70_000, 150_000, 1 << 20]);
    let b = gen::body(&mut c.rng, big);
    for relaxed in [false, true] {
        let want = model::body_canon(relaxed, &b);
        for _ in 0..1 + 100_000 / (b.len() + 10_000) {
            let ch = gen::chunks(&mut c.rng, &b);
            canon_check(c, relaxed, &ch, &want)?;
        }
        c.nontrivial(&[&[relaxed as u8], &b[..]].concat());
    }
    c.ev_n("bytes canonicalized", 2 * b.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07() -> Vec<Workload> {
    vec![
        wl("random", 10_000, 800_000, c07_random),
        wl("small", 6000, 300_000, c07_small),
        wl("large", 150, 8000, c07_large),
        wl("counting-hasher", 4000, 300_000, c07_counting),
        wl("many-requests", 150, 8000, c07_crowd),
        wl_fixed("huge", 1, c07_huge),
    ]
}

type Req = (Option<usize>, bool, bool);

fn key(q: &Req) -> BodyHasherKey {
    (q.0, world::hash_alg(q.1), gen::canon_alg(q.2))
}

fn answer(canon: &[u8], q: &Req, forbid: bool) -> String {
    match q.0 {
        Some(n) if n > canon.len() => "insufficient".into(),
        Some(n) if n < canon.len() && forbid => "truncated".into(),
        n => {
            let n = n.unwrap_or(canon.len());
            format!("{n} bytes {}", model::b64_encode(&model::hash(q.1, &canon[..n])))
        }
    }
}

fn requests(r: &mut Rng, body: &[u8], chunks: &[&[u8]]) -> Vec<Req> {
    let len = canon_len(body);
    let n = match r.below(5) {
        0 => 1,
        4 => 5 + r.below(12),
        _ => 2 + r.below(3),
    };
    // sizes of the canonical form at chunk ends
    let mut marks = vec![];
    let mut t = 0;
    for ch in chunks.iter().take(20) {
        t += ch.len();
        marks.push(t);
    }
    (0..n)
        .map(|_| {
            let relaxed = r.coin();
            let l = len(relaxed);
            let limit = match r.below(10) {
                0..=2 => None,
                3 => Some(l),
                4 => Some(l + 1 + r.below(3)),
                5 => Some(l.saturating_sub(1 + r.below(3))),
                6 => Some(*r.pick(&marks)),
                7 => Some(*r.pick(&[0, 1, 2, 63, 64, 65, usize::MAX, usize::MAX - 1])),
                _ => Some(r.below(l + 2)),
            };
            (limit, world::SHA1 && r.coin(), relaxed)
        })
        .collect()
}

fn shown(r: Option<&Result<(Box<[u8]>, usize), BodyHashError>>) -> String {
    match r {
        None => "nothing".into(),
        Some(Err(BodyHashError::InsufficientInput)) => "insufficient".into(),
        Some(Err(BodyHashError::InputTruncated)) => "truncated".into(),
        Some(Ok((h, n))) => format!("{n} bytes {}", model::b64_encode(h)),
    }
}

fn hash_check(c: &mut Case<'_>, body: &[u8], chunks: &[&[u8]], qs: &[Req], forbid: bool) -> R {
    let stop = c.rng.coin();
    let mut b = BodyHasherBuilder::new(forbid);
    for q in qs {
        let k = key(q);
        b.register_canonicalization(k.0, k.1, k.2);
    }
    let mut h = b.build();
    for ch in chunks {
        if h.hash_chunk(ch) == BodyHasherStance::Done {
            c.ev("done before end of input");
            if stop {
                break;
            }
        }
    }
    let res = h.finish();
    let desc = || format!("requests (limit, sha1, relaxed) {qs:?}, forbid truncation {forbid}, {}", show_chunks(chunks));
    // One form of the body must account for all answers.
    for relaxed in [false, true] {
        let mine: Vec<&Req> = qs.iter().filter(|q| q.2 == relaxed).collect();
        let got: Vec<String> = mine
            .iter()
            .map(|q| shown(res.get(&key(q))))
            .collect();
        let forms = model::body_canon(relaxed, body);
        let wants: Vec<Vec<String>> = forms.iter().map(|f| mine.iter().map(|q| answer(f, q, forbid)).collect()).collect();
        if !wants.contains(&got) {
            let i = got.iter().zip(&wants[0]).position(|(a, b)| a != b).unwrap_or(0);
            ensure!(false, "body hash answer", "request {:?} answered {:?} instead of {:?}; {}", mine[i], got[i], wants[0][i], desc());
        }
        for g in &got {
            c.ev(match g.as_str() {
                "insufficient" => "insufficient input",
                "truncated" => "truncated input",
                _ => "hash",
            });
        }
    }
    // something not asked for
    let other = (Some(123_456_789), world::hash_alg(false), gen::canon_alg(true));
    ensure!(res.get(&other).is_none(), "answer without request", "{}", desc());
    if qs.len() > 1 {
        c.nontrivial(&[body, format!("{qs:?}{forbid}{:?}", chunks.len()).as_bytes()].concat());
    }
    c.sample(desc);
    Ok(())
}

fn c07_random(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 300);
    let ch = gen::chunks(&mut c.rng, &b);
    let qs = requests(&mut c.rng, &b, &ch);
    let forbid = c.rng.coin();
    hash_check(c, &b, &ch, &qs, forbid)
}

/// Small bodies with all limits at once.
fn c07_small(c: &mut Case<'_>) -> R {
    let i = c.rng.below(488_281);
    let b = enumerate(i, &[b"\r\n", b"\n", b" ", b"\r", b"a"]);
    let l = canon_len(&b);
    let mut qs: Vec<Req> = vec![];
    for relaxed in [false, true] {
        for n in 0..=l(relaxed) + 1 {
            if c.rng.pct(60) {
                qs.push((Some(n), world::SHA1 && c.rng.coin(), relaxed));
            }
        }
        if c.rng.coin() {
            qs.push((None, false, relaxed));
        }
    }
    let ch = gen::chunks(&mut c.rng, &b);
    let forbid = c.rng.coin();
    hash_check(c, &b, &ch, &qs, forbid)
}

fn c07_large(c: &mut Case<'_>) -> R {
    let big = *c.rng.pick(&[10_000, 70_000, 150_000, 1 << 20]);
    let b = gen::body(&mut c.rng, big);
    let ch = gen::chunks(&mut c.rng, &b);
    let qs = requests(&mut c.rng, &b, &ch);
    let forbid = c.rng.coin();
    hash_check(c, &b, &ch, &qs, forbid)
}

/// Hundreds of requests.
fn c07_crowd(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 3000);
    let ch = gen::chunks(&mut c.rng, &b);
    let n = gen::many(&mut c.rng, 700);
    let mut qs = vec![];
    while qs.len() < n {
        qs.extend(requests(&mut c.rng, &b, &ch));
    }
    qs.truncate(n);
    c.ev("many requests at once");
    let forbid = c.rng.coin();
    hash_check(c, &b, &ch, &qs, forbid)
}

/// More bytes than 32 bits count.
fn c07_huge(c: &mut Case<'_>) -> R {
    let line = format!("{:077}\r\n", c.rng.u64()).into_bytes();
    let chunk: Vec<u8> = line.iter().copied().cycle().take(line.len() * 200_000).collect();
    let total = (1u64 << 32) as usize + chunk.len() / 2;
    let forbid = c.rng.coin();
    let limits = [None, Some((1 << 32) + 77), Some(77), Some((1 << 33) + 5)];
    let mut b = BodyHasherBuilder::new(forbid);
    for l in limits {
        b.register_canonicalization(l, world::hash_alg(false), gen::canon_alg(false));
    }
    let mut h = b.build();
    let (mut n, mut want, mut cut) = (0, Sha256::new(), None);
    let l = limits[1].unwrap();
    while n < total {
        h.hash_chunk(&chunk);
        if n < l && l <= n + chunk.len() {
            cut = Some(want.clone().chain_update(&chunk[..l - n]).finalize());
        }
        want.update(&chunk);
        n += chunk.len();
    }
    let res = h.finish();
    let one = |n: usize, h: &[u8], l: Option<usize>| if forbid && l.is_some() { "truncated".into() } else { format!("{n} bytes {}", model::b64_encode(h)) };
    let want = [
        one(n, &want.finalize(), None),
        one(l, &cut.unwrap(), limits[1]),
        one(77, &model::hash(false, &chunk[..77]), Some(77)),
        "insufficient".into(),
    ];
    for (l, w) in limits.iter().zip(&want) {
        let got = shown(res.get(&key(&(*l, false, false))));
        ensure!(got == *w, "body hash answer", "{got} instead of {w} for limit {l:?} of {n} bytes");
    }
    c.ev("answers compared");
    c.ev_n("bytes", n as u64);
    c.nontrivial(&line);
    Ok(())
}

/// The hasher below it all: takes up to a number of bytes, and says so.
fn c07_counting(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 500);
    let ch = gen::chunks(&mut c.rng, &b);
    let limit = match c.rng.below(4) {
        0 => None,
        1 => Some(b.len()),
        2 => Some(*c.rng.pick(&[0, 1, 2, b.len() + 1, usize::MAX])),
        _ => Some(c.rng.below(b.len() + 2)),
    };
    let sha1 = world::SHA1 && c.rng.coin();
    let mut h = CountingHasher::new(world::hash_alg(sha1), limit);
    let mut taken: Vec<u8> = vec![];
    for x in &ch {
        let room = limit.map_or(usize::MAX, |l| l - taken.len());
        let want = if x.len() <= room { HashStatus::AllConsumed } else { HashStatus::Truncated };
        taken.extend_from_slice(&x[..x.len().min(room)]);
        let got = h.update(x);
        ensure!(got == want, "status of counting hasher", "{got:?} instead of {want:?} with limit {limit:?} for {}", show_chunks(&ch));
        let done = limit == Some(taken.len());
        ensure!(h.is_done() == done, "done status of counting hasher", "{} with limit {limit:?} for {}", h.is_done(), show_chunks(&ch));
    }
    let want = match limit {
        Some(l) if taken.len() < l => None,
        _ => Some((model::hash(sha1, &taken), taken.len())),
    };
    let got = h.finish().ok().map(|(h, n)| (h.into_vec(), n));
    ensure!(got == want, "result of counting hasher", "{got:?} instead of {want:?} with limit {limit:?} for {}", show_chunks(&ch));
    c.ev(if got.is_some() { "counting hasher finished" } else { "counting hasher not filled" });
    let d = viadkim::crypto::digest(world::hash_alg(sha1), &b);
    ensure!(d[..] == model::hash(sha1, &b)[..], "digest", "of {}", show(&b));
    c.nontrivial(format!("{limit:?} {sha1} {}", show_chunks(&ch)).as_bytes());
    c.sample(|| format!("limit {limit:?} for {}", show_chunks(&ch)));
    Ok(())
}

// ---------------------------------------------------------------- C05

pub fn c05() -> Vec<Workload> {
    vec![
        wl("body-hasher", 8000, 500_000, c05_hasher),
        wl("signer", 2500, 120_000, c05_signer),
        wl("verifier", 2500, 120_000, c05_verifier),
        wl("all-cuts", 1500, 60_000, c05_cuts),
        wl("large", 100, 5000, c05_large),
    ]
}

const REVERTED: &str = "done, and later interested again";

/// Feeds chunks; on Done maybe goes on with other content, or none.
fn feed(r: &mut Rng, chunks: &[&[u8]], mut hash: impl FnMut(&[u8]) -> BodyHasherStance) -> &'static str {
    let mode = r.below(4);
    let mut done = false;
    let (mut was_done, mut reverted) = (false, false);
    let mut f = |x: &[u8]| {
        let s = hash(x);
        reverted |= was_done && s != BodyHasherStance::Done;
        was_done |= s == BodyHasherStance::Done;
        s
    };
    for ch in chunks {
        if done {
            match mode {
                0 => break,
                1 => {
                    let g = gen::body(r, 50);
                    let _ = f(&g);
                }
                2 => {
                    let _ = f(&[]);
                }
                _ => {
                    let _ = f(ch);
                }
            }
        } else if f(ch) == BodyHasherStance::Done {
            done = true;
        }
    }
    if done && mode == 1 {
        for _ in 0..r.below(3) {
            let g = gen::body(r, 50);
            let _ = f(&g);
        }
    }
    if reverted {
        return REVERTED;
    }
    match (done, mode) {
        (false, _) => "never done",
        (_, 0) => "done, rest omitted",
        (_, 1) => "done, other content fed",
        (_, 2) => "done, empty chunks fed",
        _ => "done, rest fed",
    }
}

fn c05_hasher(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 300);
    hasher_case(c, &b)
}

fn c05_large(c: &mut Case<'_>) -> R {
    let big = *c.rng.pick(&[10_000, 70_000, 150_000, 1 << 20]);
    let b = gen::body(&mut c.rng, big);
    hasher_case(c, &b)
}

fn hasher_case(c: &mut Case<'_>, b: &[u8]) -> R {
    let ch = gen::chunks(&mut c.rng, b);
    let qs = requests(&mut c.rng, b, &ch);
    let forbid = c.rng.coin();
    let build = || {
        let mut h = BodyHasherBuilder::new(forbid);
        for q in &qs {
            let k = key(q);
            h.register_canonicalization(k.0, k.1, k.2);
        }
        h.build()
    };
    let mut h = build();
    let _ = h.hash_chunk(b);
    let whole = h.finish();
    for _ in 0..3 {
        let ch = gen::chunks(&mut c.rng, b);
        let mut h = build();
        let how = feed(&mut c.rng, &ch, |x| h.hash_chunk(x));
        ensure!(how != REVERTED, "answer after done", "request {qs:?}, forbid truncation {forbid}, {}", show_chunks(&ch));
        let got = h.finish();
        for q in &qs {
            ensure!(
                got.get(&key(q)) == whole.get(&key(q)),
                format!("body hash depends on chunks ({how})"),
                "request {q:?} of {qs:?}, forbid truncation {forbid}: {:?} but in one piece {:?}; {how}; {}",
                got.get(&key(q)), whole.get(&key(q)), show_chunks(&ch)
            );
        }
        c.ev(how);
        c.ev_n("chunks", ch.len() as u64);
        if ch.len() > 1 {
            c.nontrivial(&[b, format!("{qs:?}{:?}", ch.iter().map(|c| c.len()).collect::<Vec<_>>()).as_bytes()].concat());
        }
    }
    c.sample(|| show_chunks(&ch));
    Ok(())
}

fn c05_signer(c: &mut Case<'_>) -> R {
    let h = gen::headers(&mut c.rng, 5);
    let b = gen::body(&mut c.rng, 500);
    let n = 1 + c.rng.below(3);
    let mut specs: Vec<Spec> = (0..n).map(|_| gen::spec(&mut c.rng, &h, canon_len(&b))).collect();
    for s in &mut specs {
        // No clocks, and limits often.
        if s.ts == Ts::Now || s.ts == Ts::None {
            s.ts = Ts::Exact(1_700_000_000);
        }
        if !s.key.ed && c.rng.coin() {
            s.key = world::key("ed_a");
            s.sha1 = false;
        }
        if c.rng.coin() {
            let l = canon_len(&b)(s.bc) as u64;
            s.bl = Bl::Exact(*c.rng.pick(&[0, 1, 2, l / 2, l.saturating_sub(2), l.saturating_sub(1), l, l + 1, l + 2, u64::MAX >> 1]));
        }
    }
    let run = |f: &mut dyn FnMut(&mut Signer<std::sync::Arc<viadkim::SigningKey>>)| -> Result<SignResults, String> {
        let mut s = Signer::prepare_signing(mk(&h), specs.iter().map(|s| s.request()).collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
        f(&mut s);
        Ok(world::block_on(s.sign()).unwrap_or_default())
    };
    let whole = run(&mut |s| {
        let _ = s.process_body_chunk(&b);
    });
    if whole.is_err() {
        c.ev("request refused");
        return Ok(());
    }
    for _ in 0..2 {
        let ch = gen::chunks(&mut c.rng, &b);
        let mut how = "";
        let got = run(&mut |s| how = feed(&mut c.rng, &ch, |x| s.process_body_chunk(x)));
        ensure!(how != REVERTED, "answer after done", "requests {specs:#?}, {}", show_chunks(&ch));
        ensure!(got == whole, format!("signature depends on chunks ({how})"), "{got:#?}\n  but in one piece {whole:#?}\n  {how}; {}\n  requests {specs:#?}{}", show_chunks(&ch), show_headers(&h));
        c.ev(how);
        c.ev_n("signing results compared", specs.len() as u64);
        if ch.len() > 1 {
            c.nontrivial(format!("{specs:?}{ch:?}").as_bytes());
        }
    }
    Ok(())
}

fn verify_with(h: &[Hdr], d: &Dns, cfg: &Config, f: &mut dyn FnMut(&mut Verifier)) -> Option<Vec<VerificationResult>> {
    let hf = mk(h);
    let mut v = world::block_on(Verifier::verify_header(d, &hf, cfg)).ok().flatten()?;
    f(&mut v);
    Some(v.finish())
}

/// A message with signatures of all kinds of limits, and a verifier setup.
fn limited(c: &mut Case<'_>, b: &[u8], n: usize) -> (Vec<Hdr>, Dns, Config) {
    let r = &mut c.rng;
    let mut h = gen::headers(r, 4);
    let mut entries = vec![];
    for i in 0..n {
        let mut f = gen::ForeignSpec::plain(world::key(if r.one_in(5) { "rsa1024" } else { "ed_a" }));
        f.sha1 = world::SHA1 && !f.key.ed && r.coin();
        f.bc = r.coin();
        f.selector = format!("s{i}");
        f.bad_bh = r.one_in(6);
        let l = canon_len(b)(f.bc) as u64;
        f.l = match r.below(4) {
            0 => None,
            1 => Some(*r.pick(&[0, 1, 2, l, l + 1, l + 2, l.saturating_sub(1), l.saturating_sub(2)])),
            2 => Some(r.below(l as usize + 3) as u64),
            _ => Some(l),
        };
        let s = f.sign(r, &h, b);
        h.insert(0, (s.name, s.value.into_bytes()));
        if !r.one_in(10) {
            entries.push((world::query_name(&f.selector, &f.domain), Entry::txt(f.key.record())));
        }
    }
    let mut cfg = permissive();
    cfg.forbid_unsigned_content = r.coin();
    (h, Dns::new(entries), cfg)
}

fn c05_verifier(c: &mut Case<'_>) -> R {
    let b = gen::body(&mut c.rng, 500);
    let n = if c.rng.one_in(250) { gen::many(&mut c.rng, 300) } else { 1 + c.rng.below(4) };
    let (h, d, mut cfg) = limited(c, &b, n);
    cfg.max_signatures = cfg.max_signatures.max(n);
    let whole = verify_with(&h, &d, &cfg, &mut |v| {
        let _ = v.process_body_chunk(&b);
    });
    for _ in 0..2 {
        let ch = gen::chunks(&mut c.rng, &b);
        let mut how = "";
        let got = verify_with(&h, &d, &cfg, &mut |v| how = feed(&mut c.rng, &ch, |x| v.process_body_chunk(x)));
        ensure!(how != REVERTED, "answer after done", "{}", show_chunks(&ch));
        ensure!(got == whole, format!("verification depends on chunks ({how})"), "{got:#?}\n  but in one piece {whole:#?}\n  {how}; forbid unsigned {}; {}{}", cfg.forbid_unsigned_content, show_chunks(&ch), show_headers(&h));
        c.ev(how);
        for g in got.iter().flatten() {
            c.ev(&format!("result {}", refv::status(&g.status)));
        }
        if ch.len() > 1 {
            c.nontrivial(format!("{h:?}{ch:?}").as_bytes());
        }
    }
    Ok(())
}

/// Every single cut, and every pair of bytes apart, of a small body.
fn c05_cuts(c: &mut Case<'_>) -> R {
    let i = c.rng.below(335_923);
    let b = enumerate(i, &[b"\r\n", b" ", b"ab", b"\r", b"\n", b"\t \t"]);
    let n = 1 + c.rng.below(2);
    let (h, d, cfg) = limited(c, &b, n);
    let whole = verify_with(&h, &d, &cfg, &mut |v| {
        let _ = v.process_body_chunk(&b);
    });
    let hf = mk(&h);
    let mut cuts: Vec<Vec<&[u8]>> = (0..=b.len()).map(|i| vec![&b[..i], &b[i..]]).collect();
    cuts.push(b.chunks(1).collect());
    cuts.push(b.chunks(2).collect());
    cuts.push(vec![&[], &b, &[]]);
    for ch in cuts {
        let v = world::block_on(Verifier::verify_header(&d, &hf, &cfg)).ok().flatten();
        let got = v.map(|mut v| {
            for x in &ch {
                if v.process_body_chunk(x) == BodyHasherStance::Done {
                    break;
                }
            }
            v.finish()
        });
        ensure!(got == whole, "verification depends on chunks", "{got:#?}\n  but in one piece {whole:#?}\n  forbid unsigned {}; {}{}", cfg.forbid_unsigned_content, show_chunks(&ch), show_headers(&h));
        c.ev("cut compared");
    }
    c.nontrivial(&b);
    Ok(())
}
