//! Runtime monitoring harness for viadkim.
//!
//! `vk run PROP --tier T --seed N --out FILE` runs all workloads of a property;
//! `vk case PROP WORKLOAD INDEX --tier T --seed N` replays one case.

mod alloc;
mod case;
mod gen;
mod model;
mod props;
mod refv;
mod rng;
mod trace;
mod world;

use case::{case_seed, Case, Cov, Fail, Workload};
use std::{
    cell::RefCell,
    fmt::Write as _,
    os::unix::fs::FileExt,
    panic::{self, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

struct PanicInfo {
    library: bool,
    text: String,
    place: String,
}

thread_local! {
    static PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = info.location().map_or(("?".into(), 0), |l| (l.file().to_string(), l.line()));
        let library = if msg.starts_with("LIBRARY-STUCK") || file.contains("/repo/src/") {
            true
        } else if file.starts_with("src/") {
            false
        } else {
            // In a dependency or the standard library: who called?
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            let lib = bt.find("viadkim::");
            let own = bt
                .lines()
                .position(|l| l.contains(": vk::") && !l.contains("install_hook"))
                .map(|n| bt.lines().take(n).map(|l| l.len() + 1).sum::<usize>());
            match (lib, own) {
                (Some(l), Some(o)) => l < o,
                (Some(_), None) => true,
                _ => false,
            }
        };
        // The line number is no part of the identity of a finding.
        let place = file.rsplit("/registry/src/").next().unwrap_or("?").to_string();
        PANIC.with(|p| {
            *p.borrow_mut() =
                Some(PanicInfo { library, text: format!("{msg} (at {file}:{line})"), place })
        });
    }));
}

enum Outcome {
    Held,
    Violated(Fail),
    Error(String),
}

fn run_case(w: &Workload, prop: &str, seed: u64, index: u64, thorough: bool, sample: bool, cov: &mut Cov) -> Outcome {
    let mut c = Case {
        rng: rng::Rng::new(case_seed(seed, prop, w.name, index)),
        cov,
        index,
        thorough,
        sample,
        workload: w.name,
    };
    c.cov.cases += 1;
    // Some cases have the library's log written, to nowhere.
    let seed = case_seed(seed, prop, w.name, index);
    trace::set(if rng::mix(seed ^ 0x7ace) % 8 == 0 { trace::Mode::Discard } else { trace::Mode::Off });
    c.cov.judged = 0;
    let r = panic::catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
    // A case may judge several executions.
    c.cov.evals += c.cov.judged.max(1);
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(f)) if f.key == "harness" => Outcome::Error(f.msg),
        Ok(Err(f)) => Outcome::Violated(f),
        Err(_) => {
            let p = PANIC.with(|p| p.borrow_mut().take());
            match p {
                Some(p) if p.library => Outcome::Violated(Fail {
                    key: format!("panic {}", p.place),
                    msg: format!("the library panicked: {}", p.text),
                }),
                Some(p) => Outcome::Error(format!("harness panicked: {}", p.text)),
                None => Outcome::Error("unknown panic".into()),
            }
        }
    }
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Found {
    workload: &'static str,
    index: u64,
    fail: Fail,
}

struct Shared {
    cov: Mutex<Cov>,
    found: Mutex<Vec<Found>>,
    errors: Mutex<Vec<String>>,
    stop: AtomicBool,
    truncated: AtomicBool,
}

fn write_report(out: &str, sh: &Shared, wall: f64) {
    let cov = sh.cov.lock().unwrap();
    let mut s = String::from("{");
    let _ = write!(s, "\"evaluations\":{},\"cases\":{},\"distinct\":{},", cov.evals, cov.cases, cov.distinct.len());
    let ev: Vec<String> = cov.events.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect();
    let _ = write!(s, "\"events\":{{{}}},", ev.join(","));
    let sa: Vec<String> = cov.samples.iter().take(12).map(|s| json(s)).collect();
    let _ = write!(s, "\"samples\":[{}],", sa.join(","));
    let mut found = sh.found.lock().unwrap();
    found.sort_by_key(|f| (f.workload, f.index));
    let fo: Vec<String> = found
        .iter()
        .map(|f| {
            format!(
                "{{\"workload\":{},\"index\":{},\"key\":{},\"msg\":{}}}",
                json(f.workload),
                f.index,
                json(&f.fail.key),
                json(&f.fail.msg)
            )
        })
        .collect();
    let _ = write!(s, "\"failures\":[{}],", fo.join(","));
    let er: Vec<String> = sh.errors.lock().unwrap().iter().map(|e| json(e)).collect();
    let _ = write!(
        s,
        "\"errors\":[{}],\"truncated\":{},\"wall_s\":{wall:.2}}}",
        er.join(","),
        sh.truncated.load(Ordering::Relaxed)
    );
    std::fs::write(out, s).expect("cannot write report");
}

fn cpu_ticks(tid: &str) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = opt("--tier").as_deref() == Some("thorough");
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let deadline = Duration::from_secs(opt("--deadline").and_then(|s| s.parse().ok()).unwrap_or(600));
    let scale: f64 = opt("--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    if args.len() < 3 {
        eprintln!("usage: vk run|case PROP ...");
        std::process::exit(2);
    }
    let prop = args[2].clone();
    let Some(workloads) = props::workloads(&prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    if args[1] == "list" {
        for w in &workloads {
            println!("{}", w.name);
        }
        return;
    }
    install_hook();
    trace::install();
    world::keys();

    if args[1] == "fresh" {
        props::robust::fresh_main(&args[3..]);
        return;
    }
    if args[1] == "case" {
        let name = args[3].clone();
        let index: u64 = args[4].parse().unwrap();
        // On a thread like those of `run`: what overflows the stack there has
        // to overflow it here.
        let (o, cov) = std::thread::spawn(move || {
            let w = workloads.iter().find(|w| w.name == name).expect("no such workload");
            let mut cov = Cov::default();
            let o = run_case(w, &prop, seed, index, thorough, true, &mut cov);
            (o, cov)
        })
        .join()
        .expect("the case's thread ended");
        for s in &cov.samples {
            println!("{s}");
        }
        println!("events: {:?}", cov.events);
        match o {
            Outcome::Held => println!("held"),
            Outcome::Violated(f) => {
                println!("VIOLATED [{}] {}", f.key, f.msg);
                std::process::exit(1);
            }
            Outcome::Error(e) => {
                println!("ERROR {e}");
                std::process::exit(3);
            }
        }
        return;
    }

    let out = opt("--out").expect("--out missing");
    let crumbs = opt("--crumbs");
    let only = opt("--only");
    let start = Instant::now();
    let sh = Arc::new(Shared {
        cov: Mutex::default(),
        found: Mutex::default(),
        errors: Mutex::default(),
        stop: AtomicBool::new(false),
        truncated: AtomicBool::new(false),
    });
    // All cases of all workloads, interleaved so that a deadline cuts evenly.
    let counts: Arc<Vec<u64>> = Arc::new(
        workloads
            .iter()
            .map(|w| {
                if only.as_deref().map_or(false, |o| o != w.name) {
                    return 0;
                }
                let n = if thorough { w.thorough } else { w.quick };
                if scale == 1.0 || !w.scaled { n } else { ((n as f64 * scale) as u64).max(1) }
            })
            .collect(),
    );
    const SLICES: u64 = 64;
    let next = Arc::new(AtomicU64::new(0));
    let workloads = Arc::new(workloads);
    // Per thread: kernel thread id, cpu ticks at case start, case generation.
    type Slot = Arc<Mutex<Option<(String, u64, usize, u64)>>>;
    let slots: Vec<Slot> = (0..threads).map(|_| Slot::default()).collect();
    let crumb_file = crumbs.map(|c| Arc::new(std::fs::File::create(c).expect("crumbs")));

    let mut handles = vec![];
    for t in 0..threads {
        let (sh, counts, next, workloads, slot) =
            (sh.clone(), counts.clone(), next.clone(), workloads.clone(), slots[t].clone());
        let prop = prop.clone();
        let crumb_file = crumb_file.clone();
        let h = std::thread::Builder::new().name(format!("w{t}")).spawn(move || {
            let tid = std::fs::read_link("/proc/thread-self")
                .ok()
                .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
                .unwrap_or_default();
            let mut cov = Cov::default();
            loop {
                let n = next.fetch_add(1, Ordering::Relaxed);
                let (slice, wi) = (n / workloads.len() as u64, (n % workloads.len() as u64) as usize);
                if slice >= SLICES {
                    break;
                }
                let w = &workloads[wi];
                let (a, b) = (counts[wi] * slice / SLICES, counts[wi] * (slice + 1) / SLICES);
                for index in a..b {
                    if sh.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if start.elapsed() > deadline {
                        sh.truncated.store(true, Ordering::Relaxed);
                        sh.stop.store(true, Ordering::Relaxed);
                        break;
                    }
                    if let Some(f) = &crumb_file {
                        let mut rec = [0u8; 16];
                        rec[..8].copy_from_slice(&(wi as u64 + 1).to_le_bytes());
                        rec[8..].copy_from_slice(&index.to_le_bytes());
                        let _ = f.write_all_at(&rec, 16 * t as u64);
                    }
                    *slot.lock().unwrap() = Some((tid.clone(), cpu_ticks(&tid).unwrap_or(0), wi, index));
                    let sample = index < 2;
                    let o = run_case(w, &prop, seed, index, thorough, sample, &mut cov);
                    *slot.lock().unwrap() = None;
                    match o {
                        Outcome::Held => {}
                        Outcome::Violated(fail) => {
                            let mut f = sh.found.lock().unwrap();
                            f.push(Found { workload: w.name, index, fail });
                            if f.len() >= 20 {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Outcome::Error(e) => {
                            let mut v = sh.errors.lock().unwrap();
                            v.push(format!("{}#{index}: {e}", w.name));
                            if v.len() >= 20 {
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                }
            }
            sh.cov.lock().unwrap().merge(cov);
        });
        handles.push(h.expect("spawn"));
    }

    // Watchdog on processor time spent in one case; ticks are 1/100 s.
    let (limit, sh2, out2) = (if thorough { 12000 } else { 6000 }, sh.clone(), out.clone());
    let names: Vec<&'static str> = workloads.iter().map(|w| w.name).collect();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        for s in &slots {
            let cur = s.lock().unwrap().clone();
            if let Some((tid, begin, wi, index)) = cur {
                let Some(now) = cpu_ticks(&tid) else { continue };
                if now.saturating_sub(begin) > limit && s.lock().unwrap().as_ref().map(|c| c.3) == Some(index) {
                    sh2.found.lock().unwrap().push(Found {
                        workload: names[wi],
                        index,
                        fail: Fail {
                            key: "runaway".into(),
                            msg: format!("case used more than {} s of processor time", limit / 100),
                        },
                    });
                    write_report(&out2, &sh2, start.elapsed().as_secs_f64());
                    std::process::exit(0);
                }
            }
        }
    });

    for h in handles {
        h.join().expect("worker died");
    }
    write_report(&out, &sh, start.elapsed().as_secs_f64());
}
