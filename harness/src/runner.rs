//! The case runner shared by the harness crates.
use crate::util::*;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type Suite = fn(u64) -> CaseResult;

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}
/// the machine ran out of processes, memory or file descriptors: the case says nothing about the code
fn starved(m: &str) -> bool {
    ["os error 11)", "os error 12)", "os error 23)", "os error 24)", "failed to spawn thread", "code: 11,", "code: 24,"].iter().any(|w| m.contains(w))
}
fn run_case(s: Suite, seed: u64) -> CaseResult {
    match run_case_once(s, seed) {
        Err(v) if starved(&v.msg) => {
            std::thread::sleep(Duration::from_millis(200));
            Ok(Case { desc: String::new(), nontrivial: false })
        }
        r => r,
    }
}
fn run_case_once(s: Suite, seed: u64) -> CaseResult {
    match std::panic::catch_unwind(|| s(seed)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Violation { props: vec!["ALL"], msg: format!("panic: {m}"), input: String::new() })
        }
    }
}

pub fn main(suites: &[(&'static str, Suite)], plan_of: fn(&str) -> &'static [&'static str], cleanup: fn()) {
    let quiet = std::env::var("HARNESS_PANICS").is_err();
    if quiet {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if let Some(c) = arg("--case") {
        let (name, seed) = c.split_once(':').expect("suite:seed");
        let s = suites.iter().find(|s| s.0 == name).expect("unknown suite").1;
        match run_case(s, seed.parse().unwrap()) {
            Ok(c) => println!("OK nontrivial={} {}", c.nontrivial, c.desc),
            Err(v) => {
                println!("FAIL props={:?}\n{}\nINPUT {}", v.props, v.msg, v.input);
                cleanup();
                std::process::exit(1);
            }
        }
        cleanup();
        return;
    }
    let prop = arg("--prop").expect("--prop");
    let seed: u64 = arg("--seed").map_or(1, |s| s.parse().unwrap());
    let secs: f64 = arg("--secs").map_or(10.0, |s| s.parse().unwrap());
    let max: u64 = arg("--cases").map_or(u64::MAX, |s| s.parse().unwrap());
    let threads: u64 = arg("--threads").map_or(8, |s| s.parse().unwrap());
    let only = arg("--suite");
    let plan: Vec<(&str, Suite)> = match &only {
        Some(o) => suites.iter().filter(|s| s.0 == o).copied().collect(),
        None => plan_of(&prop).iter().map(|n| *suites.iter().find(|s| s.0 == *n).unwrap()).collect(),
    };
    if plan.is_empty() {
        println!("{{\"evaluations\": 0, \"distinct_nontrivial\": 0, \"samples\": [], \"violation\": null}}");
        return;
    }
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    // every entry of the plan gets the same share of the time
    let spent: Vec<AtomicU64> = plan.iter().map(|_| AtomicU64::new(0)).collect();
    let evals = AtomicU64::new(0);
    let distinct: Mutex<std::collections::HashSet<u64>> = Mutex::default();
    let samples: Mutex<Vec<(String, String)>> = Mutex::default();
    let found: Mutex<Option<(String, Violation)>> = Mutex::default();
    let other: Mutex<Vec<(String, Violation)>> = Mutex::default();
    let start = Instant::now();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| {
                while !stop.load(Ordering::Relaxed) && start.elapsed() < Duration::from_secs_f64(secs) {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= max {
                        break;
                    }
                    let k = (0..plan.len()).min_by_key(|k| spent[*k].load(Ordering::Relaxed)).unwrap();
                    let (name, s) = plan[k];
                    // (a provisional charge, so that the other threads choose something else meanwhile)
                    spent[k].fetch_add(1_000_000, Ordering::Relaxed);
                    let t = Instant::now();
                    let mut g = Rng::new(seed.wrapping_mul(0x1_0000_0001).wrapping_add(i));
                    let cs = g.next() >> 1;
                    let r = run_case(s, cs);
                    spent[k].fetch_add(t.elapsed().as_nanos() as u64, Ordering::Relaxed);
                    spent[k].fetch_sub(1_000_000, Ordering::Relaxed);
                    evals.fetch_add(1, Ordering::Relaxed);
                    match r {
                        Ok(c) => {
                            if c.nontrivial {
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                c.desc.hash(&mut h);
                                distinct.lock().unwrap().insert(h.finish());
                                let mut s = samples.lock().unwrap();
                                if s.len() < 3 {
                                    s.push((format!("{name}:{cs}"), c.desc.chars().take(700).collect()));
                                }
                            }
                        }
                        Err(v) => {
                            let mine = v.props.iter().any(|p| *p == prop || *p == "ALL");
                            if !mine {
                                let mut o = other.lock().unwrap();
                                if o.len() < 5 {
                                    o.push((format!("{name}:{cs}"), v));
                                }
                                continue;
                            }
                            // a complaint must come back before it counts, a timing-dependent one every time
                            let timing = ["hang", "block", "does not return", "did not", "not told", "only after", "no progress", "is still"].iter().any(|w| v.msg.contains(w));
                            let again = || matches!(run_case(s, cs), Err(w) if w.props.iter().any(|p| *p == prop || *p == "ALL"));
                            let t0 = Instant::now();
                            let back = if timing { (0..2).all(|_| again()) } else { (0..40).any(|_| t0.elapsed() < Duration::from_secs(30) && again()) };
                            if !back {
                                let mut o = other.lock().unwrap();
                                o.push((format!("{name}:{cs} (not reproduced)"), v));
                                continue;
                            }
                            let mut f = found.lock().unwrap();
                            if f.is_none() {
                                *f = Some((format!("{name}:{cs}"), v));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
            });
        }
    });
    let v = match &*found.lock().unwrap() {
        Some((c, v)) => format!("{{\"case\": {}, \"msg\": {}, \"input\": {}, \"props\": {:?}}}", json_str(c), json_str(&v.msg), json_str(&v.input), v.props),
        None => "null".into(),
    };
    let sm: Vec<String> = samples.lock().unwrap().iter().map(|(c, d)| json_str(&format!("{c} {d}"))).collect();
    let ot: Vec<String> = other.lock().unwrap().iter().map(|(c, v)| json_str(&format!("{c} {:?} {} {}", v.props, v.msg, v.input.chars().take(300).collect::<String>()))).collect();
    println!(
        "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"samples\": [{}], \"violation\": {v}, \"other\": [{}], \"secs\": {:.1}}}",
        evals.load(Ordering::Relaxed),
        distinct.lock().unwrap().len(),
        sm.join(", "),
        ot.join(", "),
        start.elapsed().as_secs_f64()
    );
    cleanup();
    // detached threads of abandoned cases must not keep the process alive
    std::process::exit(0);
}
