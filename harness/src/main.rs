//! Bounded dynamic stand-in: runs the public operations of the real crate on generated cases and
//! judges each outcome against the property texts. Case generation is deterministic in the seed.
mod alloc;
mod el;
mod gen;
mod run;

use run::*;
use std::collections::HashSet;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

static PROGRESS: AtomicU64 = AtomicU64::new(0);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match args[1].as_str() {
        "explore" => explore(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), &args[6]),
        "replay" => replay(&args[2]),
        _ => panic!("usage"),
    }
}

fn watchdog(secs: u64) {
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(SeqCst), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let p = PROGRESS.load(SeqCst);
            if p != last.0 {
                last = (p, Instant::now());
            } else if last.1.elapsed().as_secs() > secs {
                std::process::exit(97);
            }
        }
    });
}

fn replay(path: &str) {
    let text = std::fs::read_to_string(path).unwrap();
    let line = text.lines().find(|l| l.starts_with("case ")).expect("no case line");
    let prop = text.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("").to_string();
    watchdog(60);
    let case = Case::parse(&line[5..]);
    let out = judge(&case, &prop);
    let mut bad = false;
    for (p, m) in &out.fails {
        println!("FAIL {p} {m}");
        bad |= prop.is_empty() || *p == prop;
    }
    println!("calls {}", out.calls);
    std::process::exit(if bad { 1 } else { 0 });
}

/// explore PROP SEED SHARD MILLIS OUT: OUT.cur holds the case being run, OUT the summary.
fn explore(prop: &str, seed: u64, shard: u64, millis: u64, out: &str) {
    let cur = File::create(format!("{out}.cur")).unwrap();
    watchdog(60);
    let start = Instant::now();
    let mut g = gen::Gen::new(prop, seed, shard);
    let mut evals = 0u64;
    let mut calls = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut per_op = std::collections::BTreeMap::<&'static str, u64>::new();
    let mut fail: Option<(Case, String)> = None;
    let budget = Duration::from_millis(millis);
    'all: while start.elapsed() < budget {
        let Some(base) = g.next() else { break };
        let cases = g.expand(base);
        for case in cases {
            let text = case.text();
            let head = format!("{:012}\n", text.len());
            let _ = cur.write_all_at(head.as_bytes(), 0);
            let _ = cur.write_all_at(text.as_bytes(), 13);
            PROGRESS.fetch_add(1, SeqCst);
            let o = judge(&case, prop);
            evals += 1;
            calls += o.calls;
            *per_op.entry(case.op.name()).or_default() += 1;
            if case.keys.len() >= 2 && distinct.len() < 2_000_000 {
                distinct.insert(case.hash());
            }
            if evals.is_power_of_two() && text.len() < 300 && samples.len() < 12 {
                samples.push(text.clone());
            }
            if let Some((_, m)) = o.fails.iter().find(|(p, _)| *p == prop) {
                fail = Some((case, m.clone()));
                break 'all;
            }
            if start.elapsed() > budget {
                break;
            }
        }
    }
    let mut f = File::create(out).unwrap();
    writeln!(f, "evals {evals}").unwrap();
    writeln!(f, "calls {calls}").unwrap();
    writeln!(f, "distinct {}", distinct.len()).unwrap();
    for (k, v) in per_op {
        writeln!(f, "op {k} {v}").unwrap();
    }
    for s in samples {
        writeln!(f, "sample {s}").unwrap();
    }
    if let Some((c, m)) = fail {
        writeln!(f, "fail {m}").unwrap();
        writeln!(f, "case {}", c.text()).unwrap();
        writeln!(f, "done").unwrap();
        let (c, m) = gen::shrink(c, m, prop, Duration::from_secs(5));
        writeln!(f, "fail {m}").unwrap();
        writeln!(f, "case {}", c.text()).unwrap();
    }
    writeln!(f, "done").unwrap();
    std::process::exit(0);
}
