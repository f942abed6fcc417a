//! Deterministic simulator for sized-chunks. One seed decides everything; see /verif/DESIGN.md.
mod case;
mod engines;
mod keys;
mod loose;
mod ledger;
mod rng;
mod fit;
mod gen;
mod pipe;
mod pool;
mod seq;
mod sparse;
mod views;
mod work;
mod supervise;

use case::*;
use ledger::*;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};

#[global_allocator]
static ALLOC: pool::DirtyAlloc = pool::DirtyAlloc;

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// A run that burns this much processor time without finishing a case is hung.
/// 12 s at 100 Hz unless DST_HANG_TICKS says otherwise.
fn hang_ticks() -> u64 {
    std::env::var("DST_HANG_TICKS").ok().and_then(|s| s.parse().ok()).unwrap_or(1200)
}

pub const EXIT_VIOLATION: i32 = 3;
pub const EXIT_HANG: i32 = 4;

fn cpu_ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let w: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn watchdog() {
    let limit = hang_ticks();
    std::thread::spawn(move || {
        let mut last = (PROGRESS.load(Ordering::Relaxed), cpu_ticks());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let p = PROGRESS.load(Ordering::Relaxed);
            let t = cpu_ticks();
            if p != last.0 {
                last = (p, t);
            } else if t - last.1 > limit {
                println!("HANG");
                let _ = std::io::stdout().flush();
                std::process::exit(EXIT_HANG);
            }
        }
    });
}

/// Execute one case from scratch; the verdict, if any, comes back with the event-log hash.
pub fn run_case(case: &Case, st: &mut Stats) -> (Option<Violation>, u64) {
    l().reset();
    set_hook(None);
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let r = guarded(|| engines::run(case, st));
    set_hook(None);
    l().disarm();
    if let Err(p) = r {
        if l().viol.is_none() {
            l().violation("escaped-panic", format!("a panic escaped the run: {:?}", p));
        }
    }
    (l().viol.take(), l().hash.0)
}

fn arg<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}
fn num(args: &[String], name: &str, d: u64) -> u64 {
    arg(args, name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

/// Worker: runs indices first, first+stride, ... below last.
fn work(args: &[String]) -> i32 {
    let prop = arg(args, "--prop").unwrap();
    let seed = num(args, "--seed", 1);
    let first = num(args, "--first", 0);
    let last = num(args, "--last", 0);
    let stride = num(args, "--stride", 1).max(1);
    let deadline = num(args, "--deadline", 1_000_000);
    let out = arg(args, "--out").map(|s| s.to_string());
    let only_hash = args.iter().any(|a| a == "--hashes");
    watchdog();
    let t0 = std::time::Instant::now();
    let mut st = Stats::new();
    let world = engines::World::new();
    let mut hashes: Vec<u64> = vec![];
    let mut indices = vec![];
    let statef = out.as_ref().map(|o| std::fs::File::create(format!("{}.at", o)).unwrap());
    let mut i = first;
    let mut done = 0u64;
    let mut faulted = 0u64;
    let mut samples: Vec<String> = vec![];
    let mut nontrivial: std::collections::HashSet<u64> = Default::default();
    let mut code = 0;
    let mut cut = false;
    while i < last {
        if let Some(f) = &statef {
            use std::os::unix::fs::FileExt;
            let _ = f.write_all_at(&i.to_le_bytes(), 0);
        }
        let case = engines::generate(prop, seed, i, &world);
        let f0: u64 = real_faults();
        let e0 = st.ops_effective;
        let (v, h) = run_case(&case, &mut st);
        let f1: u64 = real_faults();
        done += 1;
        *st.per_config.entry(engines::config_name(&case, &world)).or_insert(0) += 1;
        if f1 > f0 {
            faulted += 1;
        }
        if f1 > f0 && st.ops_effective - e0 >= 3 {
            nontrivial.insert(h);
        }
        if only_hash {
            println!("{} {:016x}", i, h);
        }
        if done % 997 == 1 {
            hashes.push(h);
            indices.push(i);
        }
        if samples.len() < 2 && f1 > f0 + 1 && case.ops.len() < 14 {
            samples.push(case.to_text(&|o| engines::op_text(&case, o)));
        }
        if let Some(v) = v {
            println!("VIOL {} {} {}", i, v.class, v.msg.replace('\n', " "));
            code = EXIT_VIOLATION;
            break;
        }
        i += stride;
        if done % 64 == 0 && t0.elapsed().as_secs() >= deadline {
            cut = i < last;
            break;
        }
    }
    if let Some(o) = out {
        let mut s = String::new();
        use std::fmt::Write as W;
        let _ = writeln!(s, "done {}", done);
        let _ = writeln!(s, "faulted {}", faulted);
        let _ = writeln!(s, "steps {}", st.steps);
        let _ = writeln!(s, "events {}", l().events);
        let _ = writeln!(s, "rejects {}", st.rejects);
        let _ = writeln!(s, "ops {}", st.ops_effective);
        let _ = writeln!(s, "cut {}", cut as u8);
        for (k, n) in l().fault_counts.iter().enumerate() {
            let _ = writeln!(s, "fault {} {}", FAULT_NAMES[k], n);
        }
        for (k, n) in &l().probes {
            let _ = writeln!(s, "probe {} {}", k, n);
        }
        for (k, n) in &st.per_op {
            let _ = writeln!(s, "op {} {}", k, n);
        }
        for (k, n) in &st.per_config {
            let _ = writeln!(s, "config {} {}", n, k);
        }
        for (i, h) in indices.iter().zip(&hashes) {
            let _ = writeln!(s, "hash {} {:016x}", i, h);
        }
        for c in &samples {
            let _ = writeln!(s, "sample {}", c.replace('\n', "|"));
        }
        std::fs::write(&o, s).unwrap();
        let mut b: Vec<u8> = vec![];
        b.extend((st.states.len() as u64).to_le_bytes());
        for x in &st.states {
            b.extend(x.to_le_bytes());
        }
        for x in &nontrivial {
            b.extend(x.to_le_bytes());
        }
        std::fs::write(format!("{}.bin", o), b).unwrap();
    }
    code
}

fn one(args: &[String]) -> i32 {
    let text = match std::fs::read_to_string(&args[0]) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", args[0], e);
            return 2;
        }
    };
    l().trace = args.iter().any(|a| a == "--trace");
    let case = match Case::parse(&text) {
        Some(c) => c,
        None => {
            println!("not a case file");
            return 2;
        }
    };
    watchdog();
    let mut st = Stats::new();
    let (v, h) = run_case(&case, &mut st);
    println!("hash {:016x}", h);
    match v {
        Some(v) => {
            println!("VIOL {} {} {}", case.index, v.class, v.msg.replace('\n', " "));
            EXIT_VIOLATION
        }
        None => 0,
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if l().trace {
            eprintln!("  panic: {}", i);
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("work") => work(&args[1..]),
        Some("one") => one(&args[1..]),
        Some("gen") => {
            let world = engines::World::new();
            let c = engines::generate(&args[1], args[2].parse().unwrap(), args[3].parse().unwrap(), &world);
            print!("{}", c.to_text(&|o| engines::op_text(&c, o)));
            0
        }
        Some("check") => supervise::check(&args[1..]),
        Some("replay") => supervise::replay(&args[1..]),
        _ => {
            println!("usage: dst check|replay|work|one|gen");
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

/// Faults other than handing the library dirty memory (which happens in every run).
fn real_faults() -> u64 {
    let c = &l().fault_counts;
    c.iter().sum::<u64>() - c[ledger::F_DIRTY as usize]
}
