//! Runs a whole check: many worker processes (so that a crash or hang of the code under test is an
//! observation, not the end of the check), confirmation and minimisation of whatever they find,
//! the determinism re-check and the evidence file.
use crate::case::*;
use crate::engines::{self, World};
use crate::ledger::*;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

const PROFILES: [&str; 2] = ["release", "checked"];
const WORKERS: usize = 8;

extern "C" {
    fn personality(persona: std::ffi::c_ulong) -> std::ffi::c_int;
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Clean,
    Viol { index: u64, class: String, msg: String },
    Hang,
    Crash(String),
    /// Something that says nothing about the code under test.
    Harness(String),
}
impl Outcome {
    fn class(&self) -> String {
        match self {
            Outcome::Clean => "clean".into(),
            Outcome::Viol { class, .. } => class.clone(),
            Outcome::Hang => "hang".into(),
            Outcome::Crash(_) => "crash".into(),
            Outcome::Harness(_) => "harness".into(),
        }
    }
    fn text(&self) -> String {
        match self {
            Outcome::Clean => "clean".into(),
            Outcome::Viol { class, msg, .. } => format!("{}: {}", class, msg),
            Outcome::Hang => "hang: one simulated run never finished".into(),
            Outcome::Crash(s) => format!("crash: the process died ({})", s),
            Outcome::Harness(s) => s.clone(),
        }
    }
    fn bad(&self) -> bool {
        !matches!(self, Outcome::Clean | Outcome::Harness(_))
    }
}

struct Env {
    root: PathBuf,
    bins: PathBuf,
    known: Vec<(String, String, String)>, // property, id, text
}
impl Env {
    fn new() -> Env {
        let exe = std::env::current_exe().unwrap();
        let bins = exe.parent().unwrap().parent().unwrap().to_path_buf();
        let root = std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| {
            // .../sim/target/<profile>/dst
            bins.parent().unwrap().parent().unwrap().to_path_buf()
        });
        let mut known = vec![];
        for line in std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default().lines() {
            if let Some(rest) = line.strip_prefix("known: ") {
                let mut w = rest.splitn(3, ' ');
                let p = w.next().unwrap_or("").trim_start_matches("property=").to_string();
                let id = w.next().unwrap_or("").trim_start_matches("id=").to_string();
                known.push((p, id, w.next().unwrap_or("").to_string()));
            }
        }
        Env { root, bins, known }
    }
    fn command(&self, profile: &str) -> Command {
        let mut c = Command::new(self.bins.join(profile).join("dst"));
        let ids: Vec<&str> = self.known.iter().map(|k| k.1.as_str()).collect();
        c.env("DST_KNOWN", ids.join(","));
        c.env_remove("RUST_BACKTRACE");
        c.stdin(Stdio::null());
        c.stderr(Stdio::null());
        c.stdout(Stdio::piped());
        unsafe {
            // Same addresses in every process: a crash replays like everything else.
            c.pre_exec(|| {
                personality(0x0040000);
                Ok(())
            });
        }
        c
    }
}

fn judge(status: std::process::ExitStatus, out: &str) -> Outcome {
    match status.code() {
        Some(0) => Outcome::Clean,
        Some(crate::EXIT_VIOLATION) => {
            for line in out.lines() {
                if let Some(r) = line.strip_prefix("VIOL ") {
                    let mut w = r.splitn(3, ' ');
                    return Outcome::Viol {
                        index: w.next().and_then(|x| x.parse().ok()).unwrap_or(0),
                        class: w.next().unwrap_or("?").to_string(),
                        msg: w.next().unwrap_or("").to_string(),
                    };
                }
            }
            Outcome::Harness("violation exit without a report".into())
        }
        Some(crate::EXIT_HANG) => Outcome::Hang,
        Some(101) => Outcome::Harness("the simulator itself panicked".into()),
        Some(c) => Outcome::Harness(format!("worker exit code {}", c)),
        None => match status.signal() {
            Some(9) => Outcome::Harness("worker killed (SIGKILL)".into()),
            Some(15) => Outcome::Harness("worker killed (SIGTERM)".into()),
            Some(s) => Outcome::Crash(format!("signal {}", s)),
            None => Outcome::Harness("?".into()),
        },
    }
}

fn run_file(env: &Env, profile: &str, file: &Path, hang_ticks: u64) -> (Outcome, String) {
    let mut c = env.command(profile);
    c.arg("one").arg(file).env("DST_HANG_TICKS", hang_ticks.to_string());
    match c.output() {
        Ok(o) => {
            let out = String::from_utf8_lossy(&o.stdout).to_string();
            (judge(o.status, &out), out)
        }
        Err(e) => (Outcome::Harness(format!("cannot start worker: {}", e)), String::new()),
    }
}

struct Minimiser<'a> {
    env: &'a Env,
    world: &'a World,
    profile: String,
    class: String,
    tmp: PathBuf,
    until: Instant,
    runs: u32,
}
impl<'a> Minimiser<'a> {
    fn fails(&mut self, c: &Case) -> bool {
        if Instant::now() >= self.until {
            return false;
        }
        self.runs += 1;
        let w = self.world;
        std::fs::write(&self.tmp, c.to_text(&|o| engines::op_text(c, o))).unwrap();
        let _ = w;
        let (o, _) = run_file(self.env, &self.profile, &self.tmp, 100);
        o.bad() && o.class() == self.class
    }
    fn ops(&mut self, mut c: Case) -> Case {
        let mut n = 2usize;
        while !c.ops.is_empty() && Instant::now() < self.until {
            let len = c.ops.len();
            let chunk = len.div_ceil(n);
            let mut cut = false;
            let mut at = 0;
            while at < c.ops.len() {
                let end = (at + chunk).min(c.ops.len());
                let mut d = c.clone();
                d.ops.drain(at..end);
                if self.fails(&d) {
                    c = d;
                    cut = true;
                } else {
                    at = end;
                }
            }
            if chunk <= 1 && !cut {
                break;
            }
            n = if cut { n.max(2) } else { (n * 2).min(c.ops.len().max(1)) };
            if chunk <= 1 {
                n = c.ops.len().max(1);
            }
        }
        c
    }
    fn args(&mut self, mut c: Case) -> Case {
        for i in 0..c.ops.len() {
            let o = c.ops[i];
            let mut tries: Vec<Op> = vec![];
            tries.push(Op { fk: 0, fnth: 0, ..o });
            for k in 1..o.fnth {
                tries.push(Op { fnth: k, ..o });
            }
            for t in tries {
                if t != c.ops[i] {
                    let mut d = c.clone();
                    d.ops[i] = t;
                    if self.fails(&d) {
                        c = d;
                        break;
                    }
                }
            }
            for field in 0..5 {
                let get = |o: &Op| match field {
                    0 => o.x,
                    1 => o.y,
                    2 => o.z,
                    3 => o.a as u16,
                    _ => o.b as u16,
                };
                let cur = get(&c.ops[i]);
                let mut cand: Vec<u16> = vec![0, 1, 2, 3, cur / 2];
                if cur > 0 {
                    cand.push(cur - 1);
                }
                cand.retain(|v| *v < cur);
                cand.dedup();
                for v in cand {
                    let mut d = c.clone();
                    match field {
                        0 => d.ops[i].x = v,
                        1 => d.ops[i].y = v,
                        2 => d.ops[i].z = v,
                        3 => d.ops[i].a = v as u8,
                        _ => d.ops[i].b = v as u8,
                    }
                    if self.fails(&d) {
                        c = d;
                        break;
                    }
                }
            }
        }
        c
    }
}

#[derive(Default)]
struct Totals {
    num: BTreeMap<String, u64>,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    ops: BTreeMap<String, u64>,
    configs: BTreeMap<String, u64>,
    hashes: Vec<(usize, u64, String)>,
    samples: Vec<String>,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
}
impl Totals {
    fn merge(&mut self, profile: usize, path: &Path) {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        for line in text.lines() {
            let mut w = line.splitn(2, ' ');
            let (k, rest) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
            let last_num = |r: &str| -> (String, u64) {
                let mut p = r.rsplitn(2, ' ');
                let n = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                (p.next().unwrap_or("").to_string(), n)
            };
            match k {
                "fault" => {
                    let (a, n) = last_num(rest);
                    *self.faults.entry(a).or_insert(0) += n;
                }
                "probe" => {
                    let (a, n) = last_num(rest);
                    *self.probes.entry(a).or_insert(0) += n;
                }
                "op" => {
                    let (a, n) = last_num(rest);
                    *self.ops.entry(a).or_insert(0) += n;
                }
                "config" => {
                    let mut p = rest.splitn(2, ' ');
                    let n: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    *self.configs.entry(p.next().unwrap_or("").to_string()).or_insert(0) += n;
                }
                "hash" => {
                    let mut p = rest.split(' ');
                    let i = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    self.hashes.push((profile, i, p.next().unwrap_or("").to_string()));
                }
                "sample" => {
                    if self.samples.len() < 6 {
                        self.samples.push(rest.replace('|', "\n"));
                    }
                }
                "" => {}
                _ => {
                    let n: u64 = rest.parse().unwrap_or(0);
                    *self.num.entry(k.to_string()).or_insert(0) += n;
                }
            }
        }
        let b = std::fs::read(format!("{}.bin", path.display())).unwrap_or_default();
        let mut it = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        let ns = it.next().unwrap_or(0) as usize;
        let rest: Vec<u64> = it.collect();
        let cut = ns.min(rest.len());
        self.states.extend(&rest[..cut]);
        self.nontrivial.extend(&rest[cut..]);
    }
    fn n(&self, k: &str) -> u64 {
        self.num.get(k).copied().unwrap_or(0)
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    format!("{{{}}}", v.join(", "))
}

struct Found {
    profile: usize,
    worker: usize,
    index: u64,
    outcome: Outcome,
}

fn envnum(name: &str, d: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(d)
}

pub fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let env = Env::new();
    let prop = match args.first() {
        Some(p) if engines::knows(p) => p.clone(),
        _ => {
            println!("unknown property");
            return 2;
        }
    };
    let seed = envnum("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let (cases, deadline) = engines::budget(&prop, thorough);
    let cases = envnum("DST_CASES", cases);
    let deadline = envnum("DST_DEADLINE", deadline);
    let dir = env.bins.join(format!("run-{}-{}", prop, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let code = check_in(&env, &prop, seed, thorough, cases, deadline, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    code
}

#[allow(clippy::too_many_arguments)]
fn check_in(env: &Env, prop: &str, seed: u64, thorough: bool, cases: u64, deadline: u64, dir: &Path, t0: Instant) -> i32 {
    let world = World::new();
    let mut kids = vec![];
    for w in 0..WORKERS {
        let profile = w % 2;
        let out = dir.join(format!("w{}", w));
        let mut c = env.command(PROFILES[profile]);
        c.args(["work", "--prop", prop, "--seed", &seed.to_string(), "--first", &w.to_string()]);
        c.args(["--last", &cases.to_string(), "--stride", &WORKERS.to_string()]);
        c.args(["--deadline", &deadline.to_string(), "--out", out.to_str().unwrap()]);
        match c.spawn() {
            Ok(k) => kids.push((w, profile, out, Some(k))),
            Err(e) => {
                eprintln!("cannot start worker: {}", e);
                return 2;
            }
        }
    }
    let mut found: Vec<Found> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut grace: Option<Instant> = None;
    let limit = Instant::now() + Duration::from_secs(deadline + 60);
    loop {
        let mut running = 0;
        for (w, profile, out, k) in kids.iter_mut() {
            let done = match k {
                None => continue,
                Some(c) => c.try_wait().unwrap_or(None),
            };
            match done {
                None => {
                    running += 1;
                    let stop = grace.map(|g| Instant::now() > g).unwrap_or(false) || Instant::now() > limit;
                    if stop {
                        let c = k.as_mut().unwrap();
                        let _ = c.kill();
                        let _ = c.wait();
                        *k = None;
                        if Instant::now() > limit {
                            harness.push(format!("worker {} overran", w));
                        }
                    }
                }
                Some(status) => {
                    let mut text = String::new();
                    let mut c = k.take().unwrap();
                    if let Some(so) = c.stdout.as_mut() {
                        let _ = so.read_to_string(&mut text);
                    }
                    let o = judge(status, &text);
                    let at = std::fs::read(format!("{}.at", out.display())).unwrap_or_default();
                    let at = at.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                    match o {
                        Outcome::Clean => {}
                        Outcome::Harness(m) => harness.push(format!("worker {} at {}: {}", w, at, m)),
                        o => {
                            let index = if let Outcome::Viol { index, .. } = &o { *index } else { at };
                            found.push(Found { profile: *profile, worker: *w, index, outcome: o });
                            grace.get_or_insert(Instant::now() + Duration::from_millis(300));
                        }
                    }
                }
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    let mut t = Totals::default();
    for (_, profile, out, _) in &kids {
        t.merge(*profile, out);
    }
    found.sort_by_key(|f| (matches!(f.outcome, Outcome::Hang), f.index));
    let run_wall = t0.elapsed().as_secs_f64();

    for (p, id, text) in &env.known {
        if p == prop {
            println!("KNOWN-FINDING: property={} {} {}", p, id, text);
        }
    }

    if found.is_empty() {
        if !harness.is_empty() {
            for h in &harness {
                eprintln!("HARNESS {}", h);
            }
            return 2;
        }
        // determinism: sampled runs again, in fresh processes
        let mut pick: Vec<(usize, u64, String)> = t.hashes.clone();
        pick.sort_by_key(|(p, i, _)| crate::rng::mix(i ^ seed << 20 ^ *p as u64));
        pick.truncate(if thorough { 48 } else { 16 });
        let mut mismatch = 0;
        for (p, i, h) in &pick {
            let mut c = env.command(PROFILES[*p]);
            c.args(["work", "--prop", prop, "--seed", &seed.to_string(), "--first", &i.to_string()]);
            c.args(["--last", &(i + 1).to_string(), "--hashes"]);
            let o = c.output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).unwrap_or_default();
            if o.trim() != format!("{} {}", i, h) {
                mismatch += 1;
                eprintln!("NONDETERMINISM at {} {}: {} then {}", PROFILES[*p], i, h, o.trim());
            }
        }
        evidence(env, prop, seed, thorough, &t, 0, t0, run_wall, pick.len(), mismatch, cases);
        if mismatch > 0 && std::env::var("DST_STRICT").is_ok() {
            return 2;
        }
        println!(
            "OK property={} runs={} faulted={} library_calls={} distinct={} states={} wall={:.1}s",
            prop,
            t.n("done"),
            t.n("faulted"),
            t.n("steps"),
            t.nontrivial.len(),
            t.states.len(),
            t0.elapsed().as_secs_f64()
        );
        return 0;
    }

    let dirr = env.root.join("replays");
    let _ = std::fs::create_dir_all(&dirr);
    let mut report: Option<PathBuf> = None;
    for f in &found {
        let profile = PROFILES[f.profile];
        println!("found in worker {} ({}) at run {}: {}", f.worker, profile, f.index, f.outcome.text());
        let case = engines::generate(prop, seed, f.index, &world);
        let path = dirr.join(format!("{}-{}-{}-{}.case", prop, profile, seed, f.index));
        let tmp = dir.join("try.case");
        std::fs::write(&tmp, case.to_text(&|o| engines::op_text(&case, o))).unwrap();
        let (o, _) = run_file(env, profile, &tmp, 1200);
        if o.bad() {
            let mut mz = Minimiser {
                env,
                world: &world,
                profile: profile.into(),
                class: o.class(),
                tmp: tmp.clone(),
                until: Instant::now() + Duration::from_secs(if o == Outcome::Hang { 60 } else { 40 }),
                runs: 0,
            };
            let before = case.ops.len();
            let small = mz.ops(case.clone());
            let small = mz.args(small);
            let small = mz.ops(small);
            let runs = mz.runs;
            std::fs::write(&tmp, small.to_text(&|o| engines::op_text(&small, o))).unwrap();
            let (o2, out2) = run_file(env, profile, &tmp, 1200);
            let (keep, fin, out) = if o2.bad() { (small, o2, out2) } else { (case, o, String::new()) };
            let mut text = String::new();
            text.push_str("# Replay with: /verif/check.sh replay <this file>\n");
            text.push_str(&format!("profile {}\nclass {}\n", profile, fin.class()));
            text.push_str(&format!("# {}\n", fin.text()));
            text.push_str(&format!("# {} operations, minimised from {} in {} simulated runs\n", keep.ops.len(), before, runs));
            for l in out.lines().filter(|l| l.starts_with("hash")) {
                text.push_str(&format!("# event {}\n", l));
            }
            text.push_str(&format!("# container {}\n", engines::config_name(&keep, &world)));
            text.push_str(&keep.to_text(&|o| engines::op_text(&keep, o)));
            std::fs::write(&path, text).unwrap();
            println!("  {}", fin.text());
            report = Some(path);
            break;
        }
        // Not reproducible alone: the runs before it in the same process matter (memory corruption).
        let path = dirr.join(format!("{}-{}-{}-{}.batch", prop, profile, seed, f.index));
        let mut text = String::new();
        text.push_str("# Replay with: /verif/check.sh replay <this file>\n");
        text.push_str(&format!("profile {}\nclass {}\nproperty {}\n", profile, f.outcome.class(), prop));
        text.push_str(&format!("batch seed {} first {} last {} stride {}\n", seed, f.worker, f.index + 1, WORKERS));
        text.push_str(&format!("# {}\n", f.outcome.text()));
        std::fs::write(&path, text).unwrap();
        if report.is_none() {
            report = Some(path);
        }
    }
    evidence(env, prop, seed, thorough, &t, found.len(), t0, run_wall, 0, 0, cases);
    println!("VIOLATION property={} replay={}", prop, report.unwrap().display());
    1
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    env: &Env, prop: &str, seed: u64, thorough: bool, t: &Totals, violations: usize, t0: Instant, run_wall: f64,
    redone: usize, mismatch: usize, planned: u64,
) {
    let wall = t0.elapsed().as_secs_f64();
    let mut s = String::from("{\n");
    let mut kv = |k: &str, v: String| s.push_str(&format!("  {}: {},\n", js(k), v));
    kv("property", js(prop));
    kv("tier", js(if thorough { "thorough" } else { "quick" }));
    kv("seed", seed.to_string());
    kv("level", js("exploration"));
    let mut c = String::from("{\n");
    let mut ck = |k: &str, v: String| c.push_str(&format!("    {}: {},\n", js(k), v));
    ck("evaluations", t.n("done").to_string());
    ck("planned_runs", planned.to_string());
    ck("distinct_nontrivial", t.nontrivial.len().to_string());
    ck("rule", js(&engines::rule(prop)));
    let samples: Vec<String> = t.samples.iter().map(|x| js(x)).collect();
    ck("samples", format!("[{}]", samples.join(", ")));
    ck("runs_with_faults", t.n("faulted").to_string());
    ck("library_calls", t.n("steps").to_string());
    ck("callback_and_call_events", t.n("events").to_string());
    ck("operations_applied", t.n("ops").to_string());
    ck("requests_refused", t.n("rejects").to_string());
    ck("seeds_per_hour", ((t.n("done") as f64) * 3600.0 / run_wall.max(0.001)).round().to_string());
    ck(
        "simulated_time",
        js("the system has no clock; simulated time is the number of library calls and callback events above"),
    );
    ck("faults_injected", jmap(&t.faults.iter().filter(|(_, n)| **n > 0).map(|(k, n)| (k.clone(), *n)).collect()));
    ck("distinct_states", t.states.len().to_string());
    ck("distinct_states_measure", js(engines::measure(prop)));
    ck("operations_by_kind", jmap(&t.ops));
    ck("runs_by_container", jmap(&t.configs));
    ck("probes", jmap(&t.probes));
    ck(
        "determinism",
        format!("{{\"runs_repeated_in_fresh_processes\": {}, \"event_log_mismatches\": {}}}", redone, mismatch),
    );
    ck("cut_by_deadline_workers", t.n("cut").to_string());
    ck("profiles", js("even runs: optimised, no debug assertions or overflow checks; odd runs: debug assertions and overflow checks"));
    ck("real_components", js(engines::real(prop)));
    c.push_str(&format!("    {}: {}\n  }}", js("stub_components"), js(engines::stubs(prop))));
    s.push_str(&format!("  {}: {},\n", js("coverage"), c));
    s.push_str("  \"assumptions\": [\"simulated runs are a sample of histories, not all of them\", \"behaviour is observed through the public API, element callbacks and memory canaries; a memory error with no observable effect in either build is not seen\"],\n");
    s.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, violations));
    let d = env.root.join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Ok(mut f) = std::fs::File::create(d.join(format!("{}.json", prop))) {
        let _ = f.write_all(s.as_bytes());
    }
}

/// Run a replay file again: exit 1 with the same violation, or 0 if it no longer happens.
pub fn replay(args: &[String]) -> i32 {
    let env = Env::new();
    let path = match args.first() {
        Some(p) => PathBuf::from(p),
        None => return 2,
    };
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", path.display(), e);
            return 2;
        }
    };
    let field = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string())).unwrap_or_default()
    };
    let profile = field("profile ");
    if !PROFILES.contains(&profile.as_str()) {
        println!("no profile in {}", path.display());
        return 2;
    }
    let prop = field("property ");
    let batch = field("batch ");
    let (o, out) = if batch.is_empty() {
        let mut c = env.command(&profile);
        c.arg("one").arg(&path).arg("--trace").stderr(Stdio::inherit());
        match c.output() {
            Ok(o) => {
                let out = String::from_utf8_lossy(&o.stdout).to_string();
                (judge(o.status, &out), out)
            }
            Err(e) => (Outcome::Harness(e.to_string()), String::new()),
        }
    } else {
        let w: Vec<&str> = batch.split_whitespace().collect();
        let g = |i: usize| w.get(i).copied().unwrap_or("0").to_string();
        let mut c = env.command(&profile);
        c.args(["work", "--prop", &prop, "--seed", &g(1), "--first", &g(3), "--last", &g(5), "--stride", &g(7)]);
        match c.output() {
            Ok(o) => {
                let out = String::from_utf8_lossy(&o.stdout).to_string();
                (judge(o.status, &out), out)
            }
            Err(e) => (Outcome::Harness(e.to_string()), String::new()),
        }
    };
    print!("{}", out);
    match o {
        Outcome::Clean => {
            println!("no violation");
            0
        }
        Outcome::Harness(m) => {
            println!("{}", m);
            2
        }
        o => {
            println!("{}", o.text());
            println!("VIOLATION property={} replay={}", prop, path.display());
            1
        }
    }
}
