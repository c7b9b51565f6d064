//! Executes the seeded runs of one property, minimises and records failures, writes the evidence.

use crate::engine::*;
use crate::scen;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const EXIT_HARNESS: i32 = 2;
const EXIT_HANG: i32 = 77;
const NOT_REPEATABLE: &str = "not-repeatable";

fn verif_dir() -> PathBuf {
    std::env::var("RCSIM_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

fn hang_secs(id: &str) -> u64 {
    // the thorough tier searches for 3072-bit parameters, which can take two minutes
    let usual = if id == "S06" && std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { 300 } else { 100 };
    std::env::var("RCSIM_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(usual)
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

/// the cheap kinds of run are repeated more often
fn quick_factor(id: &str, runs: u64) -> u64 {
    match id.as_bytes()[0] {
        _ if runs < 300 => 1,
        b'S' | b'R' => match id {
            "S01" | "R06" => 3,
            "R01" | "R02" | "R03" | "R04" => 2,
            _ => 1,
        },
        _ => 4,
    }
}

/// the kind of every run, deterministic for (property, tier)
pub fn schedule(sc: &dyn Scenario, tier: Tier) -> Vec<(u8, u32)> {
    let kinds = sc.kinds();
    let mut v: Vec<(f64, u8, u32)> = Vec::new();
    for (k, kind) in kinds.iter().enumerate() {
        let n = if tier == Tier::Quick { kind.quick * quick_factor(sc.id(), kind.quick) } else { kind.thorough };
        for j in 0..n {
            v.push((j as f64 / n as f64, k as u8, j as u32));
        }
    }
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    v.into_iter().map(|x| (x.1, x.2)).collect()
}

fn gen_run(sc: &dyn Scenario, sched: &[(u8, u32)], seed: u64, run: u64, tier: Tier) -> Plan {
    let mut r = Rng::new(run_seed(seed, sc.id(), run));
    let (kind, idx) = sched[run as usize % sched.len().max(1)];
    sc.gen_indexed(kind as usize, idx as u64, &mut r, tier)
}

fn find(prop: &str) -> Option<Box<dyn Scenario>> {
    scen::all().into_iter().find(|s| s.id() == prop)
}

#[derive(Default)]
struct Stats {
    runs: u64,
    events: u64,
    steps: u64,
    checks: u64,
    real: u64,
    faulted_runs: u64,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    states: HashSet<u64>,
    scheds: HashSet<u64>,
    distinct: HashSet<u64>,
    known: BTreeMap<String, u64>,
    hash_xor: u64,
    fault_free: u64,
    repeated: u64,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.runs += o.runs;
        self.events += o.events;
        self.steps += o.steps;
        self.checks += o.checks;
        self.real += o.real;
        self.faulted_runs += o.faulted_runs;
        self.fault_free += o.fault_free;
        self.repeated += o.repeated;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.probes {
            *self.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.scheds.extend(o.scheds);
        self.distinct.extend(o.distinct);
        self.hash_xor ^= o.hash_xor;
    }
}

struct Found {
    run: u64,
    plan: Plan,
    v: Violation,
    history: Vec<u64>,
}

fn is_harness_panic(v: &Violation) -> bool {
    if let Some(loc) = v.class.strip_prefix("escaped-panic:") {
        !loc.contains("/repo/") && !loc.contains("rmath")
    } else {
        false
    }
}

/// known findings of this property: (class pattern, text)
fn load_known(prop: &str) -> Vec<(String, String)> {
    let f = verif_dir().join("known-findings.txt");
    let mut out = Vec::new();
    if let Ok(s) = std::fs::read_to_string(f) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut w = rest.splitn(3, ' ');
                let (p, c, t) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
                if p == format!("property={}", prop) {
                    if let Some(c) = c.strip_prefix("class=") {
                        out.push((c.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    out
}

fn progress_path(prop: &str) -> PathBuf {
    verif_dir().join("target").join(format!("progress-{}", prop))
}

fn n_threads() -> usize {
    std::env::var("RCSIM_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4))
}

fn explore(sc: &dyn Scenario, sched: &[(u8, u32)], seed: u64, tier: Tier, threads: usize, total: u64, known: &[(String, String)], repeat_every: u64)
    -> Result<(Stats, Option<Found>), String> {
    use std::os::unix::fs::FileExt;
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let stats = Mutex::new(Stats::default());
    let harness: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicBool::new(false);
    let cur: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let t0 = Instant::now();
    let budget = Duration::from_secs(if tier == Tier::Quick { 480 } else { 720 });
    let started: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let pf = progress_path(sc.id());
    let _ = std::fs::create_dir_all(pf.parent().unwrap());
    let file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(&pf).map_err(|e| e.to_string())?;
    let known_hit = |c: &str| known.iter().any(|(k, _)| k == c);

    std::thread::scope(|s| {
        for t in 0..threads {
            let (next, best, found, stats, harness, cur, started, file, known_hit) = (&next, &best, &found, &stats, &harness, &cur, &started, &file, &known_hit);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                let mut st = Stats::default();
                let mut history: Vec<u64> = Vec::new();
                loop {
                    if t0.elapsed() > budget {
                        // a slow machine: stop here, the evidence says how many of the scheduled runs took place
                        break;
                    }
                    let run = next.fetch_add(1, Ordering::SeqCst);
                    if run >= total || run > best.load(Ordering::SeqCst) || harness.lock().unwrap().is_some() {
                        break;
                    }
                    started[t].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                    cur[t].store(run, Ordering::SeqCst);
                    let _ = file.write_at(&(run + 1).to_le_bytes(), 8 * t as u64);
                    let plan = gen_run(sc, sched, seed, run, tier);
                    let (cx, mut v) = execute(sc, &plan, false);
                    if repeat_every > 0 && run % repeat_every == 0 && v.is_none() {
                        let (cx2, v2) = execute(sc, &plan, false);
                        st.repeated += 1;
                        if v2.is_some() || cx2.hash != cx.hash {
                            // the harness is deterministic, so the second execution saw state the first left behind
                            v = Some(Violation {
                                class: NOT_REPEATABLE.to_string(),
                                msg: format!("executing the same plan twice gave different events: {:016x} then {:016x} {}", cx.hash, cx2.hash,
                                    v2.map(|v| v.msg).unwrap_or_default()),
                                step: 0,
                            });
                        }
                    }
                    st.runs += 1;
                    st.events += cx.events;
                    st.steps += plan.steps.len() as u64;
                    st.checks += cx.checks;
                    st.real += cx.real;
                    if cx.faults.is_empty() {
                        st.fault_free += 1;
                    } else {
                        st.faulted_runs += 1;
                    }
                    for (k, n) in &cx.faults {
                        *st.faults.entry(k).or_insert(0) += n;
                    }
                    for (k, n) in &cx.probes {
                        *st.probes.entry(k).or_insert(0) += n;
                    }
                    st.scheds.insert(cx.sched);
                    if cx.checks > 0 && plan.steps.len() > 1 {
                        st.distinct.insert(fnv(cx.hash, &cx.checks.to_le_bytes()));
                    }
                    if st.states.len() < 2_000_000 {
                        st.states.extend(cx.states.iter());
                    }
                    let mut y = cx.hash ^ run;
                    st.hash_xor ^= splitmix(&mut y);
                    if let Some(v) = v {
                        if is_harness_panic(&v) {
                            *harness.lock().unwrap() = Some(format!("run {}: {}", run, v.msg));
                        } else if known_hit(&v.class) {
                            *st.known.entry(v.class.clone()).or_insert(0) += 1;
                        } else {
                            let mut f = found.lock().unwrap();
                            if run < best.load(Ordering::SeqCst) {
                                best.store(run, Ordering::SeqCst);
                                *f = Some(Found { run, plan, v, history: history.clone() });
                            }
                        }
                    }
                    history.push(run);
                }
                cur[t].store(u64::MAX, Ordering::SeqCst);
                let _ = file.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                stats.lock().unwrap().merge(st);
            }).expect("spawn");
        }
        let (done, cur, started) = (&done, &cur, &started);
        s.spawn(move || {
            // watchdog: a run that makes no progress at all in real time
            let hang = hang_secs(sc.id());
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(20));
                let now = t0.elapsed().as_millis() as u64;
                let mut all_idle = true;
                for t in 0..cur.len() {
                    let r = cur[t].load(Ordering::SeqCst);
                    if r != u64::MAX {
                        all_idle = false;
                        if now.saturating_sub(started[t].load(Ordering::SeqCst)) > hang * 1000 {
                            println!("HANG run={}", r);
                            std::process::exit(EXIT_HANG);
                        }
                    }
                }
                if all_idle && now > 200 {
                    done.store(true, Ordering::SeqCst);
                }
            }
        });
    });
    if let Some(h) = harness.into_inner().unwrap() {
        return Err(h);
    }
    Ok((stats.into_inner().unwrap(), found.into_inner().unwrap()))
}

// ---------------------------------------------------------------- minimisation

fn minimise(sc: &dyn Scenario, plan: &Plan, class: &str, oracle: &mut dyn FnMut(&Plan) -> bool, max_exec: usize, max_wall: Duration) -> (Plan, usize) {
    let _ = (sc, class);
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut n = 0usize;
    let mut try_plan = |p: &Plan, n: &mut usize| -> bool {
        if *n >= max_exec || t0.elapsed() > max_wall {
            return false;
        }
        *n += 1;
        oracle(p)
    };
    loop {
        let before = best.clone();
        // drop steps, large chunks first
        let mut chunk = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                let mut c = best.clone();
                let end = (i + chunk).min(c.steps.len());
                c.steps.drain(i..end);
                if try_plan(&c, &mut n) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // shrink arguments
        for si in 0..best.steps.len() {
            for ai in 0..best.steps[si].a.len() {
                shrink_value(&mut best, &mut |p, v| p.steps[si].a[ai] = v, |p| p.steps[si].a[ai], &mut |p| try_plan(p, &mut n));
            }
        }
        for ci in 0..best.cfg.len() {
            shrink_value(&mut best, &mut |p, v| p.cfg[ci].1 = v, |p| p.cfg[ci].1, &mut |p| try_plan(p, &mut n));
        }
        if best == before || n >= max_exec || t0.elapsed() > max_wall {
            break;
        }
    }
    (best, n)
}

fn shrink_value(best: &mut Plan, set: &mut dyn FnMut(&mut Plan, i64), get: impl Fn(&Plan) -> i64, ok: &mut dyn FnMut(&Plan) -> bool) {
    let v = get(best);
    if v == 0 {
        return;
    }
    let mut c = best.clone();
    set(&mut c, 0);
    if ok(&c) {
        *best = c;
        return;
    }
    let (mut lo, mut hi) = (0i64, v);
    for _ in 0..24 {
        let mid = lo + (hi - lo) / 2;
        if mid == lo || mid == hi {
            break;
        }
        let mut c = best.clone();
        set(&mut c, mid);
        if ok(&c) {
            *best = c;
            hi = mid;
        } else {
            lo = mid;
        }
    }
}

// ---------------------------------------------------------------- replay files

struct ReplayFile {
    prop: String,
    tier: Tier,
    seed: u64,
    run: u64,
    class: String,
    hash: u64,
    prelude: Vec<u64>,
    plan: Plan,
}

fn write_replay(path: &Path, r: &ReplayFile, msg: &str, note: &str) -> std::io::Result<()> {
    let mut s = String::new();
    let _ = writeln!(s, "# rcsim replay v1: run with `rcsim replay <this file>` (see run.sh replay)");
    let _ = writeln!(s, "# violation: {}", msg.replace('\n', " "));
    if !note.is_empty() {
        let _ = writeln!(s, "# {}", note.replace('\n', " "));
    }
    let _ = writeln!(s, "property {}\ntier {}\nseed {}\nrun {}\nclass {}\nhash {:016x}", r.prop, tier_name(r.tier), r.seed, r.run, r.class, r.hash);
    if !r.prelude.is_empty() {
        let _ = writeln!(s, "prelude {}", r.prelude.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    }
    s.push_str(&r.plan.to_text());
    std::fs::write(path, s)
}

fn read_replay(path: &str) -> Result<ReplayFile, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let mut r = ReplayFile { prop: String::new(), tier: Tier::Quick, seed: 1, run: 0, class: String::new(), hash: 0, prelude: vec![], plan: Plan::from_lines(s.lines())? };
    for l in s.lines() {
        let mut w = l.splitn(2, ' ');
        let (k, v) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
        match k {
            "property" => r.prop = v.to_string(),
            "tier" => r.tier = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "seed" => r.seed = v.parse().unwrap_or(1),
            "run" => r.run = v.parse().unwrap_or(0),
            "class" => r.class = v.to_string(),
            "hash" => r.hash = u64::from_str_radix(v, 16).unwrap_or(0),
            "prelude" => r.prelude = v.split_whitespace().filter_map(|x| x.parse().ok()).collect(),
            _ => {}
        }
    }
    Ok(r)
}

/// exit 1: the recorded violation came back (same class, same event fingerprint); 0: it did not;
/// 3: a different violation
pub fn replay(path: &str) -> i32 {
    let r = match read_replay(path) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            return EXIT_HARNESS;
        }
    };
    let sc = match find(&r.prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", r.prop);
            return EXIT_HARNESS;
        }
    };
    let sched = schedule(sc.as_ref(), r.tier);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            for &p in &r.prelude {
                let plan = gen_run(sc.as_ref(), &sched, r.seed, p, r.tier);
                let _ = execute(sc.as_ref(), &plan, false);
            }
            let (cx, v) = execute(sc.as_ref(), &r.plan, true);
            for l in &cx.log {
                println!("{}", l);
            }
            if r.class == NOT_REPEATABLE {
                let (cx2, _) = execute(sc.as_ref(), &r.plan, true);
                for l in &cx2.log {
                    println!("second: {}", l);
                }
                println!("fingerprints {:016x} {:016x}", cx.hash, cx2.hash);
                return if cx.hash != cx2.hash {
                    println!("reproduced: the same plan executed twice gave different events");
                    1
                } else {
                    0
                };
            }
            println!("fingerprint {:016x} events {}", cx.hash, cx.events);
            match v {
                None => {
                    println!("no violation");
                    0
                }
                Some(v) => {
                    println!("violation property={} class={} step={}: {}", r.prop, v.class, v.step, v.msg);
                    if v.class == r.class && (r.hash == 0 || cx.hash == r.hash) {
                        println!("reproduced exactly");
                        1
                    } else {
                        println!("recorded class={} hash={:016x}", r.class, r.hash);
                        3
                    }
                }
            }
        })
        .expect("spawn")
        .join()
        .unwrap_or(EXIT_HARNESS)
}

/// run one generated plan in this process: 0 held, 1 violation (crashes and hangs are seen by the caller)
pub fn one(prop: &str, run: u64, seed: u64, tier: Tier) -> i32 {
    let sc = match find(prop) {
        Some(s) => s,
        None => return EXIT_HARNESS,
    };
    let sched = schedule(sc.as_ref(), tier);
    let plan = gen_run(sc.as_ref(), &sched, seed, run, tier);
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let (cx, v) = execute(sc.as_ref(), &plan, true);
            print!("{}", plan.to_text());
            for l in &cx.log {
                println!("{}", l);
            }
            println!("fingerprint {:016x}", cx.hash);
            match v {
                Some(v) => {
                    println!("violation class={} step={}: {}", v.class, v.step, v.msg);
                    1
                }
                None => 0,
            }
        })
        .expect("spawn")
        .join()
        .unwrap_or(EXIT_HARNESS)
}

fn replays_dir() -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&d);
    d
}

enum Outcome {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run_child(args: &[String], envs: &[(&str, String)], timeout: Duration, quiet: bool) -> Outcome {
    let exe = std::env::current_exe().expect("current_exe");
    let mut c = Command::new(exe);
    c.args(args);
    for (k, v) in envs {
        c.env(k, v);
    }
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(_) => return Outcome::Code(EXIT_HARNESS),
    };
    let t0 = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match st.code() {
                    Some(c) => Outcome::Code(c),
                    None => Outcome::Signal(st.signal().unwrap_or(0)),
                }
            }
            Ok(None) => {
                if t0.elapsed() > timeout {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Outcome::Timeout;
                }
                std::thread::sleep(Duration::from_millis(3));
            }
            Err(_) => return Outcome::Code(EXIT_HARNESS),
        }
    }
}

fn replay_in_fresh_process(path: &Path) -> bool {
    matches!(run_child(&["replay".into(), path.display().to_string()], &[], Duration::from_secs(120), true), Outcome::Code(1))
}

// ---------------------------------------------------------------- the check

pub fn worker(prop: &str, seed: u64, tier: Tier) -> i32 {
    let sc = match find(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            return EXIT_HARNESS;
        }
    };
    let sc = sc.as_ref();
    if let Err(e) = crate::refs::selftest::run() {
        eprintln!("HARNESS ERROR: reference model self-test failed: {}", e);
        return EXIT_HARNESS;
    }
    let t0 = Instant::now();
    println!("rcsim property={} tier={} seed={}", prop, tier_name(tier), seed);
    let sched = schedule(sc, tier);
    let total = sched.len() as u64;
    let known = load_known(prop);
    let threads = n_threads();
    let res = explore(sc, &sched, seed, tier, threads, total, &known, 50);
    let (stats, found) = match res {
        Ok(x) => x,
        Err(e) => {
            eprintln!("HARNESS ERROR: {}", e);
            return EXIT_HARNESS;
        }
    };
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut viol: Vec<String> = Vec::new();
    if let Some(f) = found {
        code = 1;
        viol.push(report(sc, &sched, seed, tier, f));
    }
    for (c, t) in &known {
        let _ = c;
        println!("KNOWN-FINDING: property={} {}", prop, t);
    }
    let wall = t0.elapsed().as_secs_f64();
    if let Err(e) = write_evidence(sc, &sched, seed, tier, &stats, threads, explore_s, wall, viol.len()) {
        eprintln!("HARNESS ERROR: cannot write evidence: {}", e);
        return EXIT_HARNESS;
    }
    println!("runs={} events={} checks={} distinct={} states={} schedules={} faults={} wall={:.1}s fingerprint={:016x}",
        stats.runs, stats.events, stats.checks, stats.distinct.len(), stats.states.len(), stats.scheds.len(), stats.faults.values().sum::<u64>(), wall, stats.hash_xor);
    for v in viol {
        println!("{}", v);
    }
    code
}

fn report(sc: &dyn Scenario, sched: &[(u8, u32)], seed: u64, tier: Tier, f: Found) -> String {
    let class = f.v.class.clone();
    let path = replays_dir().join(format!("{}-s{}-r{}.replay", sc.id(), seed, f.run));
    println!("violation in run {} step {}: class={} {}", f.run, f.v.step, class, f.v.msg);
    let mut rf = ReplayFile { prop: sc.id().to_string(), tier, seed, run: f.run, class: class.clone(), hash: 0, prelude: vec![], plan: f.plan.clone() };
    if class == NOT_REPEATABLE {
        let _ = write_replay(&path, &rf, &f.v.msg, "the plan is executed twice by the replay");
        if replay_in_fresh_process(&path) {
            return format!("VIOLATION property={} replay={}", sc.id(), path.display());
        }
        rf.class = class.clone();
    }
    let (cx, v) = execute(sc, &f.plan, false);
    if v.as_ref().map(|v| v.class == class).unwrap_or(false) {
        // self-contained: minimise in this process
        rf.hash = cx.hash;
        let mut oracle = |p: &Plan| execute(sc, p, false).1.map(|v| v.class == class).unwrap_or(false);
        let (mut min, mut n) = minimise(sc, &f.plan, &class, &mut oracle, 4000, Duration::from_secs(40));
        for attempt in 0..2 {
            let (cx, v) = execute(sc, &min, false);
            if let Some(v) = v {
                rf.hash = cx.hash;
                rf.plan = min.clone();
                rf.class = v.class.clone();
                let note = format!("minimised from {} to {} steps in {} executions; minimised message: {}", f.plan.steps.len(), min.steps.len(), n, v.msg);
                let _ = write_replay(&path, &rf, &f.v.msg, &note);
                if replay_in_fresh_process(&path) {
                    println!("minimised to {} steps ({} executions): {}", min.steps.len(), n, v.msg);
                    return format!("VIOLATION property={} replay={}", sc.id(), path.display());
                }
            }
            if attempt == 0 {
                // minimisation leaned on state left over in this process: fall back to the original plan
                min = f.plan.clone();
                n = 0;
            }
        }
    }
    // The failure needs state left behind by earlier runs of the same thread: record them as a prelude.
    rf.plan = f.plan.clone();
    rf.class = class.clone();
    rf.hash = 0;
    let mut k = 1usize;
    loop {
        let from = f.history.len().saturating_sub(k);
        rf.prelude = f.history[from..].to_vec();
        let _ = write_replay(&path, &rf, &f.v.msg, "needs the prelude runs on the same thread");
        if replay_in_fresh_process(&path) {
            // drop prelude runs that are not needed
            let mut i = 0;
            let t0 = Instant::now();
            while i < rf.prelude.len() && t0.elapsed() < Duration::from_secs(60) {
                let keep = rf.prelude.clone();
                rf.prelude.remove(i);
                let _ = write_replay(&path, &rf, &f.v.msg, "needs the prelude runs on the same thread");
                if !replay_in_fresh_process(&path) {
                    rf.prelude = keep;
                    i += 1;
                }
            }
            let _ = write_replay(&path, &rf, &f.v.msg, "needs the prelude runs on the same thread");
            return format!("VIOLATION property={} replay={}", sc.id(), path.display());
        }
        if from == 0 {
            break;
        }
        k *= 4;
    }
    // State shared between threads: repeat the whole exploration on one thread and use its prefix.
    if let Ok((_, Some(g))) = explore(sc, sched, seed, tier, 1, sched.len() as u64, &load_known(sc.id()), 0) {
        rf.prelude = g.history.clone();
        rf.plan = g.plan;
        rf.class = g.v.class;
        rf.run = g.run;
        let _ = write_replay(&path, &rf, &g.v.msg, "single-threaded prefix");
    }
    format!("VIOLATION property={} replay={}", sc.id(), path.display())
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: &[&str]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "))
}

fn jmap(m: &BTreeMap<&'static str, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(sc: &dyn Scenario, sched: &[(u8, u32)], seed: u64, tier: Tier, st: &Stats, threads: usize, explore_s: f64, wall: f64, violations: usize) -> std::io::Result<()> {
    let mut samples = Vec::new();
    let kinds = sc.kinds();
    for k in 0..kinds.len() {
        if let Some(run) = sched.iter().position(|&x| x.0 as usize == k) {
            // the first run of each kind may be an edge configuration; show a later one when there is one
            let run = sched.iter().enumerate().filter(|(_, &x)| x.0 as usize == k).nth(7).map(|x| x.0).unwrap_or(run);
            let plan = gen_run(sc, sched, seed, run as u64, tier);
            let mut t = plan.to_text().replace('\n', "; ");
            if t.len() > 700 {
                t.truncate(700);
                t.push_str("...");
            }
            samples.push(format!("{{\"run\": {}, \"kind\": {}, \"plan\": {}}}", run, js(kinds[k].name), js(&t)));
        }
    }
    let mut kindcount: BTreeMap<&'static str, u64> = BTreeMap::new();
    for &k in sched.iter().take(st.runs as usize) {
        *kindcount.entry(kinds[k.0 as usize].name).or_insert(0) += 1;
    }
    let per_hour = if explore_s > 0.0 { (st.runs as f64 / explore_s * 3600.0) as u64 } else { 0 };
    let mut s = String::new();
    let _ = writeln!(s, "{{");
    let _ = writeln!(s, " \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",", js(sc.id()), js(tier_name(tier)), seed);
    let _ = writeln!(s, " \"coverage\": {{");
    let _ = writeln!(s, "  \"evaluations\": {},", st.runs);
    let _ = writeln!(s, "  \"distinct_nontrivial\": {},", st.distinct.len());
    let _ = writeln!(s, "  \"rule\": {},", js(&format!("one evaluation = one simulated run generated from (seed, run index); counted distinct by the fingerprint of its complete event log and only when it has more than one scheduled step and at least one oracle comparison. {}", sc.rule())));
    let _ = writeln!(s, "  \"samples\": [{}],", samples.join(", "));
    let _ = writeln!(s, "  \"runs_scheduled\": {}, \"runs_left_out_for_time\": {}, \"runs_by_kind\": {},", sched.len(), if violations == 0 { (sched.len() as u64).saturating_sub(st.runs) } else { 0 }, jmap(&kindcount));
    let _ = writeln!(s, "  \"runs_per_hour\": {}, \"seeds_per_hour\": {},", per_hour, per_hour);
    let _ = writeln!(s, "  \"simulated_time_events\": {}, \"scheduled_steps\": {}, \"library_calls\": {}, \"oracle_checks\": {},", st.events, st.steps, st.real, st.checks);
    let _ = writeln!(s, "  \"simulated_time_note\": \"the library has no clock; simulated time is counted in logged events\",");
    let _ = writeln!(s, "  \"faults_injected\": {}, \"runs_with_faults\": {}, \"runs_without_faults\": {},", jmap(&st.faults), st.faulted_runs, st.fault_free);
    let _ = writeln!(s, "  \"probes\": {},", jmap(&st.probes));
    let _ = writeln!(s, "  \"distinct_interleavings\": {}, \"interleaving_measure\": \"distinct sequences of (session, operation) scheduling decisions\",", st.scheds.len());
    let _ = writeln!(s, "  \"distinct_states\": {}, \"state_measure\": \"distinct abstract states (object kind, operation, buffer occupancy / phase) reached\",", st.states.len());
    let _ = writeln!(s, "  \"repeatability\": {{\"runs_executed_twice\": {}, \"fingerprint_of_all_runs\": \"{:016x}\", \"workers\": {}}},", st.repeated, st.hash_xor, threads);
    let known: BTreeMap<String, u64> = st.known.clone();
    let _ = writeln!(s, "  \"known_findings_hit\": {{{}}},", known.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    let _ = writeln!(s, "  \"components_real\": {},", jlist(sc.real()));
    let _ = writeln!(s, "  \"components_stubbed\": {}", jlist(sc.stubs()));
    let _ = writeln!(s, " }},");
    let _ = writeln!(s, " \"assumptions\": {},", jlist(sc.assumptions()));
    let _ = writeln!(s, " \"wall_s\": {:.3}, \"violations\": {}", wall, violations);
    let _ = writeln!(s, "}}");
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d)?;
    std::fs::write(d.join(format!("{}.json", sc.id())), s)
}

/// Runs the worker as a child so that crashes (signals) and hangs of the library become violations.
pub fn supervise(prop: &str, seed: u64, tier: Tier) -> i32 {
    let sc = match find(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {}", prop);
            return EXIT_HARNESS;
        }
    };
    let envs = [("VERIF_SEED", seed.to_string()), ("VERIF_TIER", tier_name(tier).to_string())];
    let limit = if tier == Tier::Quick { 800 } else { 870 };
    let t0 = Instant::now();
    let out = run_child(&["worker".into(), prop.into()], &envs, Duration::from_secs(limit), false);
    let what = match out {
        Outcome::Code(c) if c == 0 || c == 1 => return c,
        Outcome::Code(EXIT_HANG) => "hang",
        Outcome::Code(c) if c != 134 => return if c == 0 { EXIT_HARNESS } else { c.max(2) },
        Outcome::Timeout => {
            eprintln!("HARNESS ERROR: worker exceeded {} s", limit);
            return EXIT_HARNESS;
        }
        _ => "crash",
    };
    // which runs were in flight?
    let mut cand: Vec<u64> = Vec::new();
    if let Ok(b) = std::fs::read(progress_path(prop)) {
        for c in b.chunks_exact(8) {
            let v = u64::from_le_bytes(c.try_into().unwrap());
            if v > 0 {
                cand.push(v - 1);
            }
        }
    }
    cand.sort_unstable();
    let sched = schedule(sc.as_ref(), tier);
    for run in cand {
        let to = Duration::from_secs(hang_secs(prop));
        let bad = match run_child(&["one".into(), prop.into(), run.to_string()], &envs, to, true) {
            Outcome::Signal(_) | Outcome::Code(134) => "crash",
            Outcome::Timeout => "hang",
            _ => continue,
        };
        let plan = gen_run(sc.as_ref(), &sched, seed, run, tier);
        let path = replays_dir().join(format!("{}-s{}-r{}.replay", prop, seed, run));
        let mut rf = ReplayFile { prop: prop.to_string(), tier, seed, run, class: bad.to_string(), hash: 0, prelude: vec![], plan: plan.clone() };
        let msg = format!("the process {} while executing this plan", if bad == "crash" { "died from a signal" } else { "made no progress" });
        let _ = write_replay(&path, &rf, &msg, "");
        if bad == "crash" && t0.elapsed() < Duration::from_secs(400) {
            let tmp = replays_dir().join(format!("{}-min.tmp", prop));
            let mut oracle = |p: &Plan| {
                rf.plan = p.clone();
                let _ = write_replay(&tmp, &rf, &msg, "");
                matches!(run_child(&["replay".into(), tmp.display().to_string()], &[], Duration::from_secs(20), true), Outcome::Signal(_) | Outcome::Code(134))
            };
            let (min, n) = minimise(sc.as_ref(), &plan, bad, &mut oracle, 400, Duration::from_secs(60));
            rf.plan = min;
            let _ = write_replay(&path, &rf, &msg, &format!("minimised in {} executions", n));
            let _ = std::fs::remove_file(&tmp);
        }
        println!("{} in run {}", bad, run);
        let st = Stats { runs: run + 1, ..Default::default() };
        let _ = write_evidence(sc.as_ref(), &sched, seed, tier, &st, n_threads(), t0.elapsed().as_secs_f64(), t0.elapsed().as_secs_f64(), 1);
        println!("VIOLATION property={} replay={}", prop, path.display());
        return 1;
    }
    eprintln!("HARNESS ERROR: worker ended with a {} that no single run reproduces", what);
    EXIT_HARNESS
}

/// same seeds on 1 and on several workers, and again: the combined fingerprints must agree
pub fn determinism(prop: &str, runs: u64, seed: u64, tier: Tier) -> i32 {
    let sc = match find(prop) {
        Some(s) => s,
        None => return EXIT_HARNESS,
    };
    let sched = schedule(sc.as_ref(), tier);
    let total = runs.min(sched.len() as u64);
    let mut prints = Vec::new();
    for threads in [1usize, 3, 8] {
        match explore(sc.as_ref(), &sched, seed, tier, threads, total, &load_known(prop), 0) {
            Ok((st, _)) => prints.push(st.hash_xor),
            Err(e) => {
                eprintln!("{}", e);
                return EXIT_HARNESS;
            }
        }
    }
    println!("{} runs={} fingerprints {}", prop, total, prints.iter().map(|x| format!("{:016x}", x)).collect::<Vec<_>>().join(" "));
    if prints.iter().all(|x| *x == prints[0]) {
        0
    } else {
        1
    }
}
