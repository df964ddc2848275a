//! Runtime monitors for the gpt crate: driver and workers.
mod codec;
mod ctx;
mod dev;
mod prng;
mod props;
mod world;

use ctx::{Ctx, Stop, Tier};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{BufRead, BufReader, Write as _};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

#[cfg(not(any(feature = "plain", miri)))]
#[global_allocator]
static ALLOC: ctx::Counting = ctx::Counting;

/// CPU seconds one call of the library may take, and one case with all its
/// checks; typical cases take milliseconds, the longest a few seconds.
const CALL_CPU_S: f64 = 30.0;
const CASE_CPU_S: f64 = 150.0;

pub enum Outcome {
    Held,
    Skipped,
    Violation(String),
    Known(&'static str, String),
    Harness(String),
}

/// Run one case, attributing panics.
pub fn run_case(p: &props::Prop, c: &mut Ctx) -> Outcome {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(c)));
    match r {
        Ok(Ok(())) => Outcome::Held,
        Ok(Err(Stop::Violation(m))) => Outcome::Violation(m),
        Ok(Err(Stop::Known(k, m))) => Outcome::Known(k, m),
        Ok(Err(Stop::Skip(_))) => Outcome::Skipped,
        Ok(Err(Stop::Harness(m))) => Outcome::Harness(m),
        Err(_) => match ctx::LAST_PANIC.with(|p| p.borrow_mut().take()) {
            Some((m, true)) => Outcome::Violation(format!("the library panicked: {m}")),
            Some((m, false)) => Outcome::Harness(format!("harness panic: {m}")),
            None => Outcome::Harness("panic without a message".into()),
        },
    }
}

fn listed(prop: &str) -> Vec<String> {
    let path = verif().join("known-findings.txt");
    let mut v = vec![];
    if let Ok(s) = fs::read_to_string(path) {
        for l in s.lines() {
            // KNOWN-FINDING: property=C03 id=growth-overlap <text>
            if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
                let mut w = r.split_whitespace();
                if w.next() == Some(prop) {
                    if let Some(id) = w.next().and_then(|x| x.strip_prefix("id=")) {
                        v.push(id.to_string());
                    }
                }
            }
        }
    }
    v
}

fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
fn cpu_ms() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    // SAFETY: plain libc call with a valid pointer (CLOCK_PROCESS_CPUTIME_ID = 2)
    unsafe { clock_gettime(2, &mut t) };
    (t.s as u64) * 1000 + (t.n as u64) / 1_000_000
}

static CASE: AtomicU64 = AtomicU64::new(u64::MAX);
static CASE_START: AtomicU64 = AtomicU64::new(0);

fn start_watchdog() {
    // the call seen last and the CPU time when it was seen first
    let mut call = (u64::MAX, 0);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let c = CASE.load(Relaxed);
        if c != u64::MAX {
            let n = ctx::LIB_CALLS.load(Relaxed);
            if n != call.0 || !ctx::LIB_BUSY.load(Relaxed) {
                call = (n, cpu_ms());
            }
            let in_call = cpu_ms().saturating_sub(call.1);
            let used = cpu_ms().saturating_sub(CASE_START.load(Relaxed));
            if (in_call as f64 > CALL_CPU_S * 1000.0 || used as f64 > CASE_CPU_S * 1000.0) && c == CASE.load(Relaxed) {
                println!("H {c}");
                let _ = std::io::stdout().flush();
                exit(97);
            }
        }
    });
}

fn worker(p: &'static props::Prop, tier: Tier, seed: u64, shard: u64, shards: u64, dir: &Path, deadline: u64, cases: u64) {
    start_watchdog();
    let status = fs::File::create(dir.join(format!("status{shard}"))).unwrap();
    let ls = listed(p.id);
    let stop = dir.join("stop");
    let t0 = Instant::now();
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut held, mut skipped, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut digests: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut samples = 0;
    let mut slowest = (0, 0);
    let mut guids: HashSet<[u8; 16]> = HashSet::new();
    let mut i = shard;
    while i < cases {
        if t0.elapsed().as_secs() >= deadline || stop.exists() {
            break;
        }
        status.write_all_at(&i.to_le_bytes(), 0).unwrap();
        CASE_START.store(cpu_ms(), Relaxed);
        CASE.store(i, Relaxed);
        let mut c = Ctx::new(p.id, tier, seed, i, ls.clone());
        let mut out = run_case(p, &mut c);
        CASE.store(u64::MAX, Relaxed);
        slowest = slowest.max((cpu_ms().saturating_sub(CASE_START.load(Relaxed)), i));
        if matches!(out, Outcome::Held | Outcome::Known(..)) {
            for g in &c.generated {
                if !guids.insert(*g) {
                    out = Outcome::Violation(format!("generated GUID {g:02x?} twice"));
                }
            }
        }
        match out {
            Outcome::Held => {
                held += 1;
                for (k, n) in &c.counts {
                    *counts.entry(k).or_insert(0) += n;
                }
                if c.nontrivial {
                    nontrivial += 1;
                    digests.insert(c.digest);
                    if samples < 2 && shard < 2 && !c.trace.is_empty() {
                        samples += 1;
                        let t: Vec<_> = c.trace.iter().take(12).map(|l| l.chars().take(160).collect::<String>()).collect();
                        println!("S {}", esc(&format!("case {i}: {}", t.join("; "))));
                    }
                }
            }
            Outcome::Skipped => skipped += 1,
            Outcome::Known(k, m) => {
                held += 1;
                known.entry(k.to_string()).or_insert((0, m)).0 += 1;
            }
            Outcome::Violation(m) => {
                println!("V {i} {}", esc(&m));
                println!("T {}", esc(&c.trace.join("\n")));
                let _ = fs::write(&stop, b"");
                let _ = std::io::stdout().flush();
                exit(0);
            }
            Outcome::Harness(m) => {
                println!("E {i} {}", esc(&format!("{m} [{}]", c.trace.join("; "))));
                let _ = std::io::stdout().flush();
                exit(0);
            }
        }
        i += shards;
    }
    for (k, n) in counts {
        println!("C {n} {k}");
    }
    for (k, (n, m)) in known {
        println!("K {k} {n} {}", esc(&m));
    }
    println!("N {held} {skipped} {nontrivial}");
    println!("X {} {}", slowest.0, slowest.1);
    let mut buf = Vec::with_capacity(digests.len() * 8);
    for d in digests {
        buf.extend_from_slice(&d.to_le_bytes());
    }
    fs::write(dir.join(format!("digests{shard}")), buf).unwrap();
    println!("D");
}

#[derive(Default)]
struct Got {
    viol: Option<(u64, String, String)>,
    err: Option<String>,
    counts: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    held: u64,
    skipped: u64,
    nontrivial: u64,
    samples: Vec<String>,
    done: bool,
    hang: Option<u64>,
    /// CPU milliseconds and number of the longest case
    slowest: (u64, u64),
}

fn read_worker(out: std::process::ChildStdout) -> Got {
    let mut g = Got::default();
    for l in BufReader::new(out).lines() {
        let Ok(l) = l else { break };
        let (k, r) = l.split_at(1.min(l.len()));
        let r = r.trim_start();
        let sp = |s: &str| -> (String, String) {
            match s.split_once(' ') {
                Some((a, b)) => (a.to_string(), b.to_string()),
                None => (s.to_string(), String::new()),
            }
        };
        match k {
            "V" => {
                let (i, m) = sp(r);
                g.viol = Some((i.parse().unwrap_or(0), unesc(&m), String::new()));
            }
            "T" => {
                if let Some(v) = &mut g.viol {
                    v.2 = unesc(r);
                }
            }
            "E" => g.err = Some(unesc(r)),
            "X" => {
                let (a, b) = sp(r);
                g.slowest = (a.parse().unwrap_or(0), b.parse().unwrap_or(0));
            }
            "H" => g.hang = r.parse().ok(),
            "C" => {
                let (n, k) = sp(r);
                *g.counts.entry(k).or_insert(0) += n.parse::<u64>().unwrap_or(0);
            }
            "K" => {
                let (id, r) = sp(r);
                let (n, m) = sp(&r);
                g.known.insert(id, (n.parse().unwrap_or(0), unesc(&m)));
            }
            "N" => {
                let v: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
                if v.len() == 3 {
                    g.held += v[0];
                    g.skipped += v[1];
                    g.nontrivial += v[2];
                }
            }
            "S" => g.samples.push(unesc(r)),
            "D" => g.done = true,
            _ => {}
        }
    }
    g
}

fn spawn(args: &[String]) -> std::process::Child {
    Command::new(std::env::current_exe().unwrap())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn a worker")
}

/// Exit codes: 0 held, 1 violation, 2 error of the check.
fn drive(p: &'static props::Prop, tier: Tier, seed: u64, build: &str) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    // leftovers of lost workers go with it
    std::env::set_var("TMPDIR", &dir);
    let r = drive_in(p, tier, seed, build, &dir, t0);
    let _ = fs::remove_dir_all(&dir);
    r
}

fn drive_in(p: &'static props::Prop, tier: Tier, seed: u64, build: &str, dir: &Path, t0: Instant) -> i32 {
    let shards = std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(2, 16);
    let scale: f64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let cases = match tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    };
    let cases = ((cases as f64 * scale) as u64).max(shards);
    let deadline = match tier {
        Tier::Quick => 200u64,
        Tier::Thorough => 600,
    };
    let tname = if tier == Tier::Quick { "quick" } else { "thorough" };
    let mut kids = vec![];
    for s in 0..shards {
        let a: Vec<String> = [
            "worker".to_string(),
            p.id.to_string(),
            tname.to_string(),
            seed.to_string(),
            s.to_string(),
            shards.to_string(),
            dir.display().to_string(),
            deadline.to_string(),
            cases.to_string(),
        ]
        .to_vec();
        let mut k = spawn(&a);
        let out = k.stdout.take().unwrap();
        let h = std::thread::spawn(move || read_worker(out));
        kids.push((k, h));
    }
    let mut all = Got::default();
    let mut violation: Option<(u64, String, String)> = None;
    let mut error: Option<String> = None;
    // wait, generously: workers stop by themselves at the deadline
    let limit = Duration::from_secs(deadline + 180);
    let mut state: Vec<Option<std::process::ExitStatus>> = kids.iter().map(|_| None).collect();
    loop {
        let mut running = 0;
        for (i, (k, h)) in kids.iter_mut().enumerate() {
            if state[i].is_none() {
                match k.try_wait() {
                    Ok(Some(s)) => state[i] = Some(s),
                    _ => running += 1,
                }
            }
            let _ = h;
        }
        if running == 0 {
            break;
        }
        if t0.elapsed() > limit {
            error = Some("workers did not finish in time".into());
            for (k, _) in kids.iter_mut() {
                let _ = k.kill();
                let _ = k.wait();
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (s, (mut k, h)) in kids.into_iter().enumerate() {
        let _ = k.wait();
        let g = h.join().unwrap();
        if let Some(v) = g.viol {
            if violation.as_ref().map_or(true, |o| v.0 < o.0) {
                violation = Some(v);
            }
            continue;
        }
        if let Some(e) = g.err {
            error.get_or_insert(e);
            continue;
        }
        if !g.done && error.is_none() {
            // killed or aborted: which case was it in?
            let idx = fs::read(dir.join(format!("status{s}")))
                .ok()
                .and_then(|b| b.try_into().ok().map(u64::from_le_bytes));
            let how = if let Some(i) = g.hang {
                format!("case {i} did not finish: a call within {CALL_CPU_S} s or all of it within {CASE_CPU_S} s of CPU time")
            } else {
                match state[s] {
                    Some(st) => match st.signal() {
                        Some(sig) => format!("the process died of signal {sig}"),
                        None => format!("the process exited with {:?}", st.code()),
                    },
                    None => "the worker was ended".into(),
                }
            };
            match idx {
                Some(i) => {
                    // confirm in a fresh process
                    let mut k = spawn(&[
                        "worker".to_string(),
                        p.id.into(),
                        tname.into(),
                        seed.to_string(),
                        i.to_string(),
                        u64::MAX.wrapping_sub(i).max(1).to_string(),
                        dir.display().to_string(),
                        "300".into(),
                        (i + 1).to_string(),
                    ]);
                    let out = k.stdout.take().unwrap();
                    let g2 = read_worker(out);
                    let st = k.wait().unwrap();
                    let again = !g2.done && g2.err.is_none() && (g2.hang.is_some() || st.signal().is_some() || g2.viol.is_some());
                    if again && st.signal() != Some(9) {
                        let v = (i, how, String::from("(process lost; replay prints the steps)"));
                        if violation.as_ref().map_or(true, |o| v.0 < o.0) {
                            violation = Some(v);
                        }
                    } else {
                        error.get_or_insert(format!("{how} in case {i}, not reproduced"));
                    }
                }
                None => {
                    error.get_or_insert(how);
                }
            }
            continue;
        }
        for (k, n) in g.counts {
            *all.counts.entry(k).or_insert(0) += n;
        }
        for (k, (n, m)) in g.known {
            let e = all.known.entry(k).or_insert((0, m));
            e.0 += n;
        }
        all.slowest = all.slowest.max(g.slowest);
        all.held += g.held;
        all.skipped += g.skipped;
        all.nontrivial += g.nontrivial;
        all.samples.extend(g.samples);
    }
    if let Some((i, m, t)) = violation {
        let rd = verif().join("evidence/replays");
        let _ = fs::create_dir_all(&rd);
        let f = rd.join(format!("{}-{}-{seed}-{i}.json", p.id, tname));
        let txt = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"index\":{i},\"build\":{},\n\"violation\":{},\n\"history\":{},\n\"replay_cmd\":{}}}\n",
            json_str(p.id),
            json_str(tname),
            json_str(build),
            json_str(&m),
            json_str(&t),
            json_str(&format!("/verif/check.sh --replay {}", f.display())),
        );
        let _ = fs::write(&f, txt);
        println!("{m}");
        write_evidence(p, tname, seed, build, &all, 0, 1, t0);
        println!("VIOLATION property={} replay={}", p.id, f.display());
        return 1;
    }
    if let Some(e) = error {
        eprintln!("check error: {e}");
        return 2;
    }
    let mut ds: HashSet<u64> = HashSet::new();
    for s in 0..shards {
        if let Ok(b) = fs::read(dir.join(format!("digests{s}"))) {
            for c in b.chunks_exact(8) {
                ds.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    for r in p.required {
        if all.counts.get(*r).copied().unwrap_or(0) == 0 {
            eprintln!("check error: nothing observed for '{r}'");
            return 2;
        }
    }
    if ds.is_empty() {
        eprintln!("check error: no non-trivial case");
        return 2;
    }
    for (k, (n, m)) in &all.known {
        println!("KNOWN-FINDING: property={} {k}: {m} (met in {n} cases)", p.id);
    }
    write_evidence(p, tname, seed, build, &all, ds.len() as u64, 0, t0);
    println!(
        "{} held: {} cases, {} distinct non-trivial, {:.1} s, longest case {} with {:.1} s of CPU",
        p.id,
        all.held,
        ds.len(),
        t0.elapsed().as_secs_f64(),
        all.slowest.1,
        all.slowest.0 as f64 / 1000.0
    );
    0
}

fn write_evidence(p: &props::Prop, tier: &str, seed: u64, build: &str, g: &Got, distinct: u64, viols: u64, t0: Instant) {
    let obs: Vec<String> = g.counts.iter().map(|(k, n)| format!("{}:{n}", json_str(k))).collect();
    let known: Vec<String> = g.known.iter().map(|(k, (n, m))| format!("{{\"id\":{},\"cases\":{n},\"what\":{}}}", json_str(k), json_str(m))).collect();
    let mut s: Vec<String> = g.samples.iter().take(4).map(|s| json_str(s)).collect();
    if s.is_empty() {
        s.push(json_str("none finished"));
    }
    let txt = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":{},\n\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{distinct},\"skipped\":{},\"rule\":{},\n\"observed\":{{{}}},\n\"known_findings_met\":[{}],\n\"samples\":[{}]}},\n\"assumptions\":[{}],\n\"build\":{},\"wall_s\":{:.2},\"violations\":{viols}}}\n",
        json_str(p.id),
        json_str(tier),
        json_str(p.level),
        g.held,
        g.skipped,
        json_str(p.rule),
        obs.join(","),
        known.join(","),
        s.join(",\n"),
        p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(","),
        json_str(build),
        t0.elapsed().as_secs_f64(),
    );
    let d = verif().join("evidence");
    let _ = fs::create_dir_all(&d);
    let name = if build == "checked" { format!("{}.json", p.id) } else { format!("{}.{build}.json", p.id) };
    fs::write(d.join(name), txt).expect("write evidence");
}

fn one(p: &'static props::Prop, tier: Tier, seed: u64, index: u64) -> i32 {
    let mut c = Ctx::new(p.id, tier, seed, index, listed(p.id));
    c.verbose = true;
    match run_case(p, &mut c) {
        Outcome::Held => {
            eprintln!("held");
            0
        }
        Outcome::Skipped => {
            eprintln!("skipped");
            0
        }
        Outcome::Known(k, m) => {
            eprintln!("known finding {k}: {m}");
            0
        }
        Outcome::Violation(m) => {
            println!("{m}");
            println!("violated: property={} seed={seed} index={index}", p.id);
            1
        }
        Outcome::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        }
    }
}

fn tier_of(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() {
    ctx::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let prop = |id: &str| match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            exit(2)
        }
    };
    let code = match a.as_slice() {
        ["run", id, tier, seed, build] => drive(prop(id), tier_of(tier), seed.parse().unwrap_or(1), build),
        ["worker", id, tier, seed, shard, shards, dir, deadline, cases] => {
            worker(
                prop(id),
                tier_of(tier),
                seed.parse().unwrap(),
                shard.parse().unwrap(),
                shards.parse().unwrap(),
                Path::new(dir),
                deadline.parse().unwrap(),
                cases.parse().unwrap(),
            );
            0
        }
        ["one", id, tier, seed, index] => one(prop(id), tier_of(tier), seed.parse().unwrap(), index.parse().unwrap()),
        ["serial", id, tier, seed, from, to] => props::serial(prop(id), tier_of(tier), seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap()),
        ["transcript", seed, from, to] => props::transcript(seed.parse().unwrap(), from.parse().unwrap(), to.parse().unwrap()),
        ["list"] => {
            for p in props::ALL {
                println!("{} {} {} {}", p.id, p.level, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: vh run ID TIER SEED BUILD | one ID TIER SEED INDEX | list");
            2
        }
    };
    exit(code);
}
