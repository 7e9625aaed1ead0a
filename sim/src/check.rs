//! The check of one property: searches seeded scenarios in worker processes, confirms and minimises what it finds,
//! writes the replay file and the evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::case::{Case, Op, Via};
use crate::exec::{self, Stats, Violation};
use crate::{io, lut, on_thread, props, shrink, sys};

const CPU_PER_CASE: u64 = 30;

// ------------------------------------------------------------------------------------------------ limits

#[repr(C)] struct Rlimit { cur: u64, max: u64 }
#[repr(C)] struct Timeval { s: i64, us: i64 }
#[repr(C)] struct Rusage { u: Timeval, s: Timeval, rest: [i64; 14] }
extern "C" { fn setrlimit(r: i32, l: *const Rlimit) -> i32; fn getrlimit(r: i32, l: *mut Rlimit) -> i32; fn getrusage(w: i32, u: *mut Rusage) -> i32; }
/// From now on this process may use `secs` of processor time; then SIGXCPU ends it.
fn cpu_limit(secs: u64) {
    unsafe {
        let mut u: Rusage = std::mem::zeroed();
        getrusage(0, &mut u);
        let mut l = Rlimit { cur: 0, max: 0 };
        getrlimit(0, &mut l);
        l.cur = ((u.u.s + u.s.s) as u64 + secs + 1).min(l.max);
        setrlimit(0, &l);
    }
}
fn no_core() { unsafe { let l = Rlimit { cur: 0, max: 0 }; setrlimit(4, &l); } }

fn me() -> PathBuf { std::env::current_exe().expect("own path") }
fn root() -> PathBuf { std::env::var_os("SIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")) }

// ------------------------------------------------------------------------------------------------ known findings

pub struct Known { pub prop: String, pub class: String, pub text: String }
/// Lines `known: property=<id> class=<class of the violation> :: <what fails>`; all other lines are for readers.
fn known() -> Vec<Known> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines().filter_map(|l| {
        let l = l.strip_prefix("known: property=")?;
        let (prop, l) = l.split_once(" class=")?;
        let (class, text) = l.split_once(" :: ")?;
        Some(Known { prop: prop.into(), class: class.into(), text: text.into() })
    }).collect()
}

// ------------------------------------------------------------------------------------------------ worker

fn judge_thread(c: &Case) -> std::thread::Result<(Option<Violation>, Stats)> { let c = c.clone(); on_thread(move || props::judge(&c)) }

pub fn worker(id: &str, seed: u64, total: u64, step: u64, from: u64, dir: &str) -> i32 {
    lut::quiet_panics();
    no_core();
    let dir = Path::new(dir);
    let r = from % step;
    let prog = File::options().create(true).write(true).open(dir.join(format!("progress.{r}"))).expect("progress");
    let mut rec = File::options().create(true).append(true).open(dir.join(format!("records.{r}"))).expect("records");
    let mut stats = File::options().create(true).append(true).open(dir.join(format!("stats.{r}"))).expect("stats");
    let stop = File::options().read(true).open(dir.join("stop")).expect("stop");
    let known: Vec<Known> = known().into_iter().filter(|k| k.prop == id).collect();
    let mut tot = Stats::default();
    let mut out: Vec<u8> = vec![];
    let (mut idx, mut n) = (from, 0u64);
    let mark = |idx: u64, v: u32, state: u32| { let mut b = [0u8; 16]; b[..8].copy_from_slice(&idx.to_le_bytes()); b[8..12].copy_from_slice(&v.to_le_bytes()); b[12..].copy_from_slice(&state.to_le_bytes()); let _ = prog.write_at(&b, 0); };
    let mut harness = 0;
    while idx < total {
        let mut b = [0u8; 8];
        if stop.read_at(&mut b, 0).unwrap_or(0) == 8 && idx > u64::from_le_bytes(b) { break; }
        mark(idx, 0, 1);
        cpu_limit(CPU_PER_CASE);
        let p = id.to_string();
        let cs = match on_thread(move || props::cases(&p, seed, idx)) { Ok(c) => c, Err(_) => { harness += 1; eprintln!("harness panic while making scenario {idx}"); idx += step; continue } };
        for (k, c) in cs.iter().enumerate() {
            mark(idx, k as u32, 2);
            cpu_limit(CPU_PER_CASE);
            let (v, st) = match judge_thread(c) { Ok(x) => x, Err(_) => { harness += 1; eprintln!("harness panic while judging {}", c.origin); continue } };
            tot.merge(&st);
            out.extend(idx.to_le_bytes()); out.extend((k as u32).to_le_bytes()); out.extend(st.hash.to_le_bytes()); out.push(st.nontrivial as u8);
            if let Some(v) = v {
                if known.iter().any(|x| x.class == shrink::class(&v.what)) { *tot.by.entry("known finding met".into()).or_default() += 1; continue; }
                let j = json!({ "idx": idx, "variant": k, "what": v.what, "case": serde_json::to_value(c).unwrap() });
                std::fs::write(dir.join(format!("viol.{r}")), serde_json::to_vec(&j).unwrap()).expect("write");
                let _ = rec.write_all(&out);
                let _ = writeln!(stats, "{}", serde_json::to_string(&tot).unwrap());
                return 10;
            }
        }
        n += 1;
        if n % 200 == 0 { let _ = rec.write_all(&out); out.clear(); let _ = writeln!(stats, "{}", serde_json::to_string(&tot).unwrap()); tot = Stats::default(); }
        idx += step;
    }
    mark(idx, 0, 3);
    let _ = rec.write_all(&out);
    let _ = writeln!(stats, "{}", serde_json::to_string(&tot).unwrap());
    let _ = std::fs::write(dir.join(format!("edges.{from}")), sys::hit_bits());
    if harness > 0 { 12 } else { 0 }
}

/// Judges one case file; says what happened on stdout.
pub fn run1(file: &str) -> i32 {
    lut::quiet_panics();
    no_core();
    let Ok(c) = load(file) else { eprintln!("unreadable case"); return 2 };
    cpu_limit(std::env::var("SIM_CPU").ok().and_then(|x| x.parse().ok()).unwrap_or(CPU_PER_CASE));
    if !before(file) { eprintln!("harness panic in a preceding run"); return 3; }
    if std::env::var_os("SIM_NOTES").is_some() { *exec::NOTES.lock().unwrap() = Some(vec![]); }
    match judge_thread(&c) {
        Ok((v, st)) => {
            let notes = exec::NOTES.lock().unwrap().take().unwrap_or_default();
            println!("{}", json!({ "what": v.map(|v| v.what), "hash": format!("{:016x}", st.hash), "notes": notes }));
            0
        }
        Err(_) => { eprintln!("harness panic"); 3 }
    }
}
/// What the same process executes before the case of a file: a violation may need state that earlier calls left
/// behind in the process (the only state worlds share).
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
struct Before { #[serde(default)] seed: u64, #[serde(default)] scenarios: Vec<u64>, #[serde(default)] own: Option<(u64, u64)>, #[serde(default)] cases: Vec<Case> }
fn before(file: &str) -> bool {
    let v: Value = std::fs::read(file).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
    let Ok(b) = serde_json::from_value::<Before>(v["before"].clone()) else { return true };
    let id = v["case"]["prop"].as_str().unwrap_or("").to_string();
    let go = |idx: u64, upto: u64| -> bool {
        cpu_limit(CPU_PER_CASE);
        let p = id.clone();
        let Ok(cs) = on_thread(move || props::cases(&p, b.seed, idx)) else { return false };
        for c in cs.iter().take(upto as usize) { cpu_limit(CPU_PER_CASE); if judge_thread(c).is_err() { return false; } }
        true
    };
    for i in &b.scenarios { if !go(*i, u64::MAX) { return false; } }
    if let Some((i, k)) = b.own { if !go(i, k) { return false; } }
    for c in &b.cases { cpu_limit(CPU_PER_CASE); if judge_thread(c).is_err() { return false; } }
    cpu_limit(CPU_PER_CASE);
    true
}
fn load(file: &str) -> Result<Case, String> {
    let v: Value = serde_json::from_slice(&std::fs::read(file).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let v = if v.get("case").is_some() { v["case"].clone() } else { v };
    serde_json::from_value(v).map_err(|e| e.to_string())
}

pub fn emit(id: &str, seed: u64, idx: u64, variant: usize, file: &str) -> i32 {
    lut::quiet_panics();
    no_core();
    cpu_limit(CPU_PER_CASE);
    if variant == 99_999 { *io::EMIT.lock().unwrap() = Some(file.into()); }
    let p = id.to_string();
    let Ok(cs) = on_thread(move || props::cases(&p, seed, idx)) else { return 3 };
    if variant == 99_999 { return 0; }
    let Some(c) = cs.get(variant) else { return 4 };
    std::fs::write(file, serde_json::to_vec(c).unwrap()).map(|_| 0).unwrap_or(2)
}

/// What a fresh process says about a case.
#[derive(Clone, Debug, PartialEq)]
enum Verdict { Clean, Bad(String, String), Died(String), Harness(String) }
impl Verdict { fn class(&self) -> Option<String> { match self { Verdict::Bad(w, _) => Some(shrink::class(w)), Verdict::Died(d) => Some(shrink::class(d)), _ => None } } }

fn death(s: &ExitStatus, err: &str) -> String {
    if s.code() == Some(97) || err.contains("SIM-HANG") { return "the operation does not end: system call budget exhausted".into(); }
    if s.signal() == Some(24) { return "the operation does not end: processor time budget exhausted".into(); }
    if err.contains("has overflowed its stack") { return "the process dies: stack overflow".into(); }
    if let Some(l) = err.lines().find(|l| l.contains("memory allocation of")) { return format!("the process dies: {l}"); }
    if err.contains("DEADLOCK") { return "the callers wait for each other forever".into(); }
    let line = err.lines().rev().find(|l| l.contains("panicked") || l.contains("abort") || l.contains("unsafe precondition")).unwrap_or("");
    format!("the process dies: {} {}", s.signal().map(|x| format!("signal {x}")).unwrap_or_else(|| format!("exit code {:?}", s.code())), line)
}

fn fresh(file: &Path, notes: bool, cpu: u64) -> (Verdict, Vec<String>) {
    let mut c = Command::new(me());
    c.arg("run1").arg(file).stdout(Stdio::piped()).stderr(Stdio::piped()).env("SIM_CPU", cpu.to_string());
    if notes { c.env("SIM_NOTES", "1"); } else { c.env_remove("SIM_NOTES"); }
    let Ok(mut ch) = c.spawn() else { return (Verdict::Harness("spawn".into()), vec![]) };
    let (mut o, mut e) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let t = std::thread::spawn(move || { let mut s = vec![]; let _ = o.read_to_end(&mut s); s });
    let t2 = std::thread::spawn(move || { let mut s = vec![]; let _ = e.read_to_end(&mut s); s });
    let start = Instant::now();
    let (mut cpu_seen, mut cpu_at) = (0, Instant::now());
    let mut dead = false;
    let st = loop {
        match ch.try_wait() { Ok(Some(s)) => break s, Ok(None) => {} Err(e) => return (Verdict::Harness(e.to_string()), vec![]) }
        std::thread::sleep(Duration::from_millis(if start.elapsed() < Duration::from_millis(200) { 2 } else { 20 }));
        let n = cpu_of(ch.id());
        if n > cpu_seen { cpu_seen = n; cpu_at = Instant::now(); }
        if cpu_at.elapsed() > Duration::from_secs(45) && !dead { dead = true; let _ = ch.kill(); }
    };
    let (o, e) = (t.join().unwrap_or_default(), t2.join().unwrap_or_default());
    let err = String::from_utf8_lossy(&e).to_string() + if dead { "\nDEADLOCK" } else { "" };
    if st.code() == Some(0) {
        let v: Value = serde_json::from_slice(&o).unwrap_or(Value::Null);
        let notes = v["notes"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
        let h = v["hash"].as_str().unwrap_or("").to_string();
        return (match v["what"].as_str() { Some(w) => Verdict::Bad(w.into(), h), None => Verdict::Clean }, notes);
    }
    if matches!(st.code(), Some(2) | Some(3)) { return (Verdict::Harness(err), vec![]); }
    (Verdict::Died(death(&st, &err)), vec![])
}
/// processor time (ticks) a process of ours has used
fn cpu_of(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
}

// ------------------------------------------------------------------------------------------------ minimisation

pub fn shrink(from: &str, to: &str, class: &str, secs: u64) -> i32 {
    lut::quiet_panics();
    no_core();
    let Ok(c) = load(from) else { return 2 };
    let to = to.to_string();
    let mut eval = |c: &Case| -> Option<String> {
        exec::FIRED.lock().unwrap().clear();
        cpu_limit(5);
        match judge_thread(c) { Ok((Some(v), _)) => Some(shrink::class(&v.what)), _ => None }
    };
    let mut save = |c: &Case| { let t = format!("{to}.tmp"); if std::fs::write(&t, serde_json::to_vec(c).unwrap()).is_ok() { let _ = std::fs::rename(&t, &to); } };
    let s = shrink::Shrinker::new(&c, class.into(), Duration::from_secs(secs), &mut eval, &mut save);
    let (_, n) = s.run(&|| (exec::TAKEN.lock().unwrap().clone(), exec::FIRED.lock().unwrap().clone()));
    println!("{n}");
    0
}
pub fn shrink_crash(from: &str, to: &str, class: &str, secs: u64) -> i32 {
    lut::quiet_panics();
    let Ok(c) = load(from) else { return 2 };
    let cand = PathBuf::from(format!("{to}.cand"));
    let mut eval = |c: &Case| -> Option<String> { std::fs::write(&cand, serde_json::to_vec(c).unwrap()).ok()?; fresh(&cand, false, 3).0.class() };
    let to2 = to.to_string();
    let mut save = |c: &Case| { let _ = std::fs::write(&to2, serde_json::to_vec(c).unwrap()); };
    let s = shrink::Shrinker::new(&c, class.into(), Duration::from_secs(secs), &mut eval, &mut save);
    let (_, n) = s.run(&|| (vec![], vec![]));
    println!("{n}");
    0
}

// ------------------------------------------------------------------------------------------------ coordinator

struct Job { child: Child, r: u64, moved: Instant, last: [u8; 16], cpu: u64 }
struct Found { idx: u64, variant: u64, what: String, case: Case, died: bool }

fn start(id: &str, seed: u64, total: u64, w: u64, from: u64, dir: &Path) -> Result<Job, String> {
    let r = from % w;
    let err = File::create(dir.join(format!("err.{r}"))).map_err(|e| e.to_string())?;
    let child = Command::new(me()).args(["worker", id, &seed.to_string(), &total.to_string(), &w.to_string(), &from.to_string()]).arg(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(err).spawn().map_err(|e| e.to_string())?;
    Ok(Job { child, r, moved: Instant::now(), last: [0; 16], cpu: 0 })
}
fn progress(dir: &Path, r: u64) -> [u8; 16] { let mut b = [0u8; 16]; if let Ok(f) = File::open(dir.join(format!("progress.{r}"))) { let _ = f.read_at(&mut b, 0); } b }

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn check(id: &str, tier: &str) -> i32 {
    if !props::IDS.contains(&id) || !matches!(tier, "quick" | "thorough") { eprintln!("unknown property or tier"); return 2; }
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let total = std::env::var("SIM_TOTAL").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| props::scenarios(id, tier));
    let w = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).clamp(2, 16);
    let guard = Duration::from_secs(std::env::var("SIM_GUARD").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "quick" { 480 } else { 4 * 3600 }));
    let tmp = std::env::temp_dir().join(format!("sim-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&tmp);
    if let Err(e) = std::fs::create_dir_all(&tmp) { eprintln!("no scratch directory: {e}"); return 2; }
    let dir = Dir(tmp);
    let dir = &dir.0;
    std::fs::write(dir.join("stop"), u64::MAX.to_le_bytes()).expect("stop file");
    let mut jobs = vec![];
    for r in 0..w { match start(id, seed, total, w, r, dir) { Ok(j) => jobs.push(j), Err(e) => { eprintln!("worker: {e}"); return 2; } } }

    let mut found: Option<Found> = None;
    let mut others: Vec<Found> = vec![];
    let mut take = |found: &mut Option<Found>, f: Found| -> bool { let first = found.as_ref().map_or(true, |x| f.idx < x.idx); if first { if let Some(o) = found.replace(f) { others.push(o); } } else { others.push(f); } first };
    let mut trouble: Vec<String> = vec![];
    // scenarios the harness itself could not carry out: reported, and no answer if there are more than a few
    let mut skipped: Vec<String> = vec![];
    let (mut restarts, mut early) = (0, false);
    let lower = |dir: &Path, idx: u64| { let _ = std::fs::write(dir.join("stop.tmp"), idx.to_le_bytes()); if let Ok(f) = File::options().write(true).open(dir.join("stop")) { let _ = f.write_at(&idx.to_le_bytes(), 0); } };
    while !jobs.is_empty() {
        std::thread::sleep(Duration::from_millis(30));
        if !early && t0.elapsed() > guard { early = true; lower(dir, 0); }
        let mut keep = vec![];
        for mut j in jobs {
            let (code, hung) = match j.child.try_wait() {
                Ok(Some(s)) => (s, false),
                Ok(None) => {
                    let p = progress(dir, j.r);
                    let cpu = cpu_of(j.child.id());
                    if p != j.last || cpu > j.cpu + 20 { j.last = p; j.cpu = cpu; j.moved = Instant::now(); }
                    if j.moved.elapsed() < Duration::from_secs(60) { keep.push(j); continue; }
                    let _ = j.child.kill();
                    match j.child.wait() { Ok(s) => (s, true), Err(_) => continue }
                }
                Err(_) => continue,
            };
            match code.code() {
                Some(0) => continue,
                Some(10) => {
                    let v: Value = std::fs::read(dir.join(format!("viol.{}", j.r))).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
                    if let (Some(idx), Ok(c)) = (v["idx"].as_u64(), serde_json::from_value::<Case>(v["case"].clone())) {
                        if take(&mut found, Found { idx, variant: v["variant"].as_u64().unwrap_or(0), what: v["what"].as_str().unwrap_or("").into(), case: c, died: false }) { lower(dir, idx); }
                    } else { trouble.push("unreadable report of a worker".into()); }
                    continue;
                }
                Some(12) => { skipped.extend(std::fs::read_to_string(dir.join(format!("err.{}", j.r))).unwrap_or_default().lines().filter(|l| l.starts_with("harness panic")).map(String::from)); continue; }
                _ => {}
            }
            // the process died (or stands still) in the middle of a scenario
            let p = progress(dir, j.r);
            let idx = u64::from_le_bytes(p[..8].try_into().unwrap());
            let (variant, state) = (u32::from_le_bytes(p[8..12].try_into().unwrap()), u32::from_le_bytes(p[12..].try_into().unwrap()));
            let mut err = std::fs::read_to_string(dir.join(format!("err.{}", j.r))).unwrap_or_default();
            if hung { err.push_str("\nDEADLOCK"); }
            let what = death(&code, &err);
            let f = dir.join(format!("dead.{}", j.r));
            let _ = std::fs::remove_file(&f);
            let _ = Command::new(me()).args(["emit", id, &seed.to_string(), &idx.to_string(), &(if state == 1 { 99_999 } else { variant }).to_string()]).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status();
            let verdict = if f.exists() { fresh(&f, false, CPU_PER_CASE).0 } else { Verdict::Clean };
            match (verdict, load(&f.to_string_lossy())) {
                (Verdict::Died(d), Ok(c)) => { if take(&mut found, Found { idx, variant: variant as u64, what: d, case: c, died: true }) { lower(dir, idx); } }
                (Verdict::Bad(d, _), Ok(c)) => { if take(&mut found, Found { idx, variant: variant as u64, what: d, case: c, died: false }) { lower(dir, idx); } }
                (o, _) => {
                    trouble.push(format!("a worker ended in scenario {idx}, variant {variant} ({what}), which a fresh process does not repeat ({o:?})"));
                    restarts += 1;
                    if restarts <= 20 { if let Ok(j) = start(id, seed, total, w, idx + w, dir) { keep.push(j); } }
                }
            }
        }
        jobs = keep;
    }
    let search = t0.elapsed().as_secs_f64();
    if skipped.len() as u64 > 3 + total / 2000 { trouble.push(format!("{} scenarios could not be carried out: {}", skipped.len(), skipped.iter().take(3).cloned().collect::<Vec<_>>().join("; "))); }

    // what was covered
    let mut st = Stats::default();
    let mut recs: BTreeMap<(u64, u32), (u64, bool)> = BTreeMap::new();
    for r in 0..w {
        for l in std::fs::read_to_string(dir.join(format!("stats.{r}"))).unwrap_or_default().lines() { if let Ok(s) = serde_json::from_str::<Stats>(l) { st.merge(&s); } }
        let b = std::fs::read(dir.join(format!("records.{r}"))).unwrap_or_default();
        for c in b.chunks_exact(21) { recs.insert((u64::from_le_bytes(c[..8].try_into().unwrap()), u32::from_le_bytes(c[8..12].try_into().unwrap())), (u64::from_le_bytes(c[12..20].try_into().unwrap()), c[20] != 0)); }
    }
    let mut edges: Vec<u8> = vec![];
    if let Ok(l) = std::fs::read_dir(dir) { for e in l.flatten() { if e.file_name().to_string_lossy().starts_with("edges.") {
        let b = std::fs::read(e.path()).unwrap_or_default();
        if edges.len() < b.len() { edges.resize(b.len(), 0); }
        for (x, y) in edges.iter_mut().zip(&b) { *x |= y; }
    } } }
    let reached: u32 = edges.iter().map(|x| x.count_ones()).sum();
    // the same scenario gives the same execution in another process
    let (mut again, mut same) = (0u64, 0u64);
    if found.is_none() {
        let d2 = Dir(dir.join("again"));
        let _ = std::fs::create_dir_all(&d2.0);
        let _ = std::fs::write(d2.0.join("stop"), u64::MAX.to_le_bytes());
        let stride = (total / 48).max(1);
        if let Ok(mut j) = start(id, seed, total, stride, stride / 2, &d2.0) {
            let t = Instant::now();
            while t.elapsed() < Duration::from_secs(60) { match j.child.try_wait() { Ok(None) => std::thread::sleep(Duration::from_millis(10)), _ => break } }
            let _ = j.child.kill(); let _ = j.child.wait();
            let b = std::fs::read(d2.0.join(format!("records.{}", (stride / 2) % stride))).unwrap_or_default();
            for c in b.chunks_exact(21) {
                let k = (u64::from_le_bytes(c[..8].try_into().unwrap()), u32::from_le_bytes(c[8..12].try_into().unwrap()));
                let h = u64::from_le_bytes(c[12..20].try_into().unwrap());
                if let Some(x) = recs.get(&k) { again += 1; if x.0 == h { same += 1; } }
            }
        }
    }
    let distinct = recs.values().filter(|x| x.1).map(|x| x.0).collect::<BTreeSet<_>>().len();
    let nontrivial = recs.values().filter(|x| x.1).count();
    let scen = recs.keys().map(|k| k.0).collect::<BTreeSet<_>>().len();

    // report
    let mut replay = String::new();
    if let Some(f) = found.take() {
        others.push(f);
        others.sort_by_key(|f| f.idx);
        let mut why = vec![];
        for f in &others {
            match confirm(id, seed, f, dir).or_else(|e| if f.died { Err(e) } else { confirm_with_history(id, seed, w, f, dir).map_err(|x| format!("{e}; {x}")) }) {
                Ok(p) => { replay = p; break; }
                Err(e) => why.push(e),
            }
        }
        if replay.is_empty() { trouble.extend(why); }
    }
    let bad = !replay.is_empty();
    let samples: Vec<Value> = if scen == 0 { vec![] } else { (0..3).filter_map(|k| {
        let f = dir.join("sample");
        let _ = std::fs::remove_file(&f);
        let i = recs.iter().filter(|(_, v)| v.1).map(|(k, _)| *k).nth(nontrivial * (2 * k + 1) / 7)?;
        let ok = Command::new(me()).args(["emit", id, &seed.to_string(), &i.0.to_string(), &i.1.to_string()]).arg(&f).stdout(Stdio::null()).stderr(Stdio::null()).status().ok()?.success();
        if !ok { return None; }
        let c = load(&f.to_string_lossy()).ok()?;
        let (v, notes) = fresh(&f, true, CPU_PER_CASE);
        Some(summary(&c, &v, &notes))
    }).collect() };
    let wall = t0.elapsed().as_secs_f64();
    let ops: u64 = st.by.iter().filter(|(k, _)| k.starts_with("op:")).map(|x| x.1).sum();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": bad as u32,
        "coverage": {
            "evaluations": recs.len(), "distinct_nontrivial": distinct, "rule": rule(id), "samples": samples,
            "scenarios_planned": total, "scenarios_run": scen, "stopped_early_by_time_guard": early,
            "nontrivial_runs": nontrivial,
            "distinct_histories_measure": "64-bit hash over every simulated system call (caller, call, argument, result), every context switch and the outcome class of every run; distinct_nontrivial counts distinct hashes among non-trivial runs",
            "library_control_flow": { "edges_instrumented": sys::EDGES.load(std::sync::atomic::Ordering::Relaxed), "edges_passed": reached, "note": "edges of the control flow graph of little_exif as compiled (after inlining and including the generic code of std instantiated in it); each is also a possible point of preemption in concurrent runs" },
            "worlds_simulated": st.runs, "library_operations": ops, "simulated_system_calls": st.sys_calls, "simulated_clock_ticks": st.ticks,
            "runs_per_hour": (recs.len() as f64 / search.max(0.001) * 3600.0) as u64, "seeds_per_hour": (scen as f64 / search.max(0.001) * 3600.0) as u64,
            "seeds": format!("every scenario is its own seed, derived from (VERIF_SEED={seed}, property, scenario number)"),
            "faults_injected": st.faults, "outcomes_and_formats": st.by,
            "determinism_self_test": { "runs_repeated_in_another_process": again, "identical_histories": same },
            "components": {
                "real": "the whole little_exif crate and its dependencies (brotli, miniz_oxide, crc, paste, log), Rust's std (File, OpenOptions, BufReader, locks, threads)",
                "simulated": "the operating system below libc: file system, file descriptors, permissions, clock, random bytes, blocking of threads and the thread scheduler; the memory allocator's limit",
                "stub": "none of the library" },
            "harness_troubles": trouble, "scenarios_the_harness_could_not_carry_out": skipped,
        },
        "assumptions": assumptions(id),
    });
    let evd = root().join("evidence");
    let _ = std::fs::create_dir_all(&evd);
    if let Err(e) = std::fs::write(evd.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()) { eprintln!("evidence: {e}"); return 2; }
    println!("{id} {tier}: {} runs of {scen} scenarios, {distinct} distinct non-trivial histories, {} simulated calls, {} faults, {:.1} s; {same}/{again} repeated runs identical", recs.len(), st.sys_calls, st.faults.values().sum::<u64>(), wall);
    for t in &trouble { eprintln!("trouble: {t}"); }
    for t in skipped.iter().take(5) { eprintln!("not explored: {t}"); }
    for k in known().iter().filter(|k| k.prop == id) { println!("KNOWN-FINDING: property={id} {}", k.text); }
    if bad { println!("VIOLATION property={id} replay={replay}"); return 1; }
    if !trouble.is_empty() { return 2; }
    0
}

/// Reproduces the violation in a fresh process, minimises it, and writes the replay file.
fn confirm(id: &str, seed: u64, f: &Found, dir: &Path) -> Result<String, String> {
    let orig = dir.join("orig");
    std::fs::write(&orig, serde_json::to_vec(&f.case).unwrap()).map_err(|e| e.to_string())?;
    let (v0, _) = fresh(&orig, false, CPU_PER_CASE);
    let Some(class) = v0.class() else { return Err(format!("scenario {} reported `{}`, which a fresh process does not repeat ({v0:?})", f.idx, f.what)) };
    let small = dir.join("small");
    let died = matches!(v0, Verdict::Died(_));
    let hang = class.contains("does not end") || class.contains("wait for each other");
    let secs = if hang { 40 } else { 45 };
    let o = Command::new(me()).args([if died { "shrinkx" } else { "shrink" }]).arg(&orig).arg(&small).arg(&class).arg(secs.to_string()).stdin(Stdio::null()).stderr(Stdio::null()).output();
    let evals: u64 = o.ok().and_then(|o| String::from_utf8_lossy(&o.stdout).trim().parse().ok()).unwrap_or(0);
    let mut file = orig.clone();
    if small.exists() && fresh(&small, false, CPU_PER_CASE).0.class().as_ref() == Some(&class) { file = small; }
    let (v1, notes) = fresh(&file, true, CPU_PER_CASE);
    let (v1, notes) = if v1.class().as_ref() == Some(&class) { (v1, notes) } else { (v0.clone(), vec![]) };
    let case = load(&file.to_string_lossy())?;
    let (what, hash) = match &v1 { Verdict::Bad(w, h) => (w.clone(), h.clone()), Verdict::Died(d) => (d.clone(), String::new()), _ => (f.what.clone(), String::new()) };
    let j = json!({
        "property": id, "violation": what, "class": class, "history_hash": hash,
        "found": { "seed": seed, "scenario": f.idx, "as": f.case.origin, "violation": f.what }, "minimised_with_evaluations": evals,
        "how_to_replay": "./replay.sh THIS_FILE (exit 1 and a VIOLATION line: reproduced)",
        "trace": notes, "case": serde_json::to_value(&case).unwrap(),
    });
    let d = root().join("replays");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let p = d.join(format!("{id}-seed{seed}-scenario{}.json", f.idx));
    std::fs::write(&p, serde_json::to_vec_pretty(&j).unwrap()).map_err(|e| e.to_string())?;
    println!("violated: {what}");
    for n in notes.iter().take(30) { println!("  {}", n.chars().take(300).collect::<String>()); }
    Ok(p.to_string_lossy().into())
}

/// A violation that its case alone does not show: looks for the earlier runs of the same process it needs, keeps as
/// few of them as possible, and writes the replay file.
fn confirm_with_history(id: &str, seed: u64, w: u64, f: &Found, dir: &Path) -> Result<String, String> {
    let file = dir.join("chain");
    let until = Instant::now() + Duration::from_secs(150);
    let want = shrink::class(&f.what);
    let case = serde_json::to_value(&f.case).unwrap();
    let late = || Instant::now() > until;
    let shows = |b: &Before| -> bool {
        let _ = std::fs::write(&file, serde_json::to_vec(&json!({ "before": serde_json::to_value(b).unwrap(), "case": case })).unwrap());
        fresh(&file, false, CPU_PER_CASE).0.class().as_ref() == Some(&want)
    };
    let mut best: Option<Before> = None;
    let mut n = 0u64;
    loop {
        let from = f.idx.saturating_sub(n.saturating_mul(w)).max(f.idx % w);
        let b = Before { seed, scenarios: (0..).map(|k| from + k * w).take_while(|i| *i < f.idx).collect(), own: Some((f.idx, f.variant)), cases: vec![] };
        let all = from == f.idx % w;
        if shows(&b) { best = Some(b); break; }
        if all || late() { break; }
        n = if n == 0 { 2 } else { n * 6 };
    }
    let Some(mut b) = best else { return Err("nor does a fresh process with the runs before it".into()) };
    fn fewer<T: Clone>(mut l: Vec<T>, ok: &dyn Fn(&[T]) -> bool, late: &dyn Fn() -> bool) -> Vec<T> {
        let mut n = l.len();
        while n >= 1 && !late() {
            let mut i = 0;
            while i < l.len() && !late() {
                let mut x = l[..i].to_vec(); x.extend_from_slice(&l[(i + n).min(l.len())..]);
                if ok(&x) { l = x; } else { i += n; }
            }
            n /= 2;
        }
        l
    }
    b.scenarios = fewer(b.scenarios.clone(), &|x| shows(&Before { scenarios: x.to_vec(), ..b.clone() }), &late);
    // the runs themselves instead of the numbers of their scenarios
    let mut cases = vec![];
    for (i, k) in b.scenarios.iter().map(|i| (*i, u64::MAX)).chain(b.own) {
        let p = id.to_string();
        if let Ok(cs) = on_thread(move || props::cases(&p, seed, i)) { cases.extend(cs.into_iter().take(k as usize)); }
    }
    if cases.len() <= 4000 && shows(&Before { cases: cases.clone(), ..Before::default() }) {
        b = Before { cases: fewer(cases, &|x| shows(&Before { cases: x.to_vec(), ..Before::default() }), &late), ..Before::default() };
    }
    let x = json!({ "before": serde_json::to_value(&b).unwrap(), "case": case });
    std::fs::write(&file, serde_json::to_vec(&x).unwrap()).map_err(|e| e.to_string())?;
    let (v, notes) = fresh(&file, true, CPU_PER_CASE);
    let Verdict::Bad(what, hash) = v else { return Err("the runs before it do not show it again".into()) };
    let j = json!({
        "property": id, "violation": what, "class": want, "history_hash": hash,
        "found": { "seed": seed, "scenario": f.idx, "as": f.case.origin, "violation": f.what },
        "note": "the violation needs what earlier calls left behind in the process: `before` lists the runs the same process executes first",
        "how_to_replay": "./replay.sh THIS_FILE (exit 1 and a VIOLATION line: reproduced)",
        "trace": notes, "before": x["before"], "case": x["case"],
    });
    let d = root().join("replays");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let p = d.join(format!("{id}-seed{seed}-scenario{}.json", f.idx));
    std::fs::write(&p, serde_json::to_vec(&j).unwrap()).map_err(|e| e.to_string())?;
    println!("violated (after {} earlier runs of the same process): {what}", if b.cases.is_empty() { format!("{} scenarios'", b.scenarios.len()) } else { b.cases.len().to_string() });
    for n in notes.iter().take(30) { println!("  {}", n.chars().take(300).collect::<String>()); }
    Ok(p.to_string_lossy().into())
}

pub fn replay(file: &str) -> i32 {
    let Ok(v) = std::fs::read(file).map_err(|_| ()).and_then(|b| serde_json::from_slice::<Value>(&b).map_err(|_| ())) else { eprintln!("unreadable replay file"); return 2 };
    let (verdict, notes) = fresh(Path::new(file), true, CPU_PER_CASE);
    for n in &notes { println!("  {}", n.chars().take(400).collect::<String>()); }
    let id = v["case"]["prop"].as_str().unwrap_or("?").to_string();
    match &verdict {
        Verdict::Bad(w, h) => { println!("violated: {w}"); println!("history {} the recorded one", if v["history_hash"].as_str() == Some(h) { "is identical to" } else { "differs from" }); }
        Verdict::Died(d) => println!("violated: {d}"),
        Verdict::Clean => { println!("no violation"); return 0; }
        Verdict::Harness(e) => { eprintln!("harness: {e}"); return 2; }
    }
    println!("VIOLATION property={id} replay={file}");
    1
}

// ------------------------------------------------------------------------------------------------ evidence texts

fn short(v: &Value) -> Value {
    match v {
        Value::String(s) if s.len() > 96 => Value::String(format!("{}… ({} characters)", &s.chars().take(64).collect::<String>(), s.len())),
        Value::Array(a) => { let mut o: Vec<Value> = a.iter().take(12).map(short).collect(); if a.len() > 12 { o.push(Value::String(format!("… {} more", a.len() - 12))); } Value::Array(o) }
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), short(v))).collect()),
        v => v.clone(),
    }
}
fn summary(c: &Case, v: &Verdict, notes: &[String]) -> Value {
    let files: Vec<Value> = c.files.iter().map(|f| json!({ "path": f.path(), "format": f.img.fmt().name(), "bytes": f.bytes().len(), "read_only": f.ro, "damage": f.damage.iter().map(|d| format!("{:?}", d).chars().take(80).collect::<String>()).collect::<Vec<_>>() })).collect();
    let step = |s: &crate::case::Step| { let t = match s.op.target() { Some((f, v)) => format!(" file {f} ({})", if v == Via::File { "file interface" } else { "memory interface" }), None => String::new() }; let m = match &s.op { Op::New { meta, .. } => format!(" ({} tags)", meta.tags.len()), _ => String::new() }; json!({ "op": format!("{}{t}{m}", s.op.name()), "faults": short(&serde_json::to_value(&s.faults).unwrap()), "seeded_disturbance": serde_json::to_value(&s.benign).unwrap() }) };
    json!({ "origin": c.origin, "files": files, "read_only_file_system": c.rofs, "steps": c.steps.iter().map(step).collect::<Vec<_>>(),
        "callers": c.threads.iter().map(|t| t.iter().map(step).collect::<Vec<_>>()).collect::<Vec<_>>(), "schedules": c.rounds,
        "verdict": match v { Verdict::Clean => "held".into(), v => format!("{v:?}") }, "trace": notes.iter().take(14).map(|n| n.chars().take(260).collect::<String>()).collect::<Vec<_>>() })
}

fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "A scenario is a generated image (JPEG, PNG, WebP, JPEG XL, TIFF or HEIF), metadata and one read/write/clear through the file interface; its undisturbed run is traced and faults (failing open/read/write/seek/truncate/stat, sticky errors, full disk after n bytes, zero-length writes, read-only file or file system) are aimed at its system calls. Non-trivial: a fault other than a short transfer or interruption fired and the undisturbed operation succeeds.",
        "C02" => "As C01, but with short reads, short writes and interruptions only. Non-trivial: at least one of them fired.",
        "C03" => "As C01 for operations that change the image, with crashes before or in the middle of every kind of call that changes the file, full disks, failing calls, damaged images and metadata that does not fit. Non-trivial: a fault fired or the operation fails by itself.",
        "C04" => "A generated (one in three: damaged) image on a writable or read-only medium and one to four operations, mostly reads, with failing calls and disturbances. Non-trivial: a read took place or a write to a read-only medium was refused.",
        "C09" => "A history of operations on generated (some damaged) images is executed once through the file interface and once through the memory interface. Non-trivial: an operation on an image succeeded.",
        "C10" => "Images damaged by bit flips, lost, zeroed, duplicated, inserted or overwritten ranges and truncation, images whose structure was altered before laying them out (field values, names, tag types, missing, repeated or swapped parts, with lengths and checksums correct), compressed data that expands enormously, files of another format, self-referential directories, directories, values, strips and item extents that share the same bytes thousands of times over, and files that another process changes between two system calls of an operation. Non-trivial: the image is damaged or changes while it is worked on.",
        "C11" => "Two to four callers with operation histories on files of their own, or several readers of one file, run as real threads under a seeded scheduler, each scenario under eight schedules: switches at simulated system calls with a random probability, and within pure computation either every so many edges of the library's control flow graph (and memory allocations and releases), at random distances of a random mean, or whenever a caller passes one of a few edges chosen at random among those the callers pass; an unrelated history, on the same files or on namesakes with other metadata, comes first; the same operations alone are the reference. Non-trivial: at least one context switch took place.",
        "C15" => "Images of every container under freely chosen names (right, wrong, missing, hidden, unsupported and near-miss extensions in any letter case, dots in directories) with contents of another type, damaged, empty or unrecognisable, worked on through both interfaces, with disturbances and failing calls. Non-trivial: the extension does not name the type of the content, or the library refused or accepted such a case.",
        "C16" => "A history of new, set, replace, remove, create-directory, copy, reduce, read, write and clear on several metadata objects, with file operations on other objects failing or disturbed in between; after each step every object is asked for everything in every way and compared with a model (a map of directories to maps of tags). Non-trivial: an object was changed or read.",
        "C17" => "Metadata made by a history is encoded for every container in turn, twice, and the bytes are parsed by the independent parser; an image assembled by hand around them is read by the library. Non-trivial: metadata was encoded.",
        _ => "A history of operations (new, set, remove, query, copy, read, write, clear, clear segment, process restart) through both interfaces on generated images with generated metadata, with short transfers and interruptions; after each step the image is parsed by an independent parser and compared with a reference model. Non-trivial: metadata was written, cleared or read back.",
    }
}
fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec!["The images, metadata, faults and schedules are sampled by a seeded generator, not enumerated.",
        "The independent parsers and the reference model in /verif/sim follow the container and Exif standards; they share no code with little_exif."];
    match id {
        "C03" => v.push("What a completed write or truncate call changed survives a crash of the process; the loss of completed calls by a power failure is outside what the library can see (it never calls fsync)."),
        "C10" => v.push("An operation that uses more than 30 s of processor time or six million system calls is taken not to end; memory is bounded by 160 MiB + 64 times the bytes involved; callers run on 2 MiB stacks."),
        "C11" => v.push("Threads switch only at simulated system calls, blocking waits, edges of the library's control flow graph, and memory allocations and releases (also those within the dependencies): interleavings between two such points are outside, and so are data races in the sense of the memory model (the library is free of unsafe code, so safe Rust rules those out)."),
        _ => {}
    }
    v
}
