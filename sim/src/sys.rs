//! The simulated operating system.
//!
//! This module defines the libc entry points through which Rust's std (and any other code in the process) performs
//! file I/O, waits and reads clocks. While a thread runs code under test (MODE == SIM) all of them are served by the
//! in-memory file system and the scheduler below; otherwise they are passed to the kernel by raw system calls.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::{Condvar, Mutex, MutexGuard};

use serde::{Deserialize, Serialize};

use crate::rng::{fnv, Rng, FNV0};

pub const PASS: u8 = 0;
pub const SIM: u8 = 1;
pub const INTERNAL: u8 = 2;

thread_local! {
    pub static MODE: Cell<u8> = const { Cell::new(PASS) };
    pub static TID: Cell<usize> = const { Cell::new(0) };
}

fn mode() -> u8 { MODE.try_with(|m| m.get()).unwrap_or(PASS) }
pub fn set_mode(v: u8) -> u8 { MODE.try_with(|m| m.replace(v)).unwrap_or(PASS) }

// ---------------------------------------------------------------------------------------------- raw system calls

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    std::arch::asm!("syscall",
        inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
extern "C" { fn __errno_location() -> *mut c_int; }
unsafe fn fin(r: isize) -> isize {
    if r < 0 && r >= -4095 { *__errno_location() = -r as c_int; -1 } else { r }
}
unsafe fn pass(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize { fin(raw(n, a, b, c, d, e, f)) }

// ---------------------------------------------------------------------------------------------- constants

pub const EPERM: i32 = 1; pub const ENOENT: i32 = 2; pub const EINTR: i32 = 4; pub const EIO: i32 = 5; pub const EBADF: i32 = 9;
pub const EACCES: i32 = 13; pub const EEXIST: i32 = 17; pub const EXDEV: i32 = 18; pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21; pub const EINVAL: i32 = 22; pub const EMFILE: i32 = 24; pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28; pub const EROFS: i32 = 30; pub const ENOSYS: i32 = 38; pub const EDQUOT: i32 = 122; pub const ENOTEMPTY: i32 = 39;

const O_ACCMODE: i32 = 3; const O_WRONLY: i32 = 1; const O_RDWR: i32 = 2;
const O_CREAT: i32 = 0o100; const O_EXCL: i32 = 0o200; const O_TRUNC: i32 = 0o1000; const O_APPEND: i32 = 0o2000;

const FD_BASE: i32 = 1 << 20;

// ---------------------------------------------------------------------------------------------- faults

/// What happens to one simulated system call. A fault is aimed at the `at`-th call of an operation.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum FaultKind {
    /// transfer at most n bytes (read / write)
    Short(u32),
    /// interrupted before anything was transferred (read / write)
    Eintr,
    /// this call fails; nothing happened
    Err(i32),
    /// this and every later data call fails
    ErrSticky(i32),
    /// the medium accepts n more bytes, then fails with the given error
    Space(u32, i32),
    /// write accepts nothing and reports 0
    Zero,
    /// the process dies right before this call takes effect
    Crash,
    /// the process dies in the middle of this write, n bytes got through
    CrashTorn(u32),
    /// somebody else overwrites one byte of the file right before this call
    Poke(u32, u8),
    /// somebody else truncates the file right before this call
    Cut(u32),
    /// somebody else replaces the file's content right before this call
    Swap(Vec<u8>),
}

impl FaultKind {
    pub fn name(&self) -> &'static str {
        match self {
            FaultKind::Short(_) => "short_transfer", FaultKind::Eintr => "eintr",
            FaultKind::Err(e) => match *e {
                EIO => "EIO", ENOSPC => "ENOSPC", EDQUOT => "EDQUOT", EACCES => "EACCES", EROFS => "EROFS", EPERM => "EPERM",
                EMFILE => "EMFILE", EISDIR => "EISDIR", EFBIG => "EFBIG", ENOENT => "ENOENT", _ => "errno_other" },
            FaultKind::ErrSticky(_) => "sticky_error", FaultKind::Space(_, _) => "disk_full_after_n",
            FaultKind::Zero => "zero_write", FaultKind::Crash => "crash", FaultKind::CrashTorn(_) => "crash_torn_write",
            FaultKind::Poke(_, _) => "concurrent_poke", FaultKind::Cut(_) => "concurrent_truncate", FaultKind::Swap(_) => "concurrent_replace",
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Fault { pub at: u32, pub kind: FaultKind }

/// Random short transfers and interruptions.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Benign { pub seed: u64, pub short_pct: u8, pub eintr_pct: u8, pub tiny: bool }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call { Open, Read, Write, Seek, Trunc, Stat, Sync, Close, Other }

#[derive(Clone, Debug)]
pub struct Ev { pub tid: usize, pub call: Call, pub name: &'static str, pub arg: u64, pub ret: i64, pub mutating: bool }

#[derive(Clone, Default, Debug, PartialEq)]
pub struct Touch { pub stat: bool, pub open_r: bool, pub open_w: bool, pub created: bool, pub truncated: bool, pub written: bool, pub removed: bool, pub renamed: bool, pub changed_meta: bool, pub locked: bool }

#[derive(Clone, Debug)]
pub struct Node { pub data: Vec<u8>, pub dir: bool, pub ro: bool }

struct OpenFile { node: usize, pos: u64, flags: i32, path: String }

/// One thread's per-operation state.
#[derive(Clone, Default)]
pub struct OpState {
    pub calls: u32,
    pub faults: Vec<Fault>,
    pub fired: Vec<Fault>,
    pub benign: Option<Benign>,
    pub benign_rng: Option<Rng>,
    pub sticky: Option<i32>,
    pub space: Option<(u32, i32)>,
    pub data_calls: u32,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Switch { pub step: u64, pub to: u8 }

#[derive(Default)]
pub struct Sched {
    pub active: bool,
    pub alive: Vec<bool>,
    pub cur: usize,
    pub rng: Option<Rng>,
    pub switch_pct: u64,
    /// mean number of points within computation after which another caller goes on (0: never)
    pub every: u64,
    pub explicit: Option<Vec<Switch>>,
    pub taken: Vec<Switch>,
    pub order_hash: u64,
}

pub struct World {
    pub names: BTreeMap<String, usize>,
    pub nodes: Vec<Node>,
    fds: BTreeMap<i32, OpenFile>,
    pub rofs: bool,
    pub crashed: bool,
    pub log: Vec<Ev>,
    pub keep_log: bool,
    pub hash: u64,
    pub ticks: u64,
    pub op_ticks: u64,
    pub touched: BTreeMap<String, Touch>,
    pub ops: Vec<OpState>,
    pub sched: Sched,
    pub leaked_passthrough: u32,
    pub stdout_bytes: u64,
    pub call_cap: u64,
    pub main_path: Option<String>,
}

impl World {
    pub fn new() -> World {
        let mut w = World { names: BTreeMap::new(), nodes: vec![], fds: BTreeMap::new(), rofs: false, crashed: false, log: vec![], keep_log: true,
            hash: FNV0, ticks: 0, op_ticks: 0, touched: BTreeMap::new(), ops: vec![OpState::default()], sched: Sched::default(), leaked_passthrough: 0,
            stdout_bytes: 0, call_cap: 6_000_000, main_path: None };
        for d in ["/", "/simfs", "/tmp", "/var", "/var/tmp", "/dev", "/dev/shm", "/root", "/home"] { w.mkdir(d); }
        w
    }
    fn mkdir(&mut self, p: &str) { self.nodes.push(Node { data: vec![], dir: true, ro: false }); self.names.insert(p.into(), self.nodes.len() - 1); }
    pub fn put(&mut self, path: &str, data: Vec<u8>) {
        self.nodes.push(Node { data, dir: false, ro: false });
        self.names.insert(path.into(), self.nodes.len() - 1);
    }
    pub fn get(&self, path: &str) -> Option<&Node> { self.names.get(path).map(|i| &self.nodes[*i]) }
    pub fn get_mut(&mut self, path: &str) -> Option<&mut Node> { let i = *self.names.get(path)?; Some(&mut self.nodes[i]) }
    pub fn open_fds(&self) -> Vec<String> { self.fds.values().map(|f| f.path.clone()).collect() }
    pub fn close_all(&mut self) { self.fds.clear(); }
    /// All regular files, for before/after comparisons.
    pub fn listing(&self) -> BTreeMap<String, Vec<u8>> {
        self.names.iter().filter(|(_, i)| !self.nodes[**i].dir).map(|(n, i)| (n.clone(), self.nodes[*i].data.clone())).collect()
    }
    fn touch(&mut self, p: &str) -> &mut Touch { self.touched.entry(p.to_string()).or_default() }
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);

fn lock() -> MutexGuard<'static, Option<World>> { WORLD.lock().unwrap_or_else(|e| e.into_inner()) }

/// Runs f on the world with interposition off.
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let old = set_mode(INTERNAL);
    let r = { let mut g = lock(); f(g.as_mut().expect("no world")) };
    set_mode(old);
    r
}
pub fn install(w: World) { let old = set_mode(INTERNAL); *lock() = Some(w); set_mode(old); }

// ---------------------------------------------------------------------------------------------- scheduler

use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};

/// Set while callers run concurrently.
static POINTS: AtomicBool = AtomicBool::new(false);
/// Number of the next point of preemption, and the number of the next one within computation at which something happens.
static STEP: AtomicU64 = AtomicU64::new(0);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
static TURN: [Condvar; 16] = [const { Condvar::new() }; 16];

/// The callers of `w` start running; `n` of them.
pub fn sched_start(mut s: Sched, breaks: usize) {
    if s.explicit.is_none() && breaks > 0 { set_breaks(s.rng.as_mut().unwrap(), breaks); }
    with(|w| {
        STEP.store(0, Relaxed);
        s.active = true;
        w.sched = s;
        redraw(w, 0);
    });
    POINTS.store(true, Relaxed);
}
pub fn sched_end() { for b in &BREAK { if b.load(Relaxed) != 0 { b.store(0, Relaxed); } } POINTS.store(false, Relaxed); NEXT.store(u64::MAX, Relaxed); }

/// Beyond this many switches of one run, callers are no longer preempted within computation.
const SWITCH_CAP: usize = 2000;

/// Draws the next point within computation at which another caller goes on.
fn redraw(w: &mut World, from: u64) {
    let s = &mut w.sched;
    let n = if let Some(x) = &s.explicit { x.iter().map(|y| y.step).filter(|y| *y >= from).min().unwrap_or(u64::MAX) }
        else if s.every == 0 || s.taken.len() >= SWITCH_CAP { u64::MAX }
        else { from + 1 + s.rng.as_mut().unwrap().below(2 * s.every) };
    NEXT.store(n, Relaxed);
}

/// Who goes on after this point. `pm`: chance of a switch, in thousandths; above 1000: the caller cannot go on itself.
fn choose(w: &mut World, me: usize, step: u64, pm: u64) -> usize {
    let due = step >= NEXT.load(Relaxed);
    let s = &mut w.sched;
    let others: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && *i != me).collect();
    if others.is_empty() { return me; }
    let stay = s.alive[me] && pm <= 1000;
    let next = if let Some(x) = &s.explicit {
        match x.iter().find(|y| y.step == step) { Some(y) if s.alive.get(y.to as usize) == Some(&true) => y.to as usize, _ => if stay { me } else { others[step as usize % others.len()] } }
    } else {
        let r = s.rng.as_mut().unwrap();
        if !stay || due && s.taken.len() < SWITCH_CAP || r.below(1000) < pm { others[r.idx(others.len())] } else { me }
    };
    if next != me { s.taken.push(Switch { step, to: next as u8 }); s.order_hash = fnv(s.order_hash, &step.to_le_bytes()); s.order_hash = fnv(s.order_hash, &[next as u8]); }
    if due { redraw(w, step + 1); }
    next
}

fn wait_turn<'a>(mut g: MutexGuard<'a, Option<World>>, me: usize) -> MutexGuard<'a, Option<World>> {
    loop {
        { let w = g.as_ref().unwrap(); if !w.sched.active || w.sched.cur == me { return g; } }
        g = TURN[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn yield_point<'a>(mut g: MutexGuard<'a, Option<World>>, pm: Option<u64>) -> MutexGuard<'a, Option<World>> {
    let me = TID.with(|t| t.get());
    let n = {
        let w = g.as_mut().unwrap();
        if !w.sched.active { return g; }
        let step = STEP.load(Relaxed);
        STEP.store(step + 1, Relaxed);
        let pm = pm.unwrap_or(w.sched.switch_pct * 10);
        let n = choose(w, me, step, pm);
        if n == me { return g; }
        w.sched.cur = n;
        n
    };
    TURN[n].notify_all();
    wait_turn(g, me)
}

pub fn sched_enter(me: usize) { let old = set_mode(INTERNAL); TID.with(|t| t.set(me)); drop(wait_turn(lock(), me)); set_mode(old); }
pub fn sched_leave(me: usize) {
    let old = set_mode(INTERNAL);
    let mut g = lock();
    {
        let w = g.as_mut().unwrap();
        w.sched.alive[me] = false;
        if w.sched.alive.iter().any(|a| *a) { let step = STEP.load(Relaxed); STEP.store(step + 1, Relaxed); let n = choose(w, me, step, 0); w.sched.cur = n; } else { w.sched.active = false; }
    }
    for c in &TURN { c.notify_all(); }
    drop(g);
    set_mode(old);
}

/// A point of preemption in the middle of pure computation: an edge of the library's control flow, an allocation.
#[inline]
pub fn compute_point() {
    if !POINTS.load(Relaxed) { return; }
    if MODE.try_with(|m| m.get() != SIM).unwrap_or(true) { return; }
    let step = STEP.load(Relaxed);
    if step < NEXT.load(Relaxed) { STEP.store(step + 1, Relaxed); return; }
    let old = set_mode(INTERNAL);
    drop(yield_point(lock(), Some(0)));
    set_mode(old);
}

// ---------------------------------------------------------------------------------------------- control flow edges

/// The library is compiled with a call at every edge of its control flow graph (tools/rustc_wrap.sh).
pub static EDGES: AtomicUsize = AtomicUsize::new(0);
const GUARDS: usize = 1 << 16;
/// when (in which epoch) each edge was last passed; 0: never
pub static HIT: [AtomicU32; GUARDS] = [const { AtomicU32::new(0) }; GUARDS];
static EPOCH: AtomicU32 = AtomicU32::new(1);
/// edges at which the running caller is preempted
static BREAK: [AtomicU8; GUARDS] = [const { AtomicU8::new(0) }; GUARDS];
pub fn new_epoch() { EPOCH.store(EPOCH.load(Relaxed) + 1, Relaxed); }
/// Of the edges passed in this epoch, `n` are chosen as points of preemption.
fn set_breaks(r: &mut Rng, n: usize) {
    let e = EPOCH.load(Relaxed);
    let mut c: Vec<usize> = (1..GUARDS.min(EDGES.load(Relaxed) + 1)).filter(|i| HIT[*i].load(Relaxed) == e).collect();
    for _ in 0..n.min(c.len()) { let k = r.idx(c.len()); BREAK[c.swap_remove(k)].store(1, Relaxed); }
}
/// addresses of the edges, for reports
pub static PCS: AtomicUsize = AtomicUsize::new(0);
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_pcs_init(start: *const usize, _stop: *const usize) { if PCS.load(Relaxed) == 0 { PCS.store(start as usize, Relaxed); } }
/// One bit per edge: passed or not
pub fn hit_bits() -> Vec<u8> {
    let n = EDGES.load(Relaxed).min(GUARDS - 1);
    let mut o = vec![0u8; n / 8 + 1];
    for i in 1..=n { if HIT[i].load(Relaxed) != 0 { o[i / 8] |= 1 << (i % 8); } }
    o
}
pub fn edges_hit() -> usize { HIT.iter().filter(|h| h.load(Relaxed) != 0).count() }
/// edges passed by the current operation
pub static WORK: AtomicU64 = AtomicU64::new(0);
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop { if *p == 0 { *p = 1 + EDGES.fetch_add(1, Relaxed) as u32; } p = p.add(1); }
}
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < GUARDS { HIT[i].store(EPOCH.load(Relaxed), Relaxed); }
    let n = WORK.load(Relaxed) + 1;
    WORK.store(n, Relaxed);
    if n > WORK_CAP {
        let m = b"SIM-HANG: computation budget exhausted\n";
        raw(1, 2, m.as_ptr() as usize, m.len(), 0, 0, 0);
        raw(231, 97, 0, 0, 0, 0, 0);
    }
    if POINTS.load(Relaxed) {
        if i < GUARDS && BREAK[i].load(Relaxed) != 0 && MODE.try_with(|m| m.get() == SIM).unwrap_or(false) { NEXT.fetch_min(STEP.load(Relaxed), Relaxed); }
        compute_point();
    }
}
/// A bounded amount of computation is part of termination.
const WORK_CAP: u64 = 3_000_000_000;

// ---------------------------------------------------------------------------------------------- call engine

enum Todo { Go, Short(usize), Fail(i32), Zero, Torn(usize) }

/// Accounts one simulated call and decides its fate.
fn begin(w: &mut World, call: Call, want: usize) -> Todo {
    w.ticks += 1; w.op_ticks += 1;
    if w.op_ticks > w.call_cap {
        // A bounded number of system calls is part of termination: give up on this process, the coordinator attributes it.
        unsafe {
            let m = b"SIM-HANG: system call budget exhausted\n";
            raw(1, 2, m.as_ptr() as usize, m.len(), 0, 0, 0);
            raw(231, 97, 0, 0, 0, 0, 0);
        }
    }
    if w.crashed { return Todo::Fail(EIO); }
    let tid = TID.with(|t| t.get()).min(w.ops.len() - 1);
    let data_call = matches!(call, Call::Read | Call::Write);
    let o = &mut w.ops[tid];
    let at = o.calls; o.calls += 1;
    if data_call { o.data_calls += 1; }
    if let Some(e) = o.sticky { if !matches!(call, Call::Close | Call::Stat) { return Todo::Fail(e); } }
    let mut res = Todo::Go;
    let mut outside: Option<FaultKind> = None;
    if let Some(i) = o.faults.iter().position(|f| f.at == at) {
        let k = o.faults[i].kind.clone();
        let fires = match &k {
            FaultKind::Short(n) => { if data_call && want > *n as usize && *n > 0 { res = Todo::Short(*n as usize); true } else { false } }
            FaultKind::Eintr => { if data_call { res = Todo::Fail(EINTR); true } else { false } }
            FaultKind::Err(e) => { if call != Call::Close { res = Todo::Fail(*e); true } else { false } }
            FaultKind::ErrSticky(e) => { if call != Call::Close { o.sticky = Some(*e); res = Todo::Fail(*e); true } else { false } }
            FaultKind::Space(n, e) => { o.space = Some((*n, *e)); true }
            FaultKind::Zero => { if call == Call::Write && want > 0 { res = Todo::Zero; true } else { false } }
            FaultKind::Crash => { w.crashed = true; res = Todo::Fail(EIO); true }
            FaultKind::CrashTorn(n) => { if call == Call::Write { res = Todo::Torn(*n as usize); } else { w.crashed = true; res = Todo::Fail(EIO); } true }
            FaultKind::Poke(..) | FaultKind::Cut(..) | FaultKind::Swap(..) => { outside = Some(k.clone()); true }
        };
        if fires { let f = Fault { at, kind: k }; w.ops[tid].fired.push(f); }
    } else if data_call && want > 0 {
        if let Some(b) = o.benign.clone() {
            let r = o.benign_rng.get_or_insert_with(|| Rng::new(b.seed));
            let x = r.below(100) as u8;
            if x < b.eintr_pct { res = Todo::Fail(EINTR); o.fired.push(Fault { at, kind: FaultKind::Eintr }); }
            else if x < b.eintr_pct.saturating_add(b.short_pct) && want > 1 {
                let n = if b.tiny { 1 + r.below((want as u64 - 1).min(3)) } else { 1 + r.below(want as u64 - 1) };
                let n = n.min(want as u64 - 1).max(1);
                res = Todo::Short(n as usize);
                o.fired.push(Fault { at, kind: FaultKind::Short(n as u32) });
            }
        }
    }
    if let Some(k) = outside {
        if let Some(p) = w.main_path.clone() {
            if let Some(n) = w.get_mut(&p) {
                match k {
                    FaultKind::Poke(off, v) => { if !n.data.is_empty() { let l = n.data.len(); n.data[off as usize % l] = v; } }
                    FaultKind::Cut(len) => { let l = n.data.len(); n.data.truncate((len as usize).min(l)); }
                    FaultKind::Swap(d) => { n.data = d; }
                    _ => {}
                }
            }
        }
    }
    res
}

fn record(w: &mut World, call: Call, name: &'static str, arg: u64, ret: i64, mutating: bool) {
    let tid = TID.with(|t| t.get());
    let mut b = [0u8; 20];
    b[0] = tid as u8; b[1] = call as u8; b[2..10].copy_from_slice(&arg.to_le_bytes()); b[10..18].copy_from_slice(&ret.to_le_bytes());
    b[18] = mutating as u8; b[19] = name.len() as u8;
    w.hash = fnv(w.hash, &b);
    if w.keep_log && w.log.len() < 100_000 { w.log.push(Ev { tid, call, name, arg, ret, mutating }); }
}

fn sim_call(f: impl FnOnce(&mut World) -> isize) -> isize {
    set_mode(INTERNAL);
    let r = { let mut g = yield_point(lock(), None); f(g.as_mut().expect("no world")) };
    set_mode(SIM);
    unsafe { fin(r) }
}

fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/simfs/{p}") };
    let mut parts: Vec<&str> = vec![];
    for c in full.split('/') { match c { "" | "." => {}, ".." => { parts.pop(); }, x => parts.push(x) } }
    format!("/{}", parts.join("/"))
}
unsafe fn cpath(p: *const c_char) -> String { norm(&CStr::from_ptr(p).to_string_lossy()) }
fn parent(p: &str) -> String { match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].into() } }

fn do_open(w: &mut World, path: String, flags: i32) -> isize {
    let acc = flags & O_ACCMODE;
    let wants_write = acc == O_WRONLY || acc == O_RDWR;
    match begin(w, Call::Open, 0) { Todo::Fail(e) => { record(w, Call::Open, "open", flags as u64, -(e as i64), false); return -(e as isize); } _ => {} }
    let t = w.touch(&path);
    if wants_write { t.open_w = true } else { t.open_r = true }
    let mut mutating = false;
    let res: isize = (|| {
        let node = match w.names.get(&path).copied() {
            Some(n) => {
                if flags & O_CREAT != 0 && flags & O_EXCL != 0 { return -(EEXIST as isize); }
                n
            }
            None => {
                if flags & O_CREAT == 0 { return -(ENOENT as isize); }
                match w.get(&parent(&path)) { Some(d) if d.dir => {}, _ => return -(ENOENT as isize) }
                if w.rofs { return -(EROFS as isize); }
                w.put(&path, vec![]);
                mutating = true;
                w.touch(&path).created = true;
                w.names[&path]
            }
        };
        if w.nodes[node].dir && wants_write { return -(EISDIR as isize); }
        if wants_write && w.rofs { return -(EROFS as isize); }
        if wants_write && w.nodes[node].ro { return -(EACCES as isize); }
        if flags & O_TRUNC != 0 {
            if w.rofs { return -(EROFS as isize); }
            if w.nodes[node].ro { return -(EACCES as isize); }
            w.nodes[node].data.clear(); mutating = true; w.touch(&path).truncated = true;
        }
        let fd = (FD_BASE..).find(|f| !w.fds.contains_key(f)).unwrap();
        w.fds.insert(fd, OpenFile { node, pos: 0, flags, path: path.clone() });
        fd as isize
    })();
    record(w, Call::Open, "open", flags as u64, res as i64, mutating);
    res
}

fn do_read(w: &mut World, fd: i32, buf: &mut [u8], at: Option<u64>) -> isize {
    let mut n = buf.len();
    match begin(w, Call::Read, n) {
        Todo::Fail(e) => { record(w, Call::Read, "read", n as u64, -(e as i64), false); return -(e as isize); }
        Todo::Short(k) => n = n.min(k),
        _ => {}
    }
    let res: isize = (|| {
        let Some(f) = w.fds.get_mut(&fd) else { return -(EBADF as isize); };
        if f.flags & O_ACCMODE == O_WRONLY { return -(EBADF as isize); }
        let node = &w.nodes[f.node];
        if node.dir { return -(EISDIR as isize); }
        let pos = at.unwrap_or(f.pos) as usize;
        let avail = node.data.len().saturating_sub(pos);
        let k = n.min(avail);
        buf[..k].copy_from_slice(&node.data[pos.min(node.data.len())..pos.min(node.data.len()) + k]);
        if at.is_none() { f.pos += k as u64; }
        k as isize
    })();
    record(w, Call::Read, "read", n as u64, res as i64, false);
    res
}

fn do_write(w: &mut World, fd: i32, buf: &[u8], at: Option<u64>) -> isize {
    let tid = TID.with(|t| t.get()).min(w.ops.len() - 1);
    let mut n = buf.len();
    let mut crash_after = false;
    match begin(w, Call::Write, n) {
        Todo::Fail(e) => { record(w, Call::Write, "write", n as u64, -(e as i64), false); return -(e as isize); }
        Todo::Short(k) => n = n.min(k),
        Todo::Zero => { record(w, Call::Write, "write", n as u64, 0, false); return 0; }
        Todo::Torn(k) => { n = n.min(k); crash_after = true; }
        Todo::Go => {}
    }
    let mut full: Option<i32> = None;
    if let Some((left, e)) = w.ops[tid].space {
        if left == 0 && n > 0 { full = Some(e); } else { let k = n.min(left as usize); n = k; w.ops[tid].space = Some((left - k as u32, e)); }
    }
    let res: isize = (|| {
        let Some(f) = w.fds.get_mut(&fd) else { return -(EBADF as isize); };
        if f.flags & O_ACCMODE == 0 { return -(EBADF as isize); }
        if let Some(e) = full { return -(e as isize); }
        let node = &mut w.nodes[f.node];
        let pos = if f.flags & O_APPEND != 0 { node.data.len() } else { at.unwrap_or(f.pos) as usize };
        if pos > (1 << 32) { return -(EFBIG as isize); }
        if node.data.len() < pos { node.data.resize(pos, 0); }
        let overlap = (node.data.len() - pos).min(n);
        node.data[pos..pos + overlap].copy_from_slice(&buf[..overlap]);
        node.data.extend_from_slice(&buf[overlap..n]);
        if at.is_none() { f.pos = (pos + n) as u64; }
        n as isize
    })();
    if res >= 0 { if let Some(p) = w.fds.get(&fd).map(|f| f.path.clone()) { w.touch(&p).written = true; } }
    record(w, Call::Write, "write", buf.len() as u64, res as i64, res > 0);
    if crash_after { w.crashed = true; return -(EIO as isize); }
    res
}

fn do_seek(w: &mut World, fd: i32, off: i64, whence: i32) -> isize {
    match begin(w, Call::Seek, 0) { Todo::Fail(e) => { record(w, Call::Seek, "lseek", off as u64, -(e as i64), false); return -(e as isize); } _ => {} }
    let res: isize = (|| {
        let Some(f) = w.fds.get_mut(&fd) else { return -(EBADF as isize); };
        let base = match whence { 0 => 0i128, 1 => f.pos as i128, 2 => w.nodes[f.node].data.len() as i128, _ => return -(EINVAL as isize) };
        let t = base + off as i128;
        if t < 0 || t > i64::MAX as i128 { return -(EINVAL as isize); }
        f.pos = t as u64;
        t as isize
    })();
    record(w, Call::Seek, "lseek", off as u64, res as i64, false);
    res
}

fn do_truncate(w: &mut World, fd: i32, len: i64) -> isize {
    match begin(w, Call::Trunc, 0) { Todo::Fail(e) => { record(w, Call::Trunc, "ftruncate", len as u64, -(e as i64), false); return -(e as isize); } _ => {} }
    let res: isize = (|| {
        let Some(f) = w.fds.get(&fd) else { return -(EBADF as isize); };
        if f.flags & O_ACCMODE == 0 { return -(EINVAL as isize); }
        if len < 0 { return -(EINVAL as isize); }
        if len > 1 << 32 { return -(EFBIG as isize); }
        w.nodes[f.node].data.resize(len as usize, 0);
        0
    })();
    if res == 0 { if let Some(p) = w.fds.get(&fd).map(|f| f.path.clone()) { w.touch(&p).truncated = true; } }
    record(w, Call::Trunc, "ftruncate", len as u64, res as i64, res == 0);
    res
}

fn node_of_stat(w: &mut World, fd: Option<i32>, path: Option<&str>) -> Result<usize, i32> {
    if let Some(p) = path { w.touch(p).stat = true; w.names.get(p).copied().ok_or(ENOENT) }
    else { w.fds.get(&fd.unwrap()).map(|f| f.node).ok_or(EBADF) }
}

fn do_stat(w: &mut World, fd: Option<i32>, path: Option<String>, fill: &mut dyn FnMut(&Node, usize)) -> isize {
    let name = if path.is_some() { "stat" } else { "fstat" };
    match begin(w, Call::Stat, 0) { Todo::Fail(e) => { record(w, Call::Stat, name, 0, -(e as i64), false); return -(e as isize); } _ => {} }
    let res = match node_of_stat(w, fd, path.as_deref()) { Ok(n) => { fill(&w.nodes[n], n); 0 } Err(e) => -(e as isize) };
    record(w, Call::Stat, name, 0, res as i64, false);
    res
}

fn other(w: &mut World, name: &'static str, mutating: bool, f: impl FnOnce(&mut World) -> isize) -> isize {
    match begin(w, Call::Other, 0) { Todo::Fail(e) => { record(w, Call::Other, name, 0, -(e as i64), false); return -(e as isize); } _ => {} }
    let r = f(w);
    record(w, Call::Other, name, 0, r as i64, mutating && r >= 0);
    r
}

fn is_sim_fd(fd: i32) -> bool { fd >= FD_BASE }
fn std_fd(fd: i32) -> bool { (0..3).contains(&fd) }

// ---------------------------------------------------------------------------------------------- interposed entry points

const SYS_READ: c_long = 0; const SYS_WRITE: c_long = 1; const SYS_CLOSE: c_long = 3; const SYS_LSEEK: c_long = 8;
const SYS_IOCTL: c_long = 16; const SYS_PREAD: c_long = 17; const SYS_PWRITE: c_long = 18; const SYS_READV: c_long = 19; const SYS_WRITEV: c_long = 20;
const SYS_ACCESS: c_long = 21; const SYS_SCHED_YIELD: c_long = 24; const SYS_NANOSLEEP: c_long = 35; const SYS_FCNTL: c_long = 72; const SYS_FLOCK: c_long = 73;
const SYS_FSYNC: c_long = 74; const SYS_FDATASYNC: c_long = 75; const SYS_FTRUNCATE: c_long = 77; const SYS_TRUNCATE: c_long = 76; const SYS_RENAME: c_long = 82;
const SYS_MKDIR: c_long = 83; const SYS_RMDIR: c_long = 84; const SYS_LINK: c_long = 86; const SYS_UNLINK: c_long = 87; const SYS_SYMLINK: c_long = 88; const SYS_READLINK: c_long = 89;
const SYS_CHMOD: c_long = 90; const SYS_FCHMOD: c_long = 91; const SYS_CLOCK_GETTIME: c_long = 228; const SYS_CLOCK_NANOSLEEP: c_long = 230;
const SYS_OPENAT: c_long = 257; const SYS_UNLINKAT: c_long = 263; const SYS_NEWFSTATAT: c_long = 262; const SYS_GETRANDOM: c_long = 318; const SYS_STATX: c_long = 332;
const SYS_FUTEX: c_long = 202; const SYS_SENDFILE: c_long = 40; const SYS_COPY_FILE_RANGE: c_long = 326; const SYS_UTIMENSAT: c_long = 280; const SYS_FALLOCATE: c_long = 285;
const AT_FDCWD: c_int = -100;

#[no_mangle] pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, m: c_uint) -> c_int {
    if mode() != SIM { return pass(SYS_OPENAT, AT_FDCWD as usize, path as usize, flags as usize, m as usize, 0, 0) as c_int; }
    let p = cpath(path);
    sim_call(move |w| do_open(w, p, flags)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, m: c_uint) -> c_int { open64(path, flags, m) }
#[no_mangle] pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, m: c_uint) -> c_int {
    if mode() != SIM { return pass(SYS_OPENAT, dir as usize, path as usize, flags as usize, m as usize, 0, 0) as c_int; }
    let p = cpath(path);
    sim_call(move |w| do_open(w, p, flags)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, m: c_uint) -> c_int { openat64(dir, path, flags, m) }
#[no_mangle] pub unsafe extern "C" fn creat64(path: *const c_char, m: c_uint) -> c_int { open64(path, O_WRONLY | O_CREAT | O_TRUNC, m) }

#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    if mode() != SIM { return pass(SYS_READ, fd as usize, buf as usize, n, 0, 0, 0); }
    if std_fd(fd) { return 0; }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    sim_call(move |w| do_read(w, fd, b, None))
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    if mode() != SIM { return pass(SYS_PREAD, fd as usize, buf as usize, n, off as usize, 0, 0); }
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
    sim_call(move |w| do_read(w, fd, b, Some(off as u64)))
}
#[repr(C)] pub struct IoVec { base: *mut c_void, len: usize }
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if mode() != SIM { return pass(SYS_READV, fd as usize, iov as usize, cnt as usize, 0, 0, 0); }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    for x in v { if x.len > 0 { return read(fd, x.base, x.len); } }
    0
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if mode() != SIM { return pass(SYS_WRITE, fd as usize, buf as usize, n, 0, 0, 0); }
    if std_fd(fd) { return n as isize; }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    sim_call(move |w| do_write(w, fd, b, None))
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if mode() != SIM { return pass(SYS_PWRITE, fd as usize, buf as usize, n, off as usize, 0, 0); }
    let b = std::slice::from_raw_parts(buf as *const u8, n);
    sim_call(move |w| do_write(w, fd, b, Some(off as u64)))
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    if mode() != SIM { return pass(SYS_WRITEV, fd as usize, iov as usize, cnt as usize, 0, 0, 0); }
    let v = std::slice::from_raw_parts(iov, cnt as usize);
    if std_fd(fd) { return v.iter().map(|x| x.len).sum::<usize>() as isize; }
    for x in v { if x.len > 0 { return write(fd, x.base, x.len); } }
    0
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if mode() != SIM { return pass(SYS_LSEEK, fd as usize, off as usize, whence as usize, 0, 0, 0) as i64; }
    sim_call(move |w| do_seek(w, fd, off, whence)) as i64
}
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 { lseek64(fd, off, whence) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if mode() != SIM { return pass(SYS_FTRUNCATE, fd as usize, len as usize, 0, 0, 0, 0) as c_int; }
    sim_call(move |w| do_truncate(w, fd, len)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int { ftruncate64(fd, len) }
#[no_mangle] pub unsafe extern "C" fn truncate64(path: *const c_char, len: i64) -> c_int {
    if mode() != SIM { return pass(SYS_TRUNCATE, path as usize, len as usize, 0, 0, 0, 0) as c_int; }
    let p = cpath(path);
    sim_call(move |w| other(w, "truncate", true, |w| match w.names.get(&p).copied() {
        Some(n) if len >= 0 && len < 1 << 32 => { w.nodes[n].data.resize(len as usize, 0); w.touch(&p).truncated = true; 0 }
        Some(_) => -(EINVAL as isize), None => -(ENOENT as isize) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn posix_fallocate64(fd: c_int, _off: i64, _len: i64) -> c_int {
    if mode() != SIM { let r = raw(SYS_FALLOCATE, fd as usize, 0, _off as usize, _len as usize, 0, 0); return if r < 0 { -r as c_int } else { 0 }; }
    EINVAL
}
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if mode() != SIM {
        if is_sim_fd(fd) { return 0; }
        return pass(SYS_CLOSE, fd as usize, 0, 0, 0, 0, 0) as c_int;
    }
    sim_call(move |w| {
        let _ = begin(w, Call::Close, 0);
        let r = if w.fds.remove(&fd).is_some() { 0 } else { -(EBADF as isize) };
        record(w, Call::Close, "close", 0, r as i64, false);
        r
    }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_FSYNC, fd as usize, 0, 0, 0, 0, 0) as c_int; }
    sim_call(move |w| match begin(w, Call::Sync, 0) { Todo::Fail(e) => -(e as isize), _ => { record(w, Call::Sync, "fsync", 0, 0, false); 0 } }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_FDATASYNC, fd as usize, 0, 0, 0, 0, 0) as c_int; }
    fsync(fd)
}

unsafe fn fill_stat(buf: *mut u8, n: &Node, ino: usize) {
    std::ptr::write_bytes(buf, 0, 144);
    let put = |o: usize, b: &[u8]| std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(o), b.len());
    put(0, &1u64.to_ne_bytes()); put(8, &(ino as u64 + 1).to_ne_bytes()); put(16, &1u64.to_ne_bytes());
    put(24, &mode_of(n).to_ne_bytes()); put(48, &(n.data.len() as i64).to_ne_bytes()); put(56, &4096i64.to_ne_bytes());
    put(64, &((n.data.len() as i64 + 511) / 512).to_ne_bytes());
}
fn mode_of(n: &Node) -> u32 { if n.dir { 0o040755 } else if n.ro { 0o100444 } else { 0o100644 } }

#[no_mangle] pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    if mode() != SIM { return pass(SYS_NEWFSTATAT, fd as usize, c"".as_ptr() as usize, buf as usize, 0x1000, 0, 0) as c_int; }
    sim_call(move |w| do_stat(w, Some(fd), None, &mut |n, i| fill_stat(buf, n, i))) as c_int
}
#[no_mangle] pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut u8) -> c_int {
    if mode() != SIM { return pass(SYS_NEWFSTATAT, AT_FDCWD as usize, path as usize, buf as usize, 0, 0, 0) as c_int; }
    let p = cpath(path);
    sim_call(move |w| do_stat(w, None, Some(p), &mut |n, i| fill_stat(buf, n, i))) as c_int
}
#[no_mangle] pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut u8) -> c_int {
    if mode() != SIM { return pass(SYS_NEWFSTATAT, AT_FDCWD as usize, path as usize, buf as usize, 0x100, 0, 0) as c_int; }
    stat64(path, buf)
}
#[no_mangle] pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, buf: *mut u8, flags: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_NEWFSTATAT, dir as usize, path as usize, buf as usize, flags as usize, 0, 0) as c_int; }
    if *path == 0 { return fstat64(dir, buf); }
    stat64(path, buf)
}
#[no_mangle] pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut u8) -> c_int {
    if mode() != SIM { return pass(SYS_STATX, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0) as c_int; }
    let by_fd = path.is_null() || *path == 0;
    let p = if by_fd { None } else { Some(cpath(path)) };
    sim_call(move |w| do_stat(w, if by_fd { Some(dir) } else { None }, p, &mut |n, i| {
        if buf.is_null() { return; }
        std::ptr::write_bytes(buf, 0, 256);
        let put = |o: usize, b: &[u8]| std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(o), b.len());
        put(0, &0x7ffu32.to_ne_bytes()); put(4, &4096u32.to_ne_bytes()); put(16, &1u32.to_ne_bytes());
        put(28, &(mode_of(n) as u16).to_ne_bytes()); put(32, &(i as u64 + 1).to_ne_bytes()); put(40, &(n.data.len() as u64).to_ne_bytes());
        put(48, &((n.data.len() as u64 + 511) / 512).to_ne_bytes());
    })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn access(path: *const c_char, amode: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_ACCESS, path as usize, amode as usize, 0, 0, 0, 0) as c_int; }
    let p = cpath(path);
    sim_call(move |w| other(w, "access", false, |w| { w.touch(&p).stat = true; match w.get(&p) {
        None => -(ENOENT as isize), Some(n) if amode & 2 != 0 && (n.ro || w.rofs) => -(EACCES as isize), _ => 0 } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if mode() != SIM { if is_sim_fd(fd) { return 0; } return pass(SYS_FCNTL, fd as usize, cmd as usize, arg, 0, 0, 0) as c_int; }
    if std_fd(fd) { return 0; }
    sim_call(move |w| match cmd {
        0 | 1030 => { // F_DUPFD, F_DUPFD_CLOEXEC
            let Some((node, pos, flags, path)) = w.fds.get(&fd).map(|f| (f.node, f.pos, f.flags, f.path.clone())) else { return -(EBADF as isize) };
            let n = (FD_BASE..).find(|f| !w.fds.contains_key(f)).unwrap();
            w.fds.insert(n, OpenFile { node, pos, flags, path }); n as isize
        }
        5..=7 | 36..=38 => { if let Some(p) = w.fds.get(&fd).map(|f| f.path.clone()) { w.touch(&p).locked = true; } 0 } // locks
        _ => if w.fds.contains_key(&fd) { 0 } else { -(EBADF as isize) }
    }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }
#[no_mangle] pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_FLOCK, fd as usize, op as usize, 0, 0, 0, 0) as c_int; }
    sim_call(move |w| { if let Some(p) = w.fds.get(&fd).map(|f| f.path.clone()) { w.touch(&p).locked = true; } 0 }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, req: usize, arg: usize) -> c_int {
    if mode() != SIM { return pass(SYS_IOCTL, fd as usize, req, arg, 0, 0, 0) as c_int; }
    fin(-(25isize)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if mode() != SIM { return pass(SYS_RENAME, a as usize, b as usize, 0, 0, 0, 0) as c_int; }
    let (a, b) = (cpath(a), cpath(b));
    sim_call(move |w| other(w, "rename", true, |w| {
        if w.rofs { return -(EROFS as isize); }
        let Some(n) = w.names.remove(&a) else { return -(ENOENT as isize) };
        w.touch(&a).renamed = true; w.touch(&b).renamed = true;
        w.names.insert(b, n); 0 })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if mode() != SIM { return pass(SYS_UNLINK, p as usize, 0, 0, 0, 0, 0) as c_int; }
    let p = cpath(p);
    sim_call(move |w| other(w, "unlink", true, |w| {
        if w.rofs { return -(EROFS as isize); }
        w.touch(&p).removed = true;
        if w.names.remove(&p).is_some() { 0 } else { -(ENOENT as isize) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn unlinkat(dir: c_int, p: *const c_char, flags: c_int) -> c_int {
    if mode() != SIM { return pass(SYS_UNLINKAT, dir as usize, p as usize, flags as usize, 0, 0, 0) as c_int; }
    unlink(p)
}
#[no_mangle] pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if mode() != SIM { return pass(SYS_RMDIR, p as usize, 0, 0, 0, 0, 0) as c_int; }
    let p = cpath(p);
    sim_call(move |w| other(w, "rmdir", true, |w| { w.touch(&p).removed = true; -(ENOTEMPTY as isize) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn mkdir(p: *const c_char, m: c_uint) -> c_int {
    if mode() != SIM { return pass(SYS_MKDIR, p as usize, m as usize, 0, 0, 0, 0) as c_int; }
    let p = cpath(p);
    sim_call(move |w| other(w, "mkdir", true, |w| {
        if w.names.contains_key(&p) { return -(EEXIST as isize); }
        w.touch(&p).created = true; w.mkdir(&p); 0 })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if mode() != SIM { return pass(SYS_LINK, a as usize, b as usize, 0, 0, 0, 0) as c_int; }
    let (a, b) = (cpath(a), cpath(b));
    sim_call(move |w| other(w, "link", true, |w| { let Some(n) = w.names.get(&a).copied() else { return -(ENOENT as isize) };
        if w.names.contains_key(&b) { return -(EEXIST as isize); } w.touch(&b).created = true; w.names.insert(b, n); 0 })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if mode() != SIM { return pass(SYS_SYMLINK, a as usize, b as usize, 0, 0, 0, 0) as c_int; }
    let b = cpath(b);
    sim_call(move |w| other(w, "symlink", true, |w| { w.touch(&b).created = true; -(EPERM as isize) })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    if mode() != SIM { return pass(SYS_READLINK, p as usize, buf as usize, n, 0, 0, 0); }
    fin(-(EINVAL as isize))
}
extern "C" { fn malloc(n: usize) -> *mut c_void; }
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let s = if mode() == SIM { cpath(p) } else { CStr::from_ptr(p).to_string_lossy().to_string() };
    if mode() == SIM {
        let q = s.clone();
        let r = sim_call(move |w| other(w, "realpath", false, |w| { w.touch(&q).stat = true; if w.names.contains_key(&q) { 0 } else { -(ENOENT as isize) } }));
        if r < 0 { return std::ptr::null_mut(); }
    }
    let dst = if out.is_null() { malloc(s.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, dst, s.len());
    *dst.add(s.len()) = 0;
    dst
}
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: c_uint) -> c_int {
    if mode() != SIM { return pass(SYS_CHMOD, p as usize, m as usize, 0, 0, 0, 0) as c_int; }
    let p = cpath(p);
    sim_call(move |w| other(w, "chmod", true, |w| { w.touch(&p).changed_meta = true;
        match w.get_mut(&p) { Some(n) => { n.ro = m & 0o200 == 0; 0 } None => -(ENOENT as isize) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn fchmod(fd: c_int, m: c_uint) -> c_int {
    if mode() != SIM { return pass(SYS_FCHMOD, fd as usize, m as usize, 0, 0, 0, 0) as c_int; }
    sim_call(move |w| other(w, "fchmod", true, |w| { match w.fds.get(&fd).map(|f| (f.node, f.path.clone())) {
        Some((n, p)) => { w.nodes[n].ro = m & 0o200 == 0; w.touch(&p).changed_meta = true; 0 } None => -(EBADF as isize) } })) as c_int
}
#[no_mangle] pub unsafe extern "C" fn futimens(fd: c_int, t: *const c_void) -> c_int {
    if mode() != SIM { return pass(SYS_UTIMENSAT, fd as usize, 0, t as usize, 0, 0, 0) as c_int; }
    0
}
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, ao: *mut i64, b: c_int, bo: *mut i64, n: usize, f: c_uint) -> isize {
    if mode() != SIM { return pass(SYS_COPY_FILE_RANGE, a as usize, ao as usize, b as usize, bo as usize, n, f as usize); }
    fin(-(EXDEV as isize))
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut i64, n: usize) -> isize {
    if mode() != SIM { return pass(SYS_SENDFILE, a as usize, b as usize, o as usize, n, 0, 0); }
    fin(-(EINVAL as isize))
}
#[no_mangle] pub unsafe extern "C" fn sendfile(a: c_int, b: c_int, o: *mut i64, n: usize) -> isize { sendfile64(a, b, o, n) }

// clocks, sleeping, randomness: simulated while code under test runs
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut i64) -> c_int {
    if mode() != SIM { return pass(SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0) as c_int; }
    let t = with(|w| { w.ticks += 1; w.ticks });
    *ts = 1_700_000_000 + (t / 1_000_000) as i64; *ts.add(1) = ((t % 1_000_000) * 1000) as i64;
    0
}
#[no_mangle] pub unsafe extern "C" fn sched_yield() -> c_int {
    if mode() != SIM { return pass(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as c_int; }
    sim_call(|w| { let _ = begin(w, Call::Other, 0); record(w, Call::Other, "sched_yield", 0, 0, false); 0 }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> c_int {
    if mode() != SIM { return pass(SYS_NANOSLEEP, a as usize, b as usize, 0, 0, 0, 0) as c_int; }
    let d = (*a as u64).wrapping_mul(1_000_000).wrapping_add(*a.add(1) as u64 / 1000);
    sim_call(move |w| { let _ = begin(w, Call::Other, 0); w.ticks += d; record(w, Call::Other, "nanosleep", d, 0, false); 0 }) as c_int
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: c_int, f: c_int, a: *const i64, b: *mut i64) -> c_int {
    if mode() != SIM { return -(raw(SYS_CLOCK_NANOSLEEP, id as usize, f as usize, a as usize, b as usize, 0, 0)) as c_int; }
    nanosleep(a, b)
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, f: c_uint) -> isize {
    // outside of the worlds as well: nothing here may depend on real randomness (hash tables of the standard library)
    if mode() != SIM { let mut r = Rng::new(0x5eed ^ f as u64); for i in 0..n { *buf.add(i) = r.next() as u8; } return n as isize; }
    let mut r = Rng::new(with(|w| { w.ticks += 1; w.ticks }));
    for i in 0..n { *buf.add(i) = r.next() as u8; }
    n as isize
}
/// std's futex-based locks go through here; a blocked thread hands the turn to another one.
#[no_mangle] pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if mode() != SIM { return pass(n, a, b, c, d, e, f) as c_long; }
    match n {
        SYS_FUTEX => {
            let op = b as i32 & 0x7f;
            if op == 0 || op == 9 { // WAIT, WAIT_BITSET
                if *(a as *const u32) != c as u32 { return fin(-11) as c_long; }
                let old = set_mode(INTERNAL);
                { let mut g = yield_point(lock(), Some(2000)); let w = g.as_mut().expect("no world"); let _ = begin(w, Call::Other, 0); record(w, Call::Other, "futex_wait", 0, 0, false); }
                set_mode(old);
                0
            } else { pass(n, a, b, c, d, e, f) as c_long }
        }
        SYS_STATX => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut u8) as c_long,
        SYS_GETRANDOM => getrandom(a as *mut u8, b, c as c_uint) as c_long,
        SYS_COPY_FILE_RANGE => fin(-(EXDEV as isize)) as c_long,
        _ => fin(-(ENOSYS as isize)) as c_long,
    }
}

