//! Executes operations of a case against the library inside the simulated operating system.
use std::collections::BTreeMap;

use serde::{Deserialize, Serialize};

use crate::alloc;
use crate::case::{Case, Op, Step, Via};
use crate::img::Fmt;
use crate::lut::{self, Metadata};
use crate::model::MMeta;
use crate::rng::fnv;
use crate::sys::{self, Ev, Fault, OpState, Touch, World};

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Ok, Err(String), Panic(String) }
impl Res {
    pub fn ok(&self) -> bool { matches!(self, Res::Ok) }
    pub fn class(&self) -> &'static str { match self { Res::Ok => "ok", Res::Err(_) => "error", Res::Panic(_) => "panic" } }
    pub fn show(&self) -> String { match self { Res::Ok => "success".into(), Res::Err(e) => format!("error ({})", e.chars().take(160).collect::<String>()), Res::Panic(e) => format!("PANIC ({e})") } }
}

pub struct Out {
    pub res: Res,
    pub fired: Vec<Fault>,
    pub calls: u32,
    pub log: Vec<Ev>,
    pub peak: (u64, u64),
    pub fds: Vec<String>,
    pub touched: BTreeMap<String, Touch>,
    pub ticks: u64,
}

/// Numbers about what was simulated; summed over all runs for the evidence.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Stats {
    pub runs: u64,
    pub lib_ops: u64,
    pub sys_calls: u64,
    pub ticks: u64,
    pub faults: BTreeMap<String, u64>,
    pub by: BTreeMap<String, u64>,
    pub hash: u64,
    pub nontrivial: bool,
}
impl Stats {
    pub fn count(&mut self, k: impl Into<String>) { *self.by.entry(k.into()).or_default() += 1; }
    pub fn fault(&mut self, k: &str) { *self.faults.entry(k.to_string()).or_default() += 1; }
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs; self.lib_ops += o.lib_ops; self.sys_calls += o.sys_calls; self.ticks += o.ticks;
        for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.by { *self.by.entry(k.clone()).or_default() += v; }
    }
}

/// Disturbances that a seeded source of them produced, by its seed; and, if asked for, a trace of what was executed.
pub static FIRED: std::sync::Mutex<Vec<(u64, Vec<Fault>)>> = std::sync::Mutex::new(vec![]);
pub static TAKEN: std::sync::Mutex<Vec<sys::Switch>> = std::sync::Mutex::new(vec![]);
pub static NOTES: std::sync::Mutex<Option<Vec<String>>> = std::sync::Mutex::new(None);
pub fn note(f: impl FnOnce() -> String) { if let Some(n) = NOTES.lock().unwrap_or_else(|e| e.into_inner()).as_mut() { if n.len() < 600 { n.push(f()); } } }

pub struct Info { pub path: String, pub fmt: Fmt }

/// One caller of the library: its metadata objects and buffers.
pub struct Mach { pub slots: Vec<Option<Metadata>>, pub bufs: Vec<Vec<u8>>, pub files: Vec<Info>, pub tid: usize,
    /// what the last removal said
    pub removed: Option<usize> }

pub fn world(case: &Case) -> World {
    let mut w = World::new();
    for f in &case.files { w.put(&f.path(), f.bytes()); if f.ro { w.get_mut(&f.path()).unwrap().ro = true; } }
    w.put("/simfs/bystander.jpg", vec![0xff, 0xd8, 0xff, 0xd9]);
    w.rofs = case.rofs;
    w
}

impl Mach {
    pub fn new(case: &Case) -> Mach {
        Mach { slots: (0..8).map(|_| None).collect(), bufs: case.files.iter().map(|f| f.bytes()).collect(), files: case.files.iter().map(|f| Info { path: f.path(), fmt: f.img.fmt() }).collect(), tid: 0, removed: None }
    }
    pub fn file(&self, f: u8) -> Vec<u8> { sys::with(|w| w.get(&self.files[f as usize].path).map(|n| n.data.clone()).unwrap_or_default()) }
    pub fn content(&self, f: u8, via: Via) -> Vec<u8> { match via { Via::File => self.file(f), Via::Vec => self.bufs[f as usize].clone() } }
    pub fn put(&mut self, f: u8, via: Via, d: Vec<u8>) { match via { Via::File => sys::with(|w| { if let Some(n) = w.get_mut(&self.files[f as usize].path) { n.data = d; } }), Via::Vec => self.bufs[f as usize] = d } }
    pub fn dump(&self, slot: u8) -> Option<Result<MMeta, String>> { self.slots[slot as usize].as_ref().map(|m| match lut::guarded(|| lut::dump(m)) { Ok(r) => r, Err(p) => Err(format!("PANIC while asking for the tags: {p}")) }) }

    fn call(&mut self, op: &Op) -> std::io::Result<()> {
        let fail = |e: String| std::io::Error::new(std::io::ErrorKind::Other, e);
        let none = || std::io::Error::new(std::io::ErrorKind::Other, "harness: empty slot");
        match op {
            Op::New { slot, meta } => { let m = lut::build(meta).map_err(fail)?; self.slots[*slot as usize] = Some(m); Ok(()) }
            Op::Set { slot, tag } => lut::set(self.slots[*slot as usize].as_mut().ok_or_else(none)?, tag).map_err(fail),
            Op::Remove { slot, nr, grp, hex, all } => {
                let m = self.slots[*slot as usize].as_mut().ok_or_else(none)?;
                if *all { self.removed = Some(lut::remove(m, *hex, *grp)); } else if m.get_ifd(lut::group(*grp), *nr).is_some() { m.get_ifd_mut(lut::group(*grp), *nr).remove_tag(*hex); }
                Ok(())
            }
            Op::Query { slot } => { lut::query(self.slots[*slot as usize].as_ref().ok_or_else(none)?); Ok(()) }
            Op::Ifd { slot, nr, grp } => { self.slots[*slot as usize].as_mut().ok_or_else(none)?.create_ifd(lut::group(*grp), *nr); Ok(()) }
            Op::Reduce { slot } => { self.slots[*slot as usize].as_mut().ok_or_else(none)?.reduce_to_a_minimum(); Ok(()) }
            Op::Copy { from, to } => { self.slots[*to as usize] = Some(self.slots[*from as usize].as_ref().ok_or_else(none)?.clone()); Ok(()) }
            Op::Read { slot, f, via } => {
                let i = &self.files[*f as usize];
                let m = match via { Via::File => lut::read_file(&i.path), Via::Vec => lut::read_vec(&self.bufs[*f as usize], i.fmt) }?;
                self.slots[*slot as usize] = Some(m); Ok(())
            }
            Op::Write { slot, f, via, ztxt } => {
                let i = &self.files[*f as usize];
                let m = self.slots[*slot as usize].as_ref().ok_or_else(none)?;
                match via { Via::File => lut::write_file(m, &i.path), Via::Vec => lut::write_vec(m, &mut self.bufs[*f as usize], i.fmt, *ztxt) }
            }
            Op::Clear { f, via } => { let i = &self.files[*f as usize]; match via { Via::File => lut::clear_file(&i.path), Via::Vec => lut::clear_vec(&mut self.bufs[*f as usize], i.fmt) } }
            Op::ClearSeg { f, via, seg } => { let i = &self.files[*f as usize]; match via { Via::File => lut::seg_file(&i.path, *seg), Via::Vec => lut::seg_vec(&mut self.bufs[*f as usize], i.fmt, *seg) } }
            Op::Restart => Ok(()),
        }
    }

    /// One operation of the library, with the step's faults.
    pub fn step(&mut self, s: &Step, st: &mut Stats) -> Out {
        let main = s.op.target().map(|(f, _)| self.files[f as usize].path.clone());
        let tid = self.tid;
        let par = sys::with(|w| {
            while w.ops.len() <= tid { w.ops.push(OpState::default()); }
            w.ops[tid] = OpState { faults: s.faults.clone(), benign: s.benign.clone(), ..OpState::default() };
            if !w.sched.active { w.op_ticks = 0; w.touched.clear(); w.log.clear(); w.main_path = main; }
            w.sched.active
        });
        alloc::reset();
        if !par { sys::WORK.store(0, std::sync::atomic::Ordering::Relaxed); }
        let r = lut::guarded(|| self.call(&s.op));
        let peak = alloc::peak();
        let res = match r { Ok(Ok(())) => Res::Ok, Ok(Err(e)) => Res::Err(e.to_string()), Err(p) => Res::Panic(p) };
        let o = sys::with(|w| {
            let o = &mut w.ops[tid];
            let fired = std::mem::take(&mut o.fired); let calls = o.calls;
            *o = OpState::default();
            let (log, touched) = if par { (vec![], BTreeMap::new()) } else { (std::mem::take(&mut w.log), std::mem::take(&mut w.touched)) };
            let fds = if par { vec![] } else { w.open_fds() };
            Out { res, fired, calls, log, peak, fds, touched, ticks: w.op_ticks }
        });
        if !par { sys::with(|w| w.close_all()); }
        if let Some(b) = &s.benign { let mut f = FIRED.lock().unwrap(); if f.len() > 200 { f.clear(); } f.push((b.seed, o.fired.clone())); }
        note(|| {
            let t = match s.op.target() { Some((f, v)) => format!(" {} ({})", self.files[f as usize].path, if v == crate::case::Via::File { "file" } else { "memory" }), None => String::new() };
            let c: Vec<String> = o.log.iter().take(40).enumerate().map(|(i, e)| format!("{i}:{}({})={}", e.name, e.arg, e.ret)).collect();
            format!("caller {tid}: {}{t} -> {}; faults {:?}; {} calls: {}", s.op.name(), o.res.show(), o.fired.iter().map(|f| format!("{:?}", f).chars().take(80).collect::<String>()).collect::<Vec<_>>(), o.calls, c.join(" "))
        });
        if matches!(s.op, Op::Restart) { for x in self.slots.iter_mut() { *x = None; } for i in 0..self.bufs.len() { self.bufs[i] = self.file(i as u8); } }
        st.lib_ops += 1; st.sys_calls += o.calls as u64;
        for f in &o.fired { st.fault(f.kind.name()); }
        st.count(format!("op:{}:{}", s.op.name(), o.res.class()));
        o
    }
}

/// Folds the world's history into the run's signature and takes the final counters.
pub fn finish(st: &mut Stats) { sys::with(|w| { st.ticks += w.ticks; st.hash = fnv(st.hash, &w.hash.to_le_bytes()); st.runs += 1; }); }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Violation { pub prop: String, pub what: String }

pub fn diff_bytes(a: &[u8], b: &[u8]) -> String {
    if a == b { return "equal".into(); }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} bytes vs {} bytes, first difference at {}", a.len(), b.len(), i)
}

pub fn listing_diff(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>, except: Option<&str>) -> Option<String> {
    for (k, v) in b { if Some(k.as_str()) == except { continue; } match a.get(k) { None => return Some(format!("file {k} appeared")), Some(x) if x != v => return Some(format!("file {k} changed: {}", diff_bytes(x, v))), _ => {} } }
    for k in a.keys() { if !b.contains_key(k) { return Some(format!("file {k} disappeared")); } }
    None
}
pub fn listing() -> BTreeMap<String, Vec<u8>> { sys::with(|w| w.listing()) }
