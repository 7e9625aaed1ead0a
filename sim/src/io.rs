//! Judging single operations and short histories under faults, damage and concurrency.
use crate::case::{Case, Op, Step, Via};
use crate::exec::{self, diff_bytes, listing, listing_diff, Mach, Out, Res, Stats, Violation};
use crate::img::Fmt;
use crate::model::MMeta;
use crate::rng::Rng;
use crate::sys::{self, Call, FaultKind};

fn plain(s: &Step) -> Step { Step { op: s.op.clone(), faults: vec![], benign: None } }
fn viol(case: &Case, what: String) -> Option<Violation> { Some(Violation { prop: case.prop.clone(), what }) }
fn slot_of(op: &Op) -> Option<u8> { match op { Op::New { slot, .. } | Op::Read { slot, .. } | Op::Set { slot, .. } | Op::Remove { slot, .. } => Some(*slot), _ => None } }
fn describe(case: &Case, s: &Step) -> String {
    match s.op.target() { Some((f, via)) => format!("{} of {} image through the {} interface", s.op.name(), case.files[f as usize].img.fmt().name(), if via == Via::File { "file" } else { "memory" }), None => s.op.name().into() }
}
fn same_dump(a: &Option<Result<MMeta, String>>, b: &Option<Result<MMeta, String>>) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(Ok(x)), Some(Ok(y))) => x.diff(y, "reference", "result", true),
        (Some(Err(x)), Some(Err(y))) if x == y => None,
        (a, b) => Some(format!("metadata object present in one run only or broken: {} / {}", a.is_some(), b.is_some())),
    }
}
fn restart_after_crash() { sys::with(|w| { w.crashed = false; w.close_all(); }); }

/// Everything before the last step runs undisturbed; the last one is the operation under test.
struct Run { m: Mach, out: Out, before: Vec<u8>, after: Vec<u8>, files_before: std::collections::BTreeMap<String, Vec<u8>>, files_after: std::collections::BTreeMap<String, Vec<u8>> }
fn run_last(case: &Case, with_faults: bool, st: &mut Stats) -> Option<Run> {
    sys::install(exec::world(case));
    let mut m = Mach::new(case);
    let (last, pre) = case.steps.split_last()?;
    for s in pre { m.step(&plain(s), st); }
    let (f, via) = last.op.target()?;
    let before = m.content(f, via);
    let files_before = listing();
    let s = if with_faults { last.clone() } else { plain(last) };
    let out = m.step(&s, st);
    restart_after_crash();
    let after = m.content(f, via);
    let files_after = listing();
    Some(Run { m, out, before, after, files_before, files_after })
}
/// The number of system calls of the operation under test, for placing faults.
pub fn trace(case: &Case) -> Option<(Vec<sys::Ev>, Vec<u8>, Vec<u8>)> {
    if let Some(p) = EMIT.lock().unwrap().as_ref() { let _ = std::fs::write(p, serde_json::to_vec(case).unwrap_or_default()); }
    let mut st = Stats::default(); let r = run_last(case, false, &mut st)?; Some((r.out.log, r.before, r.after)) }
/// where to leave the case whose undisturbed run is about to be traced (to find out what killed the process)
pub static EMIT: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);

pub fn c01(case: &Case, st: &mut Stats) -> Option<Violation> {
    let reference = run_last(case, false, st)?;
    let run = run_last(case, true, st)?;
    let last = case.steps.last().unwrap();
    let (f, via) = last.op.target().unwrap();
    let what = describe(case, last);
    let hard: Vec<_> = run.out.fired.iter().filter(|x| !matches!(x.kind, FaultKind::Eintr | FaultKind::Short(_))).collect();
    st.nontrivial = !hard.is_empty() && reference.out.res.ok();
    exec::finish(st);
    let path = case.files[f as usize].path();
    let inj = hard.iter().map(|x| format!("{:?} at call {}", x.kind, x.at)).collect::<Vec<_>>().join(", ");
    if let Res::Panic(p) = &run.out.res { if !matches!(reference.out.res, Res::Panic(_)) { return viol(case, format!("{what}: PANIC ({p}) after {inj}")); } }
    if run.out.res.ok() {
        if !reference.out.res.ok() { return viol(case, format!("{what} reported success with faults [{inj}] but fails without: {}", reference.out.res.show())); }
        if run.after != reference.after { return viol(case, format!("{what} reported success although [{inj}], but the file is not the complete result: {}", diff_bytes(&reference.after, &run.after))); }
        if let Op::Read { slot, .. } = last.op { if let Some(e) = same_dump(&reference.m.dump(slot), &run.m.dump(slot)) { return viol(case, format!("{what} reported success although [{inj}], but returned something else: {e}")); } }
    } else if run.out.fired.is_empty() && reference.out.res.ok() && !case.rofs && !case.files[f as usize].ro {
        return viol(case, format!("{what} failed without any fault: {}", run.out.res.show()));
    }
    if let Some(e) = listing_diff(&run.files_before, &run.files_after, Some(&path)) { return viol(case, format!("{what} with [{inj}]: {e}")); }
    if !run.files_after.contains_key(&path) { return viol(case, format!("{what} with [{inj}]: the file is gone")); }
    // the faults stop: the same operation on the restored original succeeds with the fault-free result
    let mut m = run.m;
    if reference.out.res.ok() && !case.rofs && !case.files[f as usize].ro {
        m.put(f, via, reference.before.clone());
        let again = m.step(&plain(last), st);
        if !again.res.ok() { return viol(case, format!("{what}: after [{inj}] the repetition on the restored file fails: {}", again.res.show())); }
        if m.content(f, via) != reference.after { return viol(case, format!("{what}: after [{inj}] the repetition on the restored file gives another result: {}", diff_bytes(&reference.after, &m.content(f, via)))); }
    }
    None
}

pub fn c02(case: &Case, st: &mut Stats) -> Option<Violation> {
    let reference = run_last(case, false, st)?;
    let run = run_last(case, true, st)?;
    let last = case.steps.last().unwrap();
    let what = describe(case, last);
    st.nontrivial = !run.out.fired.is_empty();
    exec::finish(st);
    let n = run.out.fired.len();
    if reference.out.res.ok() != run.out.res.ok() || matches!(run.out.res, Res::Panic(_)) != matches!(reference.out.res, Res::Panic(_)) {
        return viol(case, format!("{what}: {} with {n} short transfers/interruptions, but {} without", run.out.res.show(), reference.out.res.show()));
    }
    if reference.after != run.after { return viol(case, format!("{what}: {n} short transfers/interruptions change the result: {}", diff_bytes(&reference.after, &run.after))); }
    if let Op::Read { slot, .. } = last.op { if run.out.res.ok() { if let Some(e) = same_dump(&reference.m.dump(slot), &run.m.dump(slot)) { return viol(case, format!("{what}: {n} short transfers/interruptions change the result: {e}")); } } }
    None
}

pub fn c03(case: &Case, st: &mut Stats) -> Option<Violation> {
    let reference = run_last(case, false, st)?;
    let last = case.steps.last().unwrap();
    let (f, _) = last.op.target().unwrap();
    let what = describe(case, last);
    let path = case.files[f as usize].path();
    if !last.op.mutates() { return None; }
    if !reference.out.res.ok() && reference.after != reference.before {
        exec::finish(st);
        return viol(case, format!("{what} failed ({}) but changed the image: {}", reference.out.res.show(), diff_bytes(&reference.before, &reference.after)));
    }
    let run = run_last(case, true, st)?;
    exec::finish(st);
    st.nontrivial = !run.out.fired.is_empty() || !reference.out.res.ok();
    let fired = run.out.fired.iter().map(|x| format!("{:?} at call {}", x.kind, x.at)).collect::<Vec<_>>().join(", ");
    let (o, n, a) = (&reference.before, &reference.after, &run.after);
    if let Some(e) = listing_diff(&run.files_before, &run.files_after, Some(&path)) { return viol(case, format!("{what} with [{fired}]: {e}")); }
    if !run.files_after.contains_key(&path) { return viol(case, format!("{what} with [{fired}]: the file is gone")); }
    if run.out.res.ok() && reference.out.res.ok() && a != n && run.out.fired.iter().all(|x| !matches!(x.kind, FaultKind::Crash | FaultKind::CrashTorn(_))) { return viol(case, format!("{what} with [{fired}] was acknowledged, but the result is not there: {}", diff_bytes(n, a))); }
    // reading failed: nothing may have been touched yet
    if !run.out.res.ok() {
        let unread = run.out.fired.iter().any(|x| matches!(x.kind, FaultKind::Err(_)) && reference.out.log.get(x.at as usize).map(|e| matches!(e.call, Call::Read | Call::Open | Call::Stat)).unwrap_or(false));
        if unread && a != o { return viol(case, format!("{what}: the input could not be read completely [{fired}], yet the image changed: {}", diff_bytes(o, a))); }
    }
    if a.len() > o.len().max(n.len()) { return viol(case, format!("{what} with [{fired}]: {} bytes left, longer than both the old ({}) and the new ({}) content", a.len(), o.len(), n.len())); }
    for i in 0..a.len() {
        if o.get(i) != Some(&a[i]) && n.get(i) != Some(&a[i]) { return viol(case, format!("{what} with [{fired}]: byte {i} is neither the old nor the new one ({:02x}; old {:02x?}, new {:02x?})", a[i], o.get(i), n.get(i))); }
    }
    None
}

pub fn c04(case: &Case, st: &mut Stats) -> Option<Violation> {
    sys::install(exec::world(case));
    let mut m = Mach::new(case);
    for (k, s) in case.steps.iter().enumerate() {
        let Some((f, via)) = s.op.target() else { m.step(s, st); continue };
        let what = format!("step {k}: {}", describe(case, s));
        let path = case.files[f as usize].path();
        let (files, buf) = (listing(), m.bufs[f as usize].clone());
        // reference without read-only protection and faults
        let reference = if matches!(s.op, Op::Read { .. }) && (case.rofs || case.files[f as usize].ro) && s.faults.is_empty() {
            let (a, b) = sys::with(|w| { let a = w.rofs; w.rofs = false; let n = w.get_mut(&path).unwrap(); let b = n.ro; n.ro = false; (a, b) });
            let o = m.step(&plain(s), st); let d = if let Op::Read { slot, .. } = s.op { m.dump(slot) } else { None };
            sys::with(|w| { w.rofs = a; w.get_mut(&path).unwrap().ro = b; });
            Some((o.res, d))
        } else { None };
        let o = m.step(s, st);
        restart_after_crash();
        if let Some(p) = o.fds.first() { exec::finish(st); return viol(case, format!("{what} ended with {} and left {} open", o.res.class(), p)); }
        for (p, t) in &o.touched { if via == Via::Vec || *p != path { exec::finish(st); return viol(case, format!("{what} touched {p}: {t:?}")); } }
        if matches!(s.op, Op::Read { .. }) {
            if let Some(t) = o.touched.get(&path) {
                if t.open_w || t.created || t.truncated || t.written || t.removed || t.renamed || t.changed_meta || t.locked { exec::finish(st); return viol(case, format!("{what} needed more than read access or had side effects: {t:?}")); }
            }
            if let Some(e) = listing_diff(&files, &listing(), None) { exec::finish(st); return viol(case, format!("{what}: {e}")); }
            if m.bufs[f as usize] != buf { exec::finish(st); return viol(case, format!("{what} changed the buffer")); }
            if let Some((r, d)) = reference {
                let d2 = if let Op::Read { slot, .. } = s.op { m.dump(slot) } else { None };
                if r.ok() != o.res.ok() { exec::finish(st); return viol(case, format!("{what}: {} on a read-only file, {} otherwise", o.res.show(), r.show())); }
                if r.ok() { if let Some(e) = same_dump(&d, &d2) { exec::finish(st); return viol(case, format!("{what}: read-only file gives another result: {e}")); } }
                st.count("read-only comparison");
            }
            st.nontrivial = true;
        } else {
            if let Some(e) = listing_diff(&files, &listing(), Some(&path)) { exec::finish(st); return viol(case, format!("{what}: {e}")); }
            if let Some(t) = o.touched.get(&path) { if t.removed || t.renamed || t.changed_meta { exec::finish(st); return viol(case, format!("{what} replaced the file itself: {t:?}")); } }
        }
    }
    exec::finish(st);
    None
}

pub fn c09(case: &Case, st: &mut Stats) -> Option<Violation> {
    let mut w = exec::world(case);
    for f in &case.files { w.put(&format!("/simfs/mixed/{}", f.name), f.bytes()); }
    sys::install(w);
    let (mut a, mut b, mut c) = (Mach::new(case), Mach::new(case), Mach::new(case));
    for (i, f) in case.files.iter().enumerate() { c.files[i].path = format!("/simfs/mixed/{}", f.name); }
    let with = |op: &Op, via: Via| -> Op { match op.clone() { Op::Read { slot, f, .. } => Op::Read { slot, f, via }, Op::Write { slot, f, .. } => Op::Write { slot, f, via, ztxt: true }, Op::Clear { f, .. } => Op::Clear { f, via }, Op::ClearSeg { f, seg, .. } => Op::ClearSeg { f, via, seg }, o => o } };
    let v = |case: &Case, what: String, st: &mut Stats| { exec::finish(st); viol(case, what) };
    for (k, s) in case.steps.iter().enumerate() {
        if matches!(s.op, Op::Restart) { continue; }
        let name = format!("step {k}: {}", s.op.name());
        // reading a file goes by its content, not its name; a damaged image may look like another format
        if let Some((f, _)) = s.op.target() { if crate::img::sniff(&a.content(f, Via::File)).map_or(false, |x| x != case.files[f as usize].img.fmt()) { st.count("skipped:other-format"); break; } }
        let ra = a.step(&Step { op: with(&s.op, Via::File), faults: vec![], benign: s.benign.clone() }, st);
        let rb = b.step(&Step::of(with(&s.op, Via::Vec)), st);
        let mixed = s.op.target().map(|x| x.1).unwrap_or(Via::Vec);
        let rc = c.step(&Step::of(with(&s.op, mixed)), st);
        if let Some((f, _)) = s.op.target() {
            st.nontrivial |= ra.res.ok();
            let fmt = case.files[f as usize].img.fmt().name();
            // what the mixed history did through one interface is visible through the other
            let d = c.content(f, mixed); c.put(f, if mixed == Via::File { Via::Vec } else { Via::File }, d.clone());
            if ra.res.ok() != rb.res.ok() { return v(case, format!("{name} of {fmt} image: {} through the file interface, {} in memory", ra.res.show(), rb.res.show()), st); }
            if ra.res.ok() != rc.res.ok() { return v(case, format!("{name} of {fmt} image: {} through the file interface, {} when interfaces are mixed", ra.res.show(), rc.res.show()), st); }
            let (x, y) = (a.content(f, Via::File), b.content(f, Via::Vec));
            if x != y { return v(case, format!("{name} of {fmt} image: file and memory differ afterwards: {}", diff_bytes(&x, &y)), st); }
            if x != d { return v(case, format!("{name} of {fmt} image: mixed history gives other bytes: {}", diff_bytes(&x, &d)), st); }
        }
        if let (Some(slot), true) = (slot_of(&s.op), ra.res.ok()) {
            let (x, y, z) = (a.dump(slot), b.dump(slot), c.dump(slot));
            if let Some(e) = same_dump(&x, &y) { return v(case, format!("{name}: file and memory interface return different metadata: {e}"), st); }
            if let Some(e) = same_dump(&x, &z) { return v(case, format!("{name}: mixed history returns different metadata: {e}"), st); }
        }
    }
    exec::finish(st);
    None
}

/// Memory an operation may use on an image of n bytes.
pub fn memory_bound(n: usize) -> u64 { (160u64 << 20) + 64 * n as u64 }
/// System calls an operation may make on an image of n bytes.
pub fn call_bound(n: usize) -> u64 { 200_000 + 256 * n as u64 }

pub fn c10(case: &Case, st: &mut Stats) -> Option<Violation> {
    let mut w = exec::world(case);
    let size: usize = case.files.iter().map(|f| f.bytes().len()).sum();
    w.call_cap = call_bound(size);
    w.keep_log = false;
    sys::install(w);
    let mut m = Mach::new(case);
    let mut reached = 0;
    for (k, s) in case.steps.iter().enumerate() {
        let Some((f, via)) = s.op.target() else { let o = m.step(s, st); if let Res::Panic(p) = o.res { exec::finish(st); return viol(case, format!("step {k}: {}: PANIC ({p})", s.op.name())); } continue };
        let what = format!("step {k}: {}", describe(case, s));
        let before = m.content(f, via);
        let o = m.step(s, st);
        let after = m.content(f, via);
        if let Res::Panic(p) = &o.res { exec::finish(st); return viol(case, format!("{what}: PANIC ({p})")); }
        let biggest = size.max(before.len()).max(after.len());
        if o.peak.0 > memory_bound(biggest) { exec::finish(st); return viol(case, format!("{what}: used {} MiB of memory on {} bytes of images", o.peak.0 >> 20, biggest)); }
        let outside = o.fired.iter().any(|x| matches!(x.kind, FaultKind::Poke(..) | FaultKind::Cut(_) | FaultKind::Swap(_)));
        if !o.res.ok() && after != before && !outside { exec::finish(st); return viol(case, format!("{what} reported {} but changed the image: {}", o.res.show(), diff_bytes(&before, &after))); }
        if outside && !o.res.ok() { if o.touched.values().any(|t| t.written || t.truncated) { exec::finish(st); return viol(case, format!("{what} reported {} after the file changed underneath, but had already written to it", o.res.show())); } }
        if o.res.ok() { reached += 1; if let Op::Read { slot, .. } = s.op { if let Some(Err(e)) = m.dump(slot) { if e.contains("PANIC") { exec::finish(st); return viol(case, format!("{what}: {e}")); } } } }
    }
    let _ = reached;
    st.nontrivial = case.files.iter().any(|f| !f.damage.is_empty() || matches!(f.img, crate::img::Image::Raw { .. })) || case.steps.iter().any(|s| !s.faults.is_empty());
    exec::finish(st);
    None
}

#[derive(Clone)]
struct ThreadResult { res: Vec<(Res, Option<Result<MMeta, String>>)>, bufs: Vec<Vec<u8>> }

fn run_steps(case: &Case, steps: &[Step], tid: usize, st: &mut Stats) -> ThreadResult {
    let mut m = Mach::new(case);
    m.tid = tid;
    let mut res = vec![];
    for s in steps { let o = m.step(s, st); let d = slot_of(&s.op).and_then(|x| m.dump(x)); res.push((o.res, d)); }
    ThreadResult { res, bufs: m.bufs }
}

type Listing = std::collections::BTreeMap<String, Vec<u8>>;

pub fn c11(case: &Case, st: &mut Stats) -> Option<Violation> {
    // what the files hold is needed many times
    let (given, case) = (case, &case.baked());
    // each caller alone, on a fresh system
    sys::new_epoch();
    let mut alone = vec![];
    let mut final_files: Vec<Listing> = vec![];
    for t in &case.threads { sys::install(exec::world(case)); alone.push(run_steps(case, t, 0, st)); final_files.push(listing()); }
    let initial: Listing = { sys::install(exec::world(case)); listing() };
    // all together, after some unrelated history
    let mut before = given.clone();
    for f in before.files.iter_mut() { *f = f.namesake(case.twin); }
    let before = before.baked();
    let mut w = exec::world(&before);
    w.keep_log = false;
    sys::install(w);
    let mut pre = Mach::new(&before);
    for s in &case.steps { pre.step(s, st); restart_after_crash(); }
    // each caller once more, one after the other, in the thread with that history
    if !case.steps.is_empty() {
        for (i, t) in case.threads.iter().enumerate() {
            sys::install(exec::world(case));
            let r = run_steps(case, t, 0, st);
            let l = listing();
            for (k, ((x, dx), (y, dy))) in alone[i].res.iter().zip(&r.res).enumerate() {
                let what = format!("caller {i} step {k} ({})", describe(case, &t[k]));
                if x.class() != y.class() { return viol(case, format!("{what}: {} after other operations, {} without", y.show(), x.show())); }
                if let Some(e) = same_dump(dx, dy) { return viol(case, format!("{what}: returns other metadata after other operations than without: {e}")); }
            }
            if let Some(e) = exec::listing_diff(&final_files[i], &l, None) { return viol(case, format!("caller {i}: {e} after other operations")); }
            for (j, (x, y)) in alone[i].bufs.iter().zip(&r.bufs).enumerate() { if x != y { return viol(case, format!("caller {i}: buffer {j} differs after other operations: {}", diff_bytes(x, y))); } }
        }
    }
    // what the earlier operations left in the files is not the point: only their possible traces in the process are
    let rounds = if case.switches.is_some() { 1 } else { case.rounds.max(1) };
    let mut r = Rng::new(case.sched_seed);
    for _ in 0..rounds {
        if let Some(v) = together(case, &alone, &final_files, &initial, &mut r, st) { return Some(v); }
    }
    None
}

/// All callers at the same time, under one schedule.
fn together(case: &Case, alone: &[ThreadResult], final_files: &[Listing], initial: &Listing, rng: &mut Rng, st: &mut Stats) -> Option<Violation> {
    let mut w = exec::world(case);
    w.keep_log = false;
    w.ops = vec![Default::default(); case.threads.len() + 1];
    sys::install(w);
    let breaks = *rng.pick(&[0usize, 0, 0, 1, 3, 12, 40, 40]);
    let every = if breaks > 0 { 0 } else { *rng.pick(&[0u64, 8, 30, 60, 500, 4000]) };
    let pct = if breaks > 0 { *rng.pick(&[0u64, 0, 3, 15]) } else { *rng.pick(&[3u64, 15, 40, 80]) };
    let seed = rng.next();
    sys::sched_start(sys::Sched { alive: vec![true; case.threads.len()], rng: Some(Rng::new(seed)), switch_pct: pct, every, explicit: case.switches.clone(), order_hash: crate::rng::FNV0, ..Default::default() }, breaks);
    let mut results = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..case.threads.len()).map(|i| {
            let c = &*case;
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(sc, move || {
                sys::sched_enter(i);
                let mut s = Stats::default();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_steps(c, &c.threads[i], i, &mut s)));
                sys::sched_leave(i);
                (r, s)
            }).expect("thread")
        }).collect();
        for h in hs { results.push(h.join()); }
    });
    sys::sched_end();
    let (taken, order) = sys::with(|w| { *exec::TAKEN.lock().unwrap() = w.sched.taken.clone(); (w.sched.taken.len(), w.sched.order_hash) });
    st.hash = crate::rng::fnv(st.hash, &order.to_le_bytes());
    *st.by.entry("context switches".into()).or_default() += taken as u64;
    st.nontrivial |= taken > 0;
    let end = listing();
    exec::finish(st);
    for (i, r) in results.into_iter().enumerate() {
        let (r, s) = match r { Ok(x) => x, Err(_) => return viol(case, format!("caller {i} died")) };
        st.merge(&s); 
        let r = match r { Ok(r) => r, Err(_) => return viol(case, format!("caller {i} died")) };
        let a = &alone[i];
        for (k, ((x, dx), (y, dy))) in a.res.iter().zip(&r.res).enumerate() {
            let what = format!("caller {i} step {k} ({})", describe(case, &case.threads[i][k]));
            if x.class() != y.class() { return viol(case, format!("{what}: {} when others run at the same time, {} alone", y.show(), x.show())); }
            if let Some(e) = same_dump(dx, dy) { return viol(case, format!("{what}: returns other metadata than alone: {e}")); }
        }
        for (j, (x, y)) in a.bufs.iter().zip(&r.bufs).enumerate() { if x != y { return viol(case, format!("caller {i}: buffer {j} differs from the run alone: {}", diff_bytes(x, y))); } }
        // files only this caller writes
        for (j, f) in case.files.iter().enumerate() {
            let mine = case.threads[i].iter().any(|s| s.op.mutates() && matches!(s.op.target(), Some((t, Via::File)) if t as usize == j));
            let others = case.threads.iter().enumerate().any(|(k, t)| k != i && t.iter().any(|s| s.op.mutates() && matches!(s.op.target(), Some((t, Via::File)) if t as usize == j)));
            if mine && !others { let p = f.path(); if end.get(&p) != final_files[i].get(&p) { return viol(case, format!("caller {i}: file {j} differs from the run alone: {}", diff_bytes(&final_files[i][&p], end.get(&p).map(|x| x.as_slice()).unwrap_or(&[])))); } }
        }
    }
    let names: Vec<String> = case.files.iter().map(|f| f.path()).collect();
    for (k, d) in &end { if !names.contains(k) && initial.get(k) != Some(d) { return viol(case, format!("{k} appeared or changed")); } }
    let _ = Fmt::Jpeg;
    None
}
