//! Per property: how cases are made from (seed, index), and which judge decides them.
use crate::case::{Case, Op, Step, Via};
use crate::exec::{Stats, Violation};
use crate::gen::{self, benign, case, damages, file, fmt_of, fresh, history, via, Ex, Hist};
use crate::img::{self, Blob, Fmt};
use crate::model::{self, MTag, MV};
use crate::rng::Rng;
use crate::sys::{self, Benign, Call, Fault, FaultKind, Switch};
use crate::{hist, io};

pub const IDS: [&str; 16] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17"];

/// scenarios per tier
pub fn scenarios(prop: &str, tier: &str) -> u64 {
    let q = match prop { "C01" => 30_000, "C02" => 60_000, "C03" => 26_000, "C04" => 300_000, "C05" => 170_000, "C06" => 160_000, "C07" => 160_000, "C08" => 170_000, "C09" => 160_000, "C10" => 320_000, "C11" => 9_000, "C12" => 160_000, "C15" => 200_000, "C16" => 120_000, "C17" => 80_000, _ => 80_000 };
    if tier == "thorough" { q * 10 } else { q }
}

fn oversize(r: &mut Rng) -> model::MSpec {
    let mut m = fresh(r, 4);
    let n = 70_000 + r.idx(60_000);
    model::push(&mut m, MTag { nr: 0, grp: 1, hex: 0x927c, v: MV::Raw(7, r.bytes(n)) });
    m
}

/// a file, metadata in slot 0, and one operation on the file
fn single(r: &mut Rng, prop: &str, idx: u64, kinds: &[u8], big: bool) -> Case {
    let mut c = case(prop, String::new());
    let f = fmt_of(r, idx);
    let op = *r.pick(kinds);
    let ex = if op == 0 || (op == 2 && r.chance(4, 5)) { Ex::One } else { Ex::Maybe };
    c.files.push(file(r, f, ex, 0, 8, big));
    let v = Via::File;
    match op {
        0 => c.steps.push(Step::of(Op::Read { slot: 0, f: 0, via: v })),
        1 => {
            if f == Fmt::Tiff { c.steps.push(Step::of(Op::Read { slot: 0, f: 0, via: Via::Vec })); let t = gen::fresh(r, 3); for t in t.tags { if t.nr == 0 && !(t.grp == 0 && gen::touchy(t.hex)) { c.steps.push(Step::of(Op::Set { slot: 0, tag: t })); } } }
            else { let m = fresh(r, 8); c.steps.push(Step::of(Op::New { slot: 0, meta: m })); }
            c.steps.push(Step::of(Op::Write { slot: 0, f: 0, via: v, ztxt: true }));
        }
        2 => c.steps.push(Step::of(Op::Clear { f: 0, via: v })),
        _ => c.steps.push(Step::of(Op::ClearSeg { f: 0, via: v, seg: 12 + r.below(2) as u8 })),
    }
    c
}
fn with_fault(c: &Case, f: Vec<Fault>) -> Case { let mut c = c.clone(); c.steps.last_mut().unwrap().faults = f; c }

pub fn cases(prop: &str, seed: u64, idx: u64) -> Vec<Case> {
    let mut rr = Rng::derive(&[seed, crate::rng::fnv(crate::rng::FNV0, prop.as_bytes()), idx]);
    let r = &mut rr;
    let mut v: Vec<Case> = match prop {
        "C01" => {
            let big = r.chance(1, 12);
            let c = single(r, prop, idx, &[0, 1, 1, 1, 2, 2, 3], big);
            let Some((log, before, after)) = io::trace(&c) else { return vec![] };
            let mut v = vec![c.clone()];
            let n = log.len();
            if n == 0 { return v; }
            let mutating: Vec<usize> = log.iter().enumerate().filter(|(_, e)| e.mutating).map(|(i, _)| i).collect();
            for k in 0..10u64 {
                // every kind of call gets its share; the late ones (writing) matter most
                let at = if k < 5 && !mutating.is_empty() { *r.pick(&mutating) } else { r.idx(n) };
                let e = &log[at];
                let err = match e.call { Call::Open => *r.pick(&[sys::EACCES, sys::EROFS, sys::EMFILE, sys::EIO, sys::EPERM]), Call::Write => *r.pick(&[sys::EIO, sys::ENOSPC, sys::EDQUOT, sys::EFBIG]), Call::Trunc => *r.pick(&[sys::EIO, sys::EPERM, sys::EFBIG]), _ => sys::EIO };
                let kind = match r.below(10) {
                    0 => FaultKind::ErrSticky(err), 1 => FaultKind::ErrSticky(sys::EIO),
                    2 | 3 if e.call == Call::Write => FaultKind::Space(r.below(before.len().max(after.len()) as u64 + 1) as u32, *r.pick(&[sys::ENOSPC, sys::EDQUOT, sys::EIO])),
                    4 if e.call == Call::Write => FaultKind::Zero,
                    _ => FaultKind::Err(err),
                };
                let mut fs = vec![Fault { at: at as u32, kind }];
                if r.chance(1, 5) && at > 0 { fs.push(Fault { at: r.idx(at) as u32, kind: if r.chance(1, 2) { FaultKind::Eintr } else { FaultKind::Short(1 + r.below(8) as u32) } }); }
                v.push(with_fault(&c, fs));
            }
            if r.chance(1, 3) { let n = r.below(after.len() as u64 + 2) as u32; v.push(with_fault(&c, vec![Fault { at: 0, kind: FaultKind::Space(n, sys::ENOSPC) }])); }
            if r.chance(1, 6) { let mut d = c.clone(); if r.chance(1, 2) { d.rofs = true; } else { d.files[0].ro = true; } v.push(d); }
            v
        }
        "C02" => {
            let big = r.chance(1, 20);
            let c = single(r, prop, idx, &[0, 0, 1, 1, 2, 3], big);
            let mut v = vec![];
            for k in 0..3 {
                let mut d = c.clone();
                let b = match k { 0 => Benign { seed: r.below(1 << 32), short_pct: 100, eintr_pct: 0, tiny: true }, _ => benign(r) };
                d.steps.last_mut().unwrap().benign = Some(b);
                v.push(d);
            }
            // one single disturbance at one place
            if let Some((log, _, _)) = io::trace(&c) {
                let data: Vec<usize> = log.iter().enumerate().filter(|(_, e)| matches!(e.call, Call::Read | Call::Write)).map(|(i, _)| i).collect();
                if !data.is_empty() { for _ in 0..3 {
                    let at = *r.pick(&data);
                    let len = (log[at].ret.max(2) as u64).min(1 << 20);
                    let kind = if r.chance(1, 4) { FaultKind::Eintr } else { FaultKind::Short(1 + r.below(len - 1) as u32) };
                    v.push(with_fault(&c, vec![Fault { at: at as u32, kind }]));
                } }
            }
            v
        }
        "C03" => {
            let big = r.chance(1, 12);
            let mut c = single(r, prop, idx, &[1, 1, 1, 2, 2, 3], big);
            match r.below(6) {
                0 if c.files[0].img.fmt() == Fmt::Jpeg => { let m = oversize(r); c.steps = vec![Step::of(Op::New { slot: 0, meta: m }), Step::of(Op::Write { slot: 0, f: 0, via: via(r), ztxt: true })]; }
                1 if c.files[0].img.fmt() == Fmt::Tiff => { let m = fresh(r, 5); c.steps = vec![Step::of(Op::New { slot: 0, meta: m }), Step::of(Op::Write { slot: 0, f: 0, via: via(r), ztxt: true })]; }
                2 => { let d = damages(r, &c.files[0].bytes()); c.files[0].damage = d; if let Some(s) = c.steps.last_mut() { match &mut s.op { Op::Write { via: v, .. } | Op::Clear { via: v, .. } | Op::ClearSeg { via: v, .. } => *v = via(r), _ => {} } } }
                _ => {}
            }
            let mut v = vec![c.clone()];
            let Some((log, before, after)) = io::trace(&c) else { return v };
            let mutating: Vec<usize> = log.iter().enumerate().filter(|(_, e)| e.mutating).map(|(i, _)| i).collect();
            let reads: Vec<usize> = log.iter().enumerate().filter(|(_, e)| matches!(e.call, Call::Read | Call::Open | Call::Stat)).map(|(i, _)| i).collect();
            if !mutating.is_empty() { for k in 0..8 {
                let at = if k < 2 { mutating[mutating.len() - 1] } else { *r.pick(&mutating) };
                let kind = if log[at].call == Call::Write && r.chance(2, 3) { FaultKind::CrashTorn(r.below(log[at].ret.max(0) as u64 + 1) as u32) } else { FaultKind::Crash };
                v.push(with_fault(&c, vec![Fault { at: at as u32, kind }]));
            }
            let n = r.below(before.len().max(after.len()) as u64 + 1) as u32; v.push(with_fault(&c, vec![Fault { at: 0, kind: FaultKind::Space(n, sys::ENOSPC) }]));
            let at = *r.pick(&mutating); v.push(with_fault(&c, vec![Fault { at: at as u32, kind: FaultKind::Err(sys::EIO) }]));
            let at = r.idx(log.len()); v.push(with_fault(&c, vec![Fault { at: at as u32, kind: FaultKind::Crash }]));
            }
            if !reads.is_empty() { for _ in 0..4 { let at = *r.pick(&reads); v.push(with_fault(&c, vec![Fault { at: at as u32, kind: FaultKind::Err(sys::EIO) }])); } }
            v
        }
        "C04" => {
            let mut c = case(prop, String::new());
            let f = fmt_of(r, idx);
            let x = file(r, f, Ex::Maybe, 0, 8, false); c.files.push(x);
            if r.chance(1, 3) { let d = damages(r, &c.files[0].bytes()); c.files[0].damage = d; }
            match r.below(4) { 0 => c.rofs = true, 1 => c.files[0].ro = true, _ => {} }
            for _ in 0..1 + r.below(4) {
                let mut s = Step::of(if r.chance(3, 4) { Op::Read { slot: 0, f: 0, via: if r.chance(4, 5) { Via::File } else { Via::Vec } } } else {
                    match r.below(3) { 0 => Op::Clear { f: 0, via: via(r) }, 1 if f == Fmt::Jpeg => Op::ClearSeg { f: 0, via: via(r), seg: 12 }, _ => { let m = fresh(r, 6); c.steps.push(Step::of(Op::New { slot: 1, meta: m })); Op::Write { slot: 1, f: 0, via: via(r), ztxt: true } } }
                });
                match r.below(5) { 0 => s.faults.push(Fault { at: r.below(30) as u32, kind: FaultKind::Err(*r.pick(&[sys::EIO, sys::EACCES, sys::EMFILE])) }), 1 => s.benign = Some(benign(r)), _ => {} }
                c.steps.push(s);
            }
            vec![c]
        }
        "C05" | "C06" | "C07" | "C08" | "C12" | "C13" => {
            let mut c = case(prop, String::new());
            let nf = if r.chance(1, 4) { 2 } else { 1 };
            for i in 0..nf {
                let f = if i == 0 { fmt_of(r, idx) } else { *r.pick(&img::FMTS) };
                let ex = match prop { "C05" => if r.chance(1, 8) { Ex::Many } else { Ex::Maybe }, "C13" => Ex::One, _ => if r.chance(1, 4) { Ex::Many } else { Ex::Maybe } };
                let (big, max) = (r.chance(1, 15), 1 + r.below(if prop == "C13" || prop == "C05" { 24 } else { 12 }));
                c.files.push(file(r, f, ex, i, max, big));
            }
            let h = match prop {
                "C05" => Hist { clear: 8, seg: false, edit: 26, restart: true, benign_pct: 20, len: 3 + r.below(9), max_tags: 16, force_via: None, ztxt_only: false, repeat: 0 },
                "C06" => Hist { clear: 20, seg: true, edit: 8, restart: true, benign_pct: 10, len: 3 + r.below(7), max_tags: 10, force_via: None, ztxt_only: false, repeat: 4 },
                "C07" => Hist { clear: 20, seg: true, edit: 8, restart: false, benign_pct: 10, len: 3 + r.below(7), max_tags: 16, force_via: None, ztxt_only: false, repeat: 4 },
                "C08" => Hist { clear: 32, seg: true, edit: 2, restart: true, benign_pct: 10, len: 2 + r.below(7), max_tags: 8, force_via: None, ztxt_only: false, repeat: 12 },
                "C12" => Hist { clear: 10, seg: false, edit: 10, restart: true, benign_pct: 10, len: 4 + r.below(8), max_tags: 12, force_via: None, ztxt_only: true, repeat: 16 },
                _ => Hist { clear: 0, seg: false, edit: 30, restart: true, benign_pct: 15, len: 2 + r.below(6), max_tags: 6, force_via: None, ztxt_only: false, repeat: 0 },
            };
            if prop == "C13" {
                for round in 0..1 + r.below(3) {
                    let f = r.idx(c.files.len()) as u8;
                    let v = via(r);
                    c.steps.push(Step { op: Op::Read { slot: 0, f, via: v }, faults: vec![], benign: if v == Via::File && r.chance(1, 5) { Some(benign(r)) } else { None } });
                    let e = history(r, &c.files, &Hist { len: 60, ..h });
                    let tiff = c.files[f as usize].img.fmt() == Fmt::Tiff;
                    let mut k = 0; let want = r.below(3);
                    for s in e { if k >= want { break; } match s.op { Op::Set { tag, .. } if !(tiff && tag.grp == 0 && gen::touchy(tag.hex)) => { k += 1; c.steps.push(Step::of(Op::Set { slot: 0, tag })); } Op::Remove { nr, grp, hex, all, .. } if !(tiff && grp == 0 && gen::touchy(hex)) => { k += 1; c.steps.push(Step::of(Op::Remove { slot: 0, nr, grp, hex, all })); } Op::Query { .. } => c.steps.push(Step::of(Op::Query { slot: 0 })), _ => {} } }
                    if r.chance(1, 4) { c.steps.push(Step::of(Op::Query { slot: 0 })); }
                    let w = if round > 0 || r.chance(1, 2) { v } else { via(r) };
                    c.steps.push(Step::of(Op::Write { slot: 0, f, via: w, ztxt: r.chance(1, 2) }));
                    c.steps.push(Step::of(Op::Read { slot: 1, f, via: w }));
                    if w != v { break; }
                }
            } else {
                c.steps = history(r, &c.files, &h);
                if prop == "C05" { let s: Vec<(u8, Via)> = c.steps.iter().filter(|s| matches!(s.op, Op::Write { .. })).filter_map(|s| s.op.target()).collect(); if let Some((f, v)) = s.last() { if r.chance(1, 2) && *v == Via::File { c.steps.push(Step::of(Op::Restart)); } c.steps.push(Step::of(Op::Read { slot: 3, f: *f, via: *v })); } }
                if prop == "C12" { if let Some(s) = c.steps.iter().rev().find(|s| matches!(s.op, Op::Write { .. })).cloned() { c.steps.push(s.clone()); c.steps.push(s); } }
                if prop == "C08" { let f = r.idx(c.files.len()) as u8; let v = via(r); for _ in 0..2 { c.steps.push(Step::of(Op::Clear { f, via: v })); } c.steps.push(Step::of(Op::Read { slot: 3, f, via: v })); }
            }
            vec![c]
        }
        "C09" => {
            let mut c = case(prop, String::new());
            let f = fmt_of(r, idx);
            let ex = if r.chance(1, 4) { Ex::Many } else { Ex::Maybe };
            let x = file(r, f, ex, 0, 12, idx % 25 == 0); c.files.push(x);
            if r.chance(1, 4) { let x = { let g = *r.pick(&img::FMTS); file(r, g, Ex::Maybe, 1, 8, false) }; c.files.push(x); }
            if r.chance(3, 10) { let d = damages(r, &c.files[0].bytes()); c.files[0].damage = d; }
            let h = Hist { clear: 18, seg: true, edit: 10, restart: false, benign_pct: 15, len: 2 + r.below(7), max_tags: 10, force_via: None, ztxt_only: true, repeat: 4 };
            c.steps = history(r, &c.files, &h);
            vec![c]
        }
        "C10" => {
            let mut c = case(prop, String::new());
            let f = fmt_of(r, idx);
            let ex = if r.chance(1, 4) { Ex::Many } else if r.chance(1, 6) { Ex::None } else { Ex::One };
            let x = file(r, f, ex, 0, 10, idx % 40 == 0); c.files.push(x);
            let b = c.files[0].bytes();
            match r.below(10) {
                0 => { let n = r.below(300); c.files[0].img = img::Image::Raw { fmt: f, data: Blob::C(vec![Blob::H(b[..b.len().min(r.idx(40))].to_vec()), Blob::fill(r, n)]) }; }
                1 => { let k = *r.pick(&[0usize, 1, 2, 3, 4, 8, 12]); c.files[0].img = img::Image::Raw { fmt: f, data: Blob::H(b[..b.len().min(k)].to_vec()) }; }
                2 if r.chance(1, 2) => { let g = *r.pick(&img::FMTS); let y = file(r, g, Ex::One, 0, 6, false); c.files[0].img = img::Image::Raw { fmt: f, data: Blob::H(y.bytes()) }; c.files[0].damage = damages(r, &b); }
                3 => { let t = self_ref(r); let o = img::GenOpt { exif: Some(Blob::H(t)), extra: vec![], big: false }; if f != Fmt::Tiff { c.files[0].img = img::gen(r, f, &o); } else { c.files[0].img = img::Image::Raw { fmt: f, data: o.exif.unwrap() }; } }
                4 if r.chance(1, 60) => { let d = if f == Fmt::Heif && r.chance(1, 2) { heif_overlaps(r) } else { let t = overlaps(r, f == Fmt::Jpeg); let o = img::GenOpt { exif: Some(Blob::H(t)), extra: vec![], big: false }; if f == Fmt::Tiff { o.exif.unwrap().bytes() } else { img::gen(r, f, &o).build() } }; c.files[0].img = img::Image::Raw { fmt: f, data: Blob::H(d) }; }
                4 if r.chance(1, 40) => {
                    use crate::fmt_png::Chunk;
                    match &mut c.files[0].img {
                        img::Image::Png(s) => { let at = 1 + r.idx(s.chunks.len() - 1); let b = Blob::Bomb { brotli: false }; s.chunks.insert(at, match r.below(4) { 0 => Chunk::Raw { ty: "zTXt".into(), data: Blob::C(vec![Blob::h(b"Raw profile type exif\0\0"), b]) }, 1 => Chunk::Raw { ty: "iTXt".into(), data: Blob::C(vec![Blob::h(b"XML:com.adobe.xmp\0\x01\0\0\0"), b]) }, 2 => Chunk::Raw { ty: "iTXt".into(), data: Blob::C(vec![Blob::h(b"Raw profile type exif\0\x01\0\0\0"), b]) }, _ => Chunk::Raw { ty: "zTXt".into(), data: Blob::C(vec![Blob::h(b"XML:com.adobe.xmp\0\0"), b]) } }); }
                        img::Image::Jxl(crate::fmt_jxl::Spec::Boxes { boxes }) => { let at = 1 + r.idx(boxes.len()); boxes.insert(at, crate::fmt_jxl::JBox::Raw { ty: "brob".into(), data: Blob::C(vec![Blob::h(if r.chance(3, 4) { b"Exif" } else { b"xml " }), Blob::Bomb { brotli: true }]), form: 0 }); }
                        _ => {}
                    }
                }
                4..=7 => { match gen::mangle(r, &c.files[0].img) { Some(i) => c.files[0].img = i, None => c.files[0].damage = damages(r, &b) } if r.chance(1, 8) { let b = c.files[0].bytes(); c.files[0].damage = damages(r, &b); } }
                _ => { let d = damages(r, &b); c.files[0].damage = d; }
            }
            let clean = file(r, if f == Fmt::Tiff { Fmt::Jpeg } else { f }, Ex::Maybe, 1, 4, false); c.files.push(clean);
            let v = via(r);
            c.steps.push(Step::of(Op::Read { slot: 0, f: 0, via: v }));
            if r.chance(1, 3) { c.steps.push(Step::of(Op::Query { slot: 0 })); c.steps.push(Step::of(Op::Write { slot: 0, f: 1, via: v, ztxt: true })); c.steps.push(Step::of(Op::Read { slot: 2, f: 1, via: v })); }
            if r.chance(1, 4) { c.steps.push(Step::of(Op::Write { slot: 0, f: 0, via: v, ztxt: true })); }
            let m = fresh(r, 5);
            c.steps.push(Step::of(Op::New { slot: 1, meta: m }));
            let w = via(r);
            let mut ops = vec![Op::Write { slot: 1, f: 0, via: w, ztxt: true }, Op::Clear { f: 0, via: via(r) }];
            if f == Fmt::Jpeg { ops.push(Op::ClearSeg { f: 0, via: via(r), seg: 12 + r.below(2) as u8 }); }
            if r.chance(1, 2) { ops.reverse(); }
            for o in ops { c.steps.push(Step::of(o)); }
            c.steps.push(Step::of(Op::Read { slot: 2, f: 0, via: via(r) }));
            // the file changes while it is being worked on
            if r.chance(1, 4) {
                let l = b.len() as u64;
                for s in c.steps.iter_mut() { if matches!(s.op.target(), Some((_, Via::File))) && r.chance(1, 2) {
                    let at = r.below(24) as u32;
                    let kind = match r.below(4) { 0 => FaultKind::Cut(r.below(l + 1) as u32), 1 => { let n = r.idx(80); FaultKind::Swap(r.bytes(n)) }, 2 => { let mut y = b.clone(); let d = damages(r, &y); for x in d { x.apply(&mut y); } FaultKind::Swap(y) }, _ => FaultKind::Poke(r.below(l + 1) as u32, r.next() as u8) };
                    s.faults.push(Fault { at, kind });
                } }
            } else if r.chance(1, 6) { for s in c.steps.iter_mut() { if matches!(s.op.target(), Some((_, Via::File))) && r.chance(1, 2) { s.benign = Some(benign(r)); } } }
            vec![c]
        }
        "C11" => {
            let mut c = case(prop, String::new());
            let n = 2 + r.idx(3);
            let shared = r.chance(1, 3);
            // all callers do the same kind of thing to the same kind of image that holds other metadata
            let alike = !shared && r.chance(2, 3);
            for i in 0..n { let f = if i == 0 { fmt_of(r, idx) } else { *r.pick(&img::FMTS) }; let e = if shared || alike && r.chance(3, 4) { Ex::One } else { Ex::Maybe }; c.files.push(file(r, f, e, i, 8, false)); }
            if alike { for i in 1..n { c.files[i].img = gen::other_metadata(r, &c.files[0].img); c.files[i].name = gen::name(r, c.files[0].img.fmt(), i); } }
            if r.chance(1, 2) { for i in 0..n { let f = c.files[i].img.fmt(); let f = if r.chance(5, 6) { f } else { *r.pick(&img::FMTS) }; c.files[i].before = Some(file(r, f, Ex::One, i, 4, false).img); } }
            // unrelated operations beforehand, some of which fail
            for _ in 0..r.below(4) {
                if r.chance(1, 4) {
                    let f = r.idx(n) as u8;
                    c.steps.push(Step::of(Op::New { slot: 7, meta: fresh(r, 3) }));
                    c.steps.push(Step::of(Op::Write { slot: 7, f, via: via(r), ztxt: true }));
                    continue;
                }
                let f = r.idx(n) as u8;
                let mut s = Step::of(match r.below(3) { 0 => Op::Read { slot: 5, f, via: via(r) }, 1 => Op::Clear { f, via: via(r) }, _ => Op::Read { slot: 6, f, via: Via::File } });
                if r.chance(1, 2) { s.faults.push(Fault { at: r.below(12) as u32, kind: r.pick(&[FaultKind::Err(sys::EIO), FaultKind::Crash, FaultKind::Err(sys::ENOSPC)]).clone() }); }
                c.steps.push(s);
            }
            for i in 0..n {
                let mut t: Vec<Step> = vec![];
                if shared && (i == 0 || r.chance(2, 3)) {
                    for _ in 0..1 + r.below(3) { t.push(Step::of(Op::Read { slot: 0, f: 0, via: Via::File })); }
                    c.threads.push(t); continue;
                }
                let sub = vec![c.files[i].clone()];
                let h = Hist { clear: 14, seg: true, edit: 10, restart: false, benign_pct: 20, len: 2 + r.below(4), max_tags: 6, force_via: if r.chance(3, 4) { Some(Via::File) } else { None }, ztxt_only: true, repeat: 2 };
                let force = if shared && i == 0 { continue } else if alike && i > 0 && r.chance(2, 3) { c.threads[0].clone() } else { history(r, &sub, &h) };
                if alike && i == 0 && r.chance(1, 2) { t.push(Step::of(Op::Read { slot: 4, f: 0, via: via(r) })); }
                for mut s in force {
                    match &mut s.op { Op::Read { f, .. } | Op::Write { f, .. } | Op::Clear { f, .. } | Op::ClearSeg { f, .. } => *f = i as u8, _ => {} }
                    t.push(s);
                }
                c.threads.push(t);
            }
            let mut v = vec![];
            c.rounds = 8; c.sched_seed = r.below(1 << 32); c.twin = r.chance(1, 2); v.push(c);
            v
        }
        "C15" => crate::kind::cases(r, idx),
        "C16" | "C17" => crate::api::cases(prop, r, idx),
        _ => vec![],
    };
    for (k, c) in v.iter_mut().enumerate() { c.origin = format!("{prop} seed {seed} scenario {idx} variant {k}"); }
    v
}

/// EXIF structures that refer to the same bytes over and over: small, but together they describe a lot of data
fn overlaps(r: &mut Rng, small: bool) -> Vec<u8> {
    let kind = if small { r.below(2) } else { r.below(3) };
    let n = *r.pick(if small { &[50u32, 1000, 5000][..] } else { &[300, 5000, 5000, 20000, 60000] });
    if kind == 2 {
        // directories that share nearly all of their entries
        let (b, k, c) = (0x10000u32, 100 + r.below(5200) as u32, 5300u32);
        let mut o = b"II\x2a\0".to_vec(); o.extend(b.to_le_bytes()); o.resize(b as usize, 0); o.extend((c as u16).to_le_bytes());
        for j in 0..c + k { let (tag, fmt) = if j >= c { let i = j - c + 1; if i < k { ((12 * i) as u16, 1u16) } else { (0, 0) } } else { (0xc000 | j as u16, 1) }; o.extend(tag.to_le_bytes()); o.extend(fmt.to_le_bytes()); o.extend(1u32.to_le_bytes()); o.extend([7, 0]); o.extend((c as u16).to_le_bytes()); }
        return o;
    }
    let be = r.chance(1, 2);
    let w = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let l = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if be { b"MM\0\x2a".to_vec() } else { b"II\x2a\0".to_vec() }; o.extend(l(8));
    if kind == 0 {
        // tags
        let size = 14 + 12 * n; let t = *r.pick(&[1u16, 7, 2, 3, 4, 5, 12]); let u = model::type_size(t) as u32;
        o.extend(w(n as u16));
        for j in 0..n { let at = 8 + r.below(16) as u32; o.extend(w(if r.chance(1, 8) { 0x010e } else { 0xc000 | (j & 0x3fff) as u16 })); o.extend(w(t)); o.extend(l((size - at) / u)); o.extend(l(at)); }
        o.extend(l(0));
    } else {
        // strips
        let size = 38 + 8 * n;
        o.extend(w(2));
        for (h, at) in [(0x0111u16, 38), (0x0117, 38 + 4 * n)] { o.extend(w(h)); o.extend(w(4)); o.extend(l(n)); o.extend(l(at)); }
        o.extend(l(0));
        for _ in 0..n { o.extend(l(8)); } for _ in 0..n { o.extend(l(size - 8)); }
    }
    o
}
/// an item made of the same bytes over and over
fn heif_overlaps(r: &mut Rng) -> Vec<u8> {
    let bx = |n: &[u8; 4], d: &[u8]| { let mut o = (d.len() as u32 + 8).to_be_bytes().to_vec(); o.extend(n); o.extend(d); o };
    let full = |n: &[u8; 4], v: u8, d: &[u8]| { let mut x = vec![v, 0, 0, 0]; x.extend(d); bx(n, &x) };
    let infe = |id: u16, t: &[u8; 4]| { let mut x = id.to_be_bytes().to_vec(); x.extend([0, 0]); x.extend(t); x.push(0); full(b"infe", 2, &x) };
    let n = *r.pick(&[100u16, 5000, 60000]); let size = *r.pick(&[1000u32, 60000, 700_000]); let idat = r.chance(1, 3);
    let mut iinf = vec![0, 2]; iinf.extend(infe(1, b"hvc1")); iinf.extend(infe(2, b"Exif"));
    let build = |at: u32| {
        let mut iloc = vec![0x44, 0, 0, 2];
        for (id, m, k) in [(1u16, 0u16, 1u16), (2, idat as u16, n)] { iloc.extend(id.to_be_bytes()); iloc.extend(m.to_be_bytes()); iloc.extend([0, 0]); iloc.extend(k.to_be_bytes()); for _ in 0..k { iloc.extend((if m == 1 { 0 } else { at }).to_be_bytes()); iloc.extend((if k == 1 { 40 } else { size }).to_be_bytes()); } }
        let mut m = full(b"hdlr", 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
        m.extend(full(b"pitm", 0, &[0, 1])); m.extend(full(b"iinf", 0, &iinf)); m.extend(full(b"iloc", 1, &iloc));
        if idat { m.extend(bx(b"idat", &vec![0; size as usize])); }
        let mut o = bx(b"ftyp", b"heic\0\0\0\0mif1heic"); o.extend(full(b"meta", 0, &m)); let p = o.len() as u32 + 8; o.extend(bx(b"mdat", &vec![0; if idat { 40 } else { size as usize }])); (o, p)
    };
    let p = build(0).1; build(p).0
}

/// EXIF structures whose directories refer to themselves or to each other
fn self_ref(r: &mut Rng) -> Vec<u8> {
    let be = r.chance(1, 2);
    let u16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let u32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut o = if be { b"MM\0\x2a".to_vec() } else { b"II\x2a\0".to_vec() };
    o.extend(u32(8));
    let dirs = 1 + r.below(3) as u32;
    let pos = |d: u32| 8 + d * 42;
    for _ in 0..dirs {
        o.extend(u16(3));
        for _ in 0..3 {
            let k = r.below(6);
            let (h, t, c, val) = match k { 0 => (0x8769u16, 4u16, 1u32, pos(r.below(dirs as u64) as u32)), 1 => (0x8825, 4, 1, pos(r.below(dirs as u64) as u32)), 2 => (0xa005, 4, 1, pos(r.below(dirs as u64) as u32)), 3 => (0x010e, 2, *r.pick(&[0u32, 1, 5, 0x7fffffff, 0xffffffff]), 8), 4 => (0x0111, 4, *r.pick(&[1u32, 2, 0x3fffffff]), 8), _ => (*r.pick(&[0x0117u16, 0x0201, 0x0202, 0x0005, 0x9000]), *r.pick(&[1u16, 3, 4, 7]), *r.pick(&[0u32, 1, 1, 0x10000000]), *r.pick(&[0u32, 8, 0xffffffff, 0x40000000])) };
            o.extend(u16(h)); o.extend(u16(t)); o.extend(u32(c)); o.extend(u32(val));
        }
        let link = if r.chance(1, 2) { pos(r.below(dirs as u64) as u32) } else { 0 };
        o.extend(u32(link));
    }
    o
}

pub fn judge(c: &Case) -> (Option<Violation>, Stats) {
    let mut st = Stats::default();
    st.hash = crate::rng::FNV0;
    let v = match c.prop.as_str() {
        "C01" => io::c01(c, &mut st), "C02" => io::c02(c, &mut st), "C03" => io::c03(c, &mut st), "C04" => io::c04(c, &mut st),
        "C09" => io::c09(c, &mut st), "C10" => io::c10(c, &mut st), "C11" => io::c11(c, &mut st),
        "C05" | "C06" | "C07" | "C08" | "C12" | "C13" => hist::judge(c, &mut st),
        "C15" => crate::kind::judge(c, &mut st),
        "C16" | "C17" => crate::api::judge(c, &mut st),
        _ => None,
    };
    if !c.prop.starts_with("C05") { for f in &c.files { for d in &f.damage { st.fault(d.name()); } } }
    let _: Option<Switch> = None;
    (v, st)
}
