//! Judging histories: the reference model is advanced along with the library and everything observable is compared.
use std::collections::BTreeMap;

use crate::case::{Case, Op, Via};
use crate::exec::{self, diff_bytes, Mach, Res, Stats, Violation};
use crate::gen::touchy;
use crate::img::{self, Fmt, Parsed};
use crate::lut::Metadata;
use crate::model::{self, Layout, MMeta, MV};
use crate::sys;

#[derive(Clone, Debug)]
pub enum Expect { Unknown, None, Some(MMeta) }

struct Place { fmt: Fmt, parsed: Parsed, parts: Vec<(String, Vec<u8>)>, issues: Vec<String>, expect: Expect, cleared: Option<Vec<u8>>, written: Option<(usize, Vec<u8>, bool)>, last_md: Option<(Metadata, bool)>, orig: Vec<u8>, orig_slack: usize }

/// EXIF data of a file that the library is meant to read: not the properties inside XMP
fn readable(p: &Parsed) -> Vec<&img::Carrier> { p.exif.iter().filter(|c| c.readable()).collect() }

pub fn expect_of(p: &Parsed) -> Expect {
    let c = readable(p);
    match c.len() { 0 => Expect::None, 1 => match model::decode(&c[0].tiff) { Ok(d) => Expect::Some(d.meta.canon()), Err(_) => Expect::Unknown }, _ => Expect::Unknown }
}
/// What a HEIF or TIFF image keeps when its metadata is cleared
pub fn kept(f: Fmt, nr: u32, g: u8, h: u16) -> bool {
    match f { Fmt::Heif => g == 0 && matches!(h, 0x0112 | 0x011a | 0x011b | 0x0128), Fmt::Tiff => { let _ = nr; g == 0 && (touchy(h) || matches!(h, 0x0107..=0x0109 | 0x012d | 0x014c..=0x0156)) } _ => false }
}
fn unmovable(m: &MMeta) -> bool { m.ifds.iter().any(|(k, d)| k.1 == 0 && d.keys().any(|h| model::is_position(*h))) }
pub fn fits(f: Fmt, m: &MMeta) -> bool {
    match f {
        Fmt::Jpeg => {
            // with the directories that lead to the others
            let mut m = m.clone();
            let ks: Vec<_> = m.ifds.keys().cloned().collect();
            for (n, g) in ks { if g == model::INTEROP { m.ifds.entry((n, model::EXIF)).or_default(); } m.ifds.entry((n, model::GENERIC)).or_default(); }
            model::encode(&m, &Layout::default()).len() < 65_300
        }
        // tiles and further directories of a page cannot be carried over
        Fmt::Tiff => !unmovable(m) && [0x100u16, 0x101, 0x103, 0x106, 0x111, 0x116, 0x117, 0x11a, 0x11b, 0x128].iter().all(|h| m.ifds.get(&(0, 0)).map(|d| d.contains_key(h)).unwrap_or(false)),
        _ => true,
    }
}
pub fn parts_diff(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> Option<String> {
    if a == b { return None; }
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => continue,
            (Some(x), Some(y)) if x.0 == y.0 => return Some(format!("part {i} '{}' changed: {} ({} -> {})", x.0, diff_bytes(&x.1, &y.1), model::short(&x.1), model::short(&y.1))),
            (Some(x), Some(y)) => return Some(format!("part {i}: '{}' became '{}' ({} parts before, {} now)", x.0, y.0, a.len(), b.len())),
            (Some(x), None) => return Some(format!("part {i} '{}' is gone", x.0)),
            (None, Some(y)) => return Some(format!("additional part {i} '{}'", y.0)),
            _ => {}
        }
    }
    None
}
/// the place of an earlier Exif item may be used again, wherever it is
const OUTSIDE: &str = "(Exif) is not inside an mdat box";
/// an image sequence: its moov box names positions in the file
pub fn sequence(p: &Parsed) -> bool { p.parts.iter().any(|x| x.0.starts_with("chunk of moov")) }
fn only_empty(m: &MMeta) -> bool { m.canon().ifds.is_empty() }

pub fn judge(case: &Case, st: &mut Stats) -> Option<Violation> {
    let prop = case.prop.as_str();
    let is = |p: &str| prop == p;
    let v = |what: String| Some(Violation { prop: prop.into(), what });
    sys::install(exec::world(case));
    let mut m = Mach::new(case);
    let mut slots: Vec<Option<MMeta>> = vec![None; 8];
    let mut places: BTreeMap<(u8, u8), Place> = BTreeMap::new();
    for (i, f) in case.files.iter().enumerate() {
        let fmt = f.img.fmt();
        let b = f.bytes();
        let p = match img::parse(fmt, &b) { Ok(p) => p, Err(_) => { st.count("skipped:not-wellformed"); return None; } };
        for via in [0u8, 1] {
            places.insert((i as u8, via), Place { fmt, parts: p.parts.clone(), issues: p.issues.clone(), expect: expect_of(&p), parsed: p.clone(), cleared: None, written: None, last_md: None, orig: b.clone(), orig_slack: if p.shared { usize::MAX } else { p.slack } });
        }
        st.count(format!("format:{}", fmt.name()));
    }
    let (mut wrote, mut read_back) = (0, 0);
    let mut prov: [Option<u8>; 8] = [None; 8];
    let mut ver = [0usize; 8];
    for (k, s) in case.steps.iter().enumerate() {
        let at = format!("step {k} ({})", s.op.name());
        let tgt = s.op.target().map(|(f, via)| (f, if via == Via::File { 0u8 } else { 1 }));
        let via = s.op.target().map(|x| x.1).unwrap_or(Via::Vec);
        let before = s.op.target().map(|(f, via)| m.content(f, via));
        // an operation on an empty slot says nothing
        if let Op::Set { slot, .. } | Op::Remove { slot, .. } | Op::Query { slot } | Op::Copy { from: slot, .. } | Op::Write { slot, .. } = &s.op { if m.slots[*slot as usize].is_none() || slots[*slot as usize].is_none() { continue; } }
        // a TIFF image is described by its own metadata alone
        if let Op::Write { slot, f, .. } = &s.op { if case.files[*f as usize].img.fmt() == Fmt::Tiff && prov[*slot as usize] != Some(*f) { continue; } }
        let o = m.step(s, st);
        match &s.op {
            Op::New { slot, .. } => { prov[*slot as usize] = None; ver[*slot as usize] = k + 1; }
            Op::Read { slot, f, .. } if o.res.ok() => { prov[*slot as usize] = if case.files[*f as usize].img.fmt() == Fmt::Tiff { Some(*f) } else { None }; ver[*slot as usize] = k + 1; }
            Op::Set { slot, .. } | Op::Remove { slot, .. } => ver[*slot as usize] = k + 1,
            Op::Copy { from, to } => { prov[*to as usize] = prov[*from as usize]; ver[*to as usize] = ver[*from as usize]; }
            Op::Restart => prov = [None; 8],
            _ => {}
        }
        let whr = tgt.map(|t| format!("{} of {} image through the {} interface", s.op.name(), places[&t].fmt.name(), if t.1 == 0 { "file" } else { "memory" }));
        if let Res::Panic(p) = &o.res { if is("C05") || is("C13") || is("C08") { return v(format!("{at}: PANIC ({p}){}", whr.map(|w| format!(" in {w}")).unwrap_or_default())); } }
        match &s.op {
            Op::New { slot, meta } => {
                let x = MMeta::from_spec(meta);
                if !o.res.ok() { if is("C05") { return v(format!("{at}: building metadata failed: {}", o.res.show())); } slots[*slot as usize] = None; m.slots[*slot as usize] = None; continue; }
                slots[*slot as usize] = Some(x);
            }
            Op::Set { slot, tag } => { if o.res.ok() { slots[*slot as usize].as_mut().unwrap().set(tag); } else if is("C05") { return v(format!("{at}: setting a tag failed: {}", o.res.show())); } }
            Op::Remove { slot, nr, grp, hex, all } => {
                let x = slots[*slot as usize].as_mut().unwrap();
                for (key, d) in x.ifds.iter_mut() { if key.1 == *grp && (*all || key.0 == *nr) { d.remove(hex); } }
            }
            Op::Query { .. } | Op::Ifd { .. } | Op::Reduce { .. } => {}
            Op::Copy { from, to } => slots[*to as usize] = slots[*from as usize].clone(),
            Op::Restart => { for x in slots.iter_mut() { *x = None; } let fs: Vec<u8> = (0..case.files.len() as u8).collect(); for f in fs { let p = &places[&(f, 0)]; let q = Place { fmt: p.fmt, parsed: p.parsed.clone(), parts: p.parts.clone(), issues: p.issues.clone(), expect: p.expect.clone(), cleared: p.cleared.clone(), written: p.written.clone(), last_md: p.last_md.clone(), orig: p.orig.clone(), orig_slack: p.orig_slack }; places.insert((f, 1), q); } }
            Op::Read { slot, f, .. } => {
                let t = tgt.unwrap(); let pl = &places[&t]; let whr = whr.unwrap();
                let checks = is("C05") || is("C13") || (is("C08") && pl.cleared.is_some());
                let now = m.content(*f, via);
                if is("C06") && Some(&now) != before.as_ref() { return v(format!("{at}: {whr} changed the image: {}", diff_bytes(before.as_ref().unwrap(), &now))); }
                if !o.res.ok() {
                    // a failed read leaves the slot as it was
                    if checks { if let Expect::Some(x) = &pl.expect { if !only_empty(x) { return v(format!("{at}: {whr} failed with {} although it holds metadata", o.res.show())); } } }
                    continue;
                }
                let d = match m.dump(*slot).unwrap() { Ok(d) => d, Err(e) => { if checks { return v(format!("{at}: {whr}: {e}")); } slots[*slot as usize] = None; m.slots[*slot as usize] = None; continue; } };
                match &pl.expect {
                    Expect::None => { if checks && !d.is_empty() { return v(format!("{at}: {whr} returned metadata although there is none: {}", MMeta::default().diff(&d, "the image", "the result", false).unwrap_or_default())); } }
                    Expect::Some(x) => { if checks { read_back += 1; if let Some(e) = x.diff(&d, "the image", "the result", true) { return v(format!("{at}: {whr}: {e}")); } } }
                    Expect::Unknown => { if checks { let c = readable(&pl.parsed); if !c.iter().any(|c| model::decode(&c.tiff).map(|y| y.meta.diff(&d, "", "", true).is_none()).unwrap_or(false)) && c.iter().all(|c| model::decode(&c.tiff).is_ok()) { return v(format!("{at}: {whr}: the result is none of the image's {} EXIF payloads", c.len())); } } }
                }
                slots[*slot as usize] = Some(match &pl.expect { Expect::Some(x) if checks => x.clone(), _ => d });
            }
            Op::Write { .. } | Op::Clear { .. } | Op::ClearSeg { .. } => {
                let t = tgt.unwrap(); let whr = whr.unwrap(); let (f, _) = t;
                let before = before.unwrap();
                let after = m.content(f, via);
                let pl = places.get_mut(&t).unwrap();
                let is_clear = matches!(s.op, Op::Clear { .. });
                let parsed = img::parse(pl.fmt, &after);
                if !o.res.ok() {
                    if (is("C06") || is("C12") || is("C13")) && after != before { return v(format!("{at}: {whr} failed ({}) but changed the image: {}", o.res.show(), diff_bytes(&before, &after))); }
                    let excuse = match &s.op {
                        // image sequences (positions in a moov box) may be refused
                        _ if sequence(&pl.parsed) => true,
                        Op::Write { slot, .. } => !fits(pl.fmt, slots[*slot as usize].as_ref().unwrap()),
                        Op::Clear { .. } => pl.parsed.exif.is_empty() || (pl.fmt == Fmt::Tiff && match &pl.expect { Expect::Some(x) => !fits(Fmt::Tiff, x), _ => false }),
                        _ => pl.fmt != Fmt::Jpeg,
                    };
                    if !excuse && (is("C05") || is("C13") || (is("C08") && !matches!(s.op, Op::Write { .. })) || (is("C12") && matches!(s.op, Op::Write { .. }))) { return v(format!("{at}: {whr} failed: {}", o.res.show())); }
                    if after != before { st.count("history-abandoned"); return None; }
                    continue;
                }
                wrote += 1;
                let p = match parsed { Ok(p) => p, Err(e) => { if is("C07") || is("C05") || is("C06") || is("C12") || is("C08") || is("C13") { return v(format!("{at}: {whr} succeeded but left an unreadable image: {e}")); } return None; } };
                if is("C07") {
                    for i in &p.issues { if !pl.issues.contains(i) && !(i.contains(OUTSIDE) && pl.issues.iter().any(|x| x.contains(OUTSIDE))) { return v(format!("{at}: {whr} left a file that violates the container's rules: {i}")); } }
                    for c in readable(&p) { if c.tiff.is_empty() && !matches!(s.op, Op::ClearSeg { .. }) { return v(format!("{at}: {whr} left an unreadable EXIF payload")); } }
                }
                // the picture and everything else that is not EXIF
                if let Op::ClearSeg { seg, .. } = &s.op { let n = format!("segment {:02x}", 0xe0 + seg); pl.parts.retain(|x| x.0 != n); }
                if is("C06") || (is("C08") && !matches!(s.op, Op::Write { .. })) || is("C13") { if let Some(e) = parts_diff(&pl.parts, &p.parts) { return v(format!("{at}: {whr} changed the image content: {e}")); } }
                match &s.op {
                    Op::Write { slot, .. } => {
                        let want = slots[*slot as usize].clone().unwrap();
                        let c = readable(&p);
                        if is("C12") && p.exif.len() != 1 { return v(format!("{at}: {whr} left {} EXIF payloads ({})", p.exif.len(), p.exif.iter().map(|c| c.kind.clone()).collect::<Vec<_>>().join(", "))); }
                        if is("C12") && p.slack > pl.orig_slack && pl.fmt != Fmt::Tiff { return v(format!("{at}: {whr} left {} unreferenced bytes ({} in the original)", p.slack, pl.orig_slack)); }
                        if is("C05") || is("C13") || is("C12") || is("C07") {
                            if c.len() != 1 { if is("C05") || is("C13") { return v(format!("{at}: {whr} succeeded but the image holds {} readable EXIF payloads", c.len())); } }
                            else { match model::decode(&c[0].tiff) {
                                Err(e) => if is("C05") || is("C07") || is("C13") { return v(format!("{at}: {whr}: an independent reader cannot decode what was stored: {e}")); },
                                Ok(d) => {
                                    if is("C07") || is("C05") { if let Some(i) = d.issues.first() { return v(format!("{at}: {whr} stored a malformed EXIF structure: {i}")); } }
                                    if !is("C07") { if let Some(e) = want.diff(&d.meta, "the metadata given", "the file", true) { return v(format!("{at}: {whr}: {e}")); } }
                                }
                            } }
                        }
                        if is("C12") { if let Some((w, b, z)) = &pl.written { if *w == ver[*slot as usize] && *b == before && zof(&s.op) == *z && *b != after && pl.cleared.is_none() { return v(format!("{at}: {whr}: writing the same metadata again changed the image: {}", diff_bytes(b, &after))); } } }
                        pl.expect = Expect::Some(want.canon());
                        pl.written = Some((ver[*slot as usize], after.clone(), zof(&s.op)));
                        pl.cleared = None;
                        pl.last_md = m.slots[*slot as usize].clone().map(|x| (x, zof(&s.op)));
                    }
                    Op::Clear { .. } => {
                        if is("C08") || is("C12") {
                            for c in &p.exif {
                                if pl.fmt == Fmt::Heif || pl.fmt == Fmt::Tiff {
                                    match model::decode(&c.tiff) {
                                        Ok(d) => for (key, dir) in &d.meta.ifds { for h in dir.keys() { if !kept(pl.fmt, key.0, key.1, *h) { return v(format!("{at}: {whr} left tag 0x{h:04x} of group {} in directory {}", key.1, key.0)); } } },
                                        Err(e) => if !c.tiff.is_empty() && is("C08") { return v(format!("{at}: {whr} left an undecodable EXIF payload: {e}")); },
                                    }
                                } else { return v(format!("{at}: {whr} left EXIF data behind: {}", c.kind)); }
                            }
                            if is("C08") { if let Some(b) = &pl.cleared { if *b == before && *b != after { return v(format!("{at}: {whr}: clearing again changed the image: {}", diff_bytes(b, &after))); } } }
                        }
                        if is("C08") {
                            if let Expect::Some(x) = &pl.expect { if pl.fmt == Fmt::Heif || pl.fmt == Fmt::Tiff {
                                // what is kept is kept unchanged
                                if let Expect::Some(y) = expect_of(&p) { for (key, dir) in &y.ifds { for (h, val) in dir { if x.ifds.get(key).and_then(|d| d.get(h)) != Some(val) { return v(format!("{at}: {whr} altered tag 0x{h:04x}")); } } } }
                            } }
                        }
                        pl.expect = match pl.fmt { Fmt::Heif | Fmt::Tiff => expect_of(&p), _ => Expect::None };
                        pl.cleared = Some(after.clone()); pl.written = None; pl.last_md = None;
                    }
                    _ => { pl.cleared = None; pl.written = None; pl.last_md = None; if is("C08") && after.len() > before.len() { return v(format!("{at}: {whr} made the file grow")); } }
                }
                let _ = is_clear;
                pl.parsed = p;
            }
        }
        // the metadata object itself follows the model
        if is("C05") || is("C13") {
            if let Op::New { slot, .. } | Op::Set { slot, .. } | Op::Remove { slot, .. } | Op::Query { slot } | Op::Copy { to: slot, .. } | Op::Write { slot, .. } = &s.op {
                if let (Some(x), Some(d)) = (&slots[*slot as usize], m.dump(*slot)) {
                    match d { Err(e) => return v(format!("{at}: {e}")), Ok(d) => if let Some(e) = x.diff(&d, "the model", "the metadata object", true) { return v(format!("{at}: {e}")); } }
                }
            }
        }
    }
    // what is stored depends on the picture and the last write alone
    if is("C12") {
        for (key, pl) in &places {
            let Some((md, z)) = &pl.last_md else { continue };
            if pl.parsed.exif.is_empty() { continue; }
            let now = m.content(key.0, if key.1 == 0 { Via::File } else { Via::Vec });
            let mut direct = pl.orig.clone();
            if case.steps.iter().any(|s| matches!(s.op, Op::ClearSeg { .. })) { continue; }
            let r = crate::lut::guarded(|| crate::lut::write_vec(md, &mut direct, pl.fmt, *z));
            if let Ok(Ok(())) = r { if pl.fmt == Fmt::Tiff { continue; } if direct.len() != now.len() { return v(format!("after the history the {} image ({}) has {} bytes, but writing the same metadata to the original gives {}", pl.fmt.name(), if key.1 == 0 { "file" } else { "memory" }, now.len(), direct.len())); } }
        }
    }
    if is("C08") {
        // writing and clearing in any order ends where clearing the original ends
        for (key, pl) in &places {
            let Some(after) = &pl.cleared else { continue };
            if pl.fmt == Fmt::Tiff || case.steps.iter().any(|s| matches!(s.op, Op::ClearSeg { .. })) { continue; }
            let mut direct = pl.orig.clone();
            let had = img::parse(pl.fmt, &direct).map(|p| !p.exif.is_empty()).unwrap_or(false);
            if let Ok(Ok(())) = crate::lut::guarded(|| crate::lut::clear_vec(&mut direct, pl.fmt)) { if had {
                if let (Ok(a), Ok(b)) = (img::parse(pl.fmt, &direct), img::parse(pl.fmt, after)) { if let Some(e) = parts_diff(&a.parts, &b.parts) { return v(format!("clearing at the end of the history differs from clearing the original {} image ({}): {e}", pl.fmt.name(), key.0)); } }
            } }
        }
    }
    st.nontrivial = wrote > 0 || read_back > 0;
    exec::finish(st);
    let _ = MV::Thumb(vec![]);
    None
}
fn zof(op: &Op) -> bool { if let Op::Write { ztxt, via, .. } = op { *ztxt || *via == Via::File } else { true } }
