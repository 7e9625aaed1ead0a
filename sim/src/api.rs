//! Judging metadata objects as such: that they behave as maps of tags (C16) and what they are encoded to (C17).
use std::collections::BTreeMap;

use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::endian::Endian;

use crate::case::{Case, Op, Step, Via};
use crate::exec::{self, Mach, Res, Stats, Violation};
use crate::gen::{self, benign, case, damages, file, fmt_of, history, Ex, Hist};
use crate::hist;
use crate::img::{self, Fmt};
use crate::lut::{self, Metadata};
use crate::model::{self, gen_tag, MMeta, MV};
use crate::rng::Rng;
use crate::sys::{self, Fault, FaultKind};

pub fn cases(prop: &str, r: &mut Rng, idx: u64) -> Vec<Case> {
    let mut c = case(prop, String::new());
    for i in 0..1 + r.idx(2) {
        let f = if i == 0 { fmt_of(r, idx) } else { *r.pick(&img::FMTS) };
        let max = 1 + r.below(20);
        c.files.push(file(r, f, Ex::One, i, max, false));
    }
    // objects from damaged files are objects as well
    if r.chance(1, 6) { let d = damages(r, &c.files[0].bytes()); c.files[0].damage = d; }
    let h = Hist { clear: 4, seg: false, edit: 44, restart: false, benign_pct: 15, len: 4 + r.below(14), max_tags: 14, force_via: None, ztxt_only: false, repeat: 0 };
    let steps = history(r, &c.files, &h);
    let mut live: Vec<u8> = vec![];
    for mut s in steps {
        match &mut s.op {
            Op::New { slot, .. } | Op::Read { slot, .. } => { if !live.contains(slot) { live.push(*slot); } }
            Op::Copy { to, .. } => { if !live.contains(to) { live.push(*to); } }
            // several pages
            Op::Set { tag, .. } if tag.grp == 0 && r.chance(1, 4) => tag.nr = r.below(4) as u32,
            _ => {}
        }
        if matches!(s.op, Op::Read { via: Via::File, .. }) && r.chance(1, 5) { s.faults.push(Fault { at: r.below(12) as u32, kind: FaultKind::Err(sys::EIO) }); }
        if matches!(s.op, Op::Read { via: Via::File, .. }) && r.chance(1, 4) { s.benign = Some(benign(r)); }
        let again = matches!(s.op, Op::Set { .. }) && r.chance(1, 3);
        let t = if let Op::Set { tag, slot } = &s.op { Some((tag.clone(), *slot)) } else { None };
        c.steps.push(s);
        // another value of the same tag
        if let (true, Some((t, slot))) = (again, &t) { for _ in 0..40 { let mut x = gen_tag(r, t.nr, t.grp); if x.hex == t.hex || r.chance(1, 30) { x.hex = t.hex; if model::std_type(x.grp, x.hex).is_some() { if let (MV::Raw(a, _), Some(b)) = (&x.v, model::std_type(x.grp, x.hex)) { if *a != b { continue; } } } c.steps.push(Step::of(Op::Set { slot: *slot, tag: x })); break; } } }
        if !live.is_empty() && r.chance(1, 9) { let slot = *r.pick(&live); c.steps.push(Step::of(Op::Ifd { slot, nr: r.below(4) as u32, grp: r.below(4) as u8 })); }
        if !live.is_empty() && r.chance(1, 24) { let slot = *r.pick(&live); c.steps.push(Step::of(Op::Reduce { slot })); }
    }
    vec![c]
}

type Keys = BTreeMap<(u32, u8), Vec<u16>>;
fn keys(m: &MMeta) -> Keys { m.ifds.iter().map(|(k, d)| (*k, d.keys().cloned().collect())).collect() }
fn listing(m: &Metadata) -> Vec<(u32, u8, &ExifTag)> { m.get_ifds().iter().flat_map(|i| i.get_tags().iter().map(move |t| (i.get_generic_ifd_nr(), lut::group_no(i.get_ifd_type()), t))).collect() }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn show(v: &[String]) -> String { v.iter().take(4).map(|x| x.chars().take(80).collect::<String>()).collect::<Vec<_>>().join("; ") }

/// Everything that can be asked agrees with what the directories hold.
fn consistent(m: &Metadata, d: &MMeta) -> Option<String> {
    let all = listing(m);
    // iteration
    let a = sorted(all.iter().map(|x| format!("{:?}", x.2)).collect());
    let b = sorted(m.into_iter().take(all.len() + 5).map(|t| format!("{t:?}")).collect());
    if a != b { return Some(format!("iterating yields {} tags [{}] but the directories hold {} [{}]", b.len(), show(&b), a.len(), show(&a))); }
    let max = d.ifds.keys().filter(|k| k.1 == 0).map(|k| k.0).max().unwrap_or(0);
    if m.get_max_generic_ifd_number() != max { return Some(format!("the highest directory is said to be {}, but it is {max}", m.get_max_generic_ifd_number())); }
    for nr in 0..max + 3 { for g in 0..4u8 {
        let i = m.get_ifd(lut::group(g), nr);
        if i.is_some() != d.ifds.contains_key(&(nr, g)) { return Some(format!("directory {nr} of group {g} is {} found", if i.is_some() { "unexpectedly" } else { "not" })); }
        if let Some(i) = i { if i.get_generic_ifd_nr() != nr || lut::group_no(i.get_ifd_type()) != g { return Some(format!("asked for directory {nr} of group {g}, got {} of group {}", i.get_generic_ifd_nr(), lut::group_no(i.get_ifd_type()))); } }
    } }
    // by number, with and without group
    let mut hexes: Vec<u16> = all.iter().map(|x| x.2.as_u16()).collect();
    hexes.extend([0u16, 1, 0x010f, 0x9003, 0xfffe]);
    hexes.sort(); hexes.dedup();
    for h in hexes {
        for g in [None, Some(0u8), Some(1), Some(2), Some(3)] {
            let want = sorted(all.iter().filter(|x| x.2.as_u16() == h && g.map(|g| g == x.1).unwrap_or(true)).map(|x| format!("{:?}", x.2)).collect());
            let got = sorted(m.get_tag_by_hex(h, g.map(lut::group)).take(all.len() + 5).map(|t| format!("{t:?}")).collect());
            if want != got { return Some(format!("tag 0x{h:04x} of {}: found [{}], but there are [{}]", g.map(|g| format!("group {g}")).unwrap_or("any group".into()), show(&got), show(&want))); }
        }
    }
    for (nr, g, t) in &all {
        let tg = lut::group_no(t.get_group());
        let want = sorted(all.iter().filter(|x| x.2.as_u16() == t.as_u16() && x.1 == tg).map(|x| format!("{:?}", x.2)).collect());
        let got = sorted(m.get_tag(t).take(all.len() + 5).map(|t| format!("{t:?}")).collect());
        if want != got { return Some(format!("asking for {} of directory {nr} group {g} finds [{}], but there are [{}]", format!("{t:?}").chars().take(60).collect::<String>(), show(&got), show(&want))); }
        if let Some(e) = value(t) { return Some(format!("{}: {e}", format!("{t:?}").chars().take(90).collect::<String>())); }
    }
    None
}
/// A tag's own account of its value agrees with itself in both byte orders.
fn value(t: &ExifTag) -> Option<String> {
    if matches!(t, ExifTag::StripOffsets(..) | ExifTag::ThumbnailOffset(..)) { return None; }
    let ty = t.format().as_u16();
    let (le, be) = (t.value_as_u8_vec(&Endian::Little), t.value_as_u8_vec(&Endian::Big));
    if model::swap(ty, &le, true) != be { return Some(format!("its value is {} in little-endian but {} in big-endian bytes", model::short(&le), model::short(&be))); }
    if t.is_string() != matches!(t.format(), ExifTagFormat::STRING) { return Some(format!("is of format {:?}, yet is_string is {}", t.format(), t.is_string())); }
    let n = t.number_of_components() as usize * model::type_size(ty);
    // a tag without a value names the number of components the specification gives for it
    let predefined = le.is_empty() && ExifTag::from_u16(t.as_u16(), &t.get_group()).map(|e| e.number_of_components() == t.number_of_components()).unwrap_or(false);
    if n != le.len() && !predefined && !(ty == 2 && n == le.len() + 1) { return Some(format!("claims {} components of {} bytes but has {} bytes", t.number_of_components(), model::type_size(ty), le.len())); }
    if t.format().bytes_per_component() as usize != model::type_size(ty) { return Some(format!("claims {} bytes per component", t.format().bytes_per_component())); }
    None
}

pub fn judge(case: &Case, st: &mut Stats) -> Option<Violation> {
    let v = |what: String| Some(Violation { prop: case.prop.clone(), what });
    let map = case.prop == "C16";
    sys::install(exec::world(case));
    let mut m = Mach::new(case);
    let mut model: Vec<Option<MMeta>> = vec![None; 8];
    // which objects came out of intact images or were put together by the program
    let mut sound = [true; 8];
    for (k, s) in case.steps.iter().enumerate() {
        let at = format!("step {k} ({})", s.op.name());
        let slot = match &s.op { Op::New { slot, .. } | Op::Set { slot, .. } | Op::Remove { slot, .. } | Op::Query { slot } | Op::Read { slot, .. } | Op::Write { slot, .. } | Op::Ifd { slot, .. } | Op::Reduce { slot } => Some(*slot), Op::Copy { to, .. } => Some(*to), _ => None };
        if let Op::Set { slot, .. } | Op::Remove { slot, .. } | Op::Query { slot } | Op::Copy { from: slot, .. } | Op::Write { slot, .. } | Op::Ifd { slot, .. } | Op::Reduce { slot } = &s.op { if model[*slot as usize].is_none() { continue; } }
        let o = m.step(s, st);
        if let Res::Panic(p) = &o.res { if sound.iter().all(|x| *x) { return v(format!("{at}: PANIC ({p})")); } return None; }
        match &s.op {
            Op::New { slot, meta } => {
                if !o.res.ok() { return v(format!("{at}: building metadata failed: {}", o.res.show())); }
                let mut x = MMeta::from_spec(meta); x.be = false;
                model[*slot as usize] = Some(x); sound[*slot as usize] = true;
            }
            Op::Set { slot, tag } => { if !o.res.ok() { return v(format!("{at}: setting a tag failed: {}", o.res.show())); } model[*slot as usize].as_mut().unwrap().set(tag); st.nontrivial = true; }
            Op::Remove { slot, nr, grp, hex, all } => {
                let x = model[*slot as usize].as_mut().unwrap();
                let max = x.ifds.keys().filter(|k| k.1 == 0).map(|k| k.0).max().unwrap_or(0);
                let mut n = 0;
                for (key, d) in x.ifds.iter_mut() { if key.1 == *grp && (*all || key.0 == *nr) { d.remove(hex); if key.0 <= max { n += 1; } } }
                if let (true, true, Some(c)) = (map, *all, m.removed.take()) { if c != n { return v(format!("{at}: removing tag 0x{hex:04x} claims to have looked into {c} directories, there are {n}")); } }
                st.nontrivial = true;
            }
            Op::Ifd { slot, nr, grp } => {
                let x = model[*slot as usize].as_mut().unwrap();
                x.ifds.entry((*nr, *grp)).or_default();
                if *grp == 2 { x.ifds.entry((*nr, 1)).or_default(); }
                if *grp != 0 { x.ifds.entry((*nr, 0)).or_default(); }
            }
            Op::Reduce { slot } => {
                let x = model[*slot as usize].as_mut().unwrap();
                let Some(Ok(d)) = m.dump(*slot) else { return v(format!("{at}: the object is broken")) };
                // nothing added, nothing changed; what describes the picture stays, what describes the photograph goes
                for (key, dir) in &d.ifds { if key.1 != 0 { return v(format!("{at}: left the directory {} of group {}", key.0, key.1)); } for h in dir.keys() { if x.ifds.get(key).map(|y| !y.contains_key(h)).unwrap_or(true) { return v(format!("{at}: tag 0x{h:04x} came into being")); } if !hist::kept(Fmt::Tiff, key.0, 0, *h) && !matches!(h, 0x0201 | 0x0202 | 0x0203 | 0x0205 | 0x0206 | 0x0200 | 0x010a | 0x014a) { return v(format!("{at}: left tag 0x{h:04x} in directory {}", key.0)); } } }
                x.ifds.retain(|k, _| k.1 == 0);
                for (key, dir) in x.ifds.iter_mut() { let left = d.ifds.get(key); dir.retain(|h, _| gen::touchy(*h) || left.map(|l| l.contains_key(h)).unwrap_or(false)); }
            }
            Op::Copy { from, to } => { model[*to as usize] = model[*from as usize].clone(); sound[*to as usize] = sound[*from as usize]; }
            Op::Read { slot, f, .. } if o.res.ok() => {
                match m.dump(*slot) {
                    Some(Ok(d)) => { model[*slot as usize] = Some(d); sound[*slot as usize] = case.files[*f as usize].damage.is_empty(); }
                    Some(Err(e)) => { if map && case.files[*f as usize].damage.is_empty() { return v(format!("{at}: {e}")); } return None; }
                    None => {}
                }
            }
            Op::Restart => { for x in model.iter_mut() { *x = None; } }
            _ => {}
        }
        // every object is what it should be, whatever was done to the others
        if map {
            for i in 0..8u8 {
                let Some(want) = &model[i as usize] else { continue };
                let d = match m.dump(i) { Some(Ok(d)) => d, Some(Err(e)) => return v(format!("{at}: object {i}: {e}")), None => return v(format!("{at}: object {i} is gone")) };
                if let Some(e) = want.diff(&d, "the history", "the object", true) { return v(format!("{at}: object {i}{}: {e}", if Some(i) == slot { "" } else { " (which the operation does not concern)" })); }
                if keys(want) != keys(&d) { return v(format!("{at}: object {i} should have the directories {:?} but has {:?}", keys(want), keys(&d)).chars().take(600).collect()); }
            }
        }
        let Some(sl) = slot else { continue };
        let (Some(x), Some(want)) = (m.slots[sl as usize].as_ref(), model[sl as usize].as_ref()) else { continue };
        if map {
            if let Op::Set { tag, .. } = &s.op {
                if let Some(i) = x.get_ifd(lut::group(tag.grp), tag.nr) { let h: Vec<u16> = i.get_tags().iter().map(|t| t.as_u16()).collect(); if h.windows(2).any(|w| w[0] >= w[1]) { return v(format!("{at}: the tags of the directory are not in ascending order: {h:04x?}")); } }
            }
            if k % 2 == 0 || k + 1 == case.steps.len() { match lut::guarded(|| consistent(x, want)) { Ok(Some(e)) => return v(format!("{at}: {e}")), Ok(None) => {} Err(p) => return v(format!("{at}: PANIC while asking for the tags ({p})")) } }
        } else if sound[sl as usize] {
            if !matches!(s.op, Op::Write { .. } | Op::Query { .. }) || k + 1 == case.steps.len() { if let Some(e) = encodings(x, want, k, st) { return v(format!("{at}: {e}")); } }
        }
    }
    exec::finish(st);
    None
}

fn encodings(x: &Metadata, want: &MMeta, k: usize, st: &mut Stats) -> Option<String> {
    let e = match lut::guarded(|| x.encode()) { Ok(Ok(e)) => e, Ok(Err(e)) => return Some(format!("encoding failed: {e}")), Err(p) => return Some(format!("PANIC while encoding ({p})")) };
    match model::decode(&e) {
        Ok(d) => {
            if let Some(i) = d.issues.first() { return Some(format!("the encoding is malformed: {i}")); }
            if let Some(i) = want.diff(&d.meta, "the object", "its encoding", true) { return Some(i); }
        }
        Err(i) => return Some(format!("an independent reader cannot decode the encoding: {i}")),
    }
    st.nontrivial = true;
    let again = match lut::guarded(|| x.encode()) { Ok(Ok(e)) => e, _ => vec![] };
    if again != e { return Some("encoding the same object twice gives different results".into()); }
    let exif = [&b"Exif\0\0"[..], &e].concat();
    for (f, z) in [(Fmt::Jpeg, true), (Fmt::Webp, true), (Fmt::Heif, true), (Fmt::Png, k % 2 == 0)] {
        let r = match lut::guarded(|| x.as_u8_vec(lut::ext(f, z))) { Ok(r) => r, Err(p) => return Some(format!("PANIC while encoding for {} ({p})", f.name())) };
        let b = match r { Ok(b) => b, Err(i) => { if f == Fmt::Jpeg && exif.len() + 2 > 0xffff { continue; } return Some(format!("encoding for {} failed: {i}", f.name())); } };
        let bad = |why: &str| Some(format!("encoded for {}: {why} ({})", f.name(), model::short(&b)));
        match f {
            Fmt::Jpeg => {
                if exif.len() + 2 > 0xffff { return bad("too long for a segment"); }
                if b != [&[0xff, 0xe1][..], &((exif.len() + 2) as u16).to_be_bytes(), &exif].concat() { return bad("this is not an Exif segment with the metadata"); }
            }
            Fmt::Webp => {
                let mut w = [&b"EXIF"[..], &(e.len() as u32).to_le_bytes(), &e].concat(); if w.len() % 2 == 1 { w.push(0); }
                if b != w { return bad("this is not an EXIF chunk with the metadata"); }
            }
            Fmt::Heif => if b != [&[0, 0, 0, 6][..], &exif].concat() { return bad("this is not an Exif item with the metadata"); },
            _ => {
                // the text of a raw profile; or the type and the data of a chunk
                let text = if z {
                    let Some(rest) = b.strip_prefix(b"zTXtRaw profile type exif\0\0") else { return bad("this is not a raw profile chunk") };
                    match miniz_oxide::inflate::decompress_to_vec_zlib(rest) { Ok(t) => t, Err(_) => return bad("the text cannot be decompressed") }
                } else { b.clone() };
                match crate::fmt_png::unprofile(&text) { Some((d, n)) => if n != d.len() || ![&exif, &e].iter().any(|w| d.starts_with(w) && d.len() < w.len() + 4 && d[w.len()..].iter().all(|b| *b == 0)) { return bad("the raw profile does not hold the metadata"); }, None => return bad("this is not a raw profile") }
                if z {
                    // put into an image by hand, everyone reads it
                    let mut img = b"\x89PNG\r\n\x1a\n".to_vec();
                    let chunk = |o: &mut Vec<u8>, c: &[u8]| { o.extend(((c.len() - 4) as u32).to_be_bytes()); o.extend(c); o.extend(crate::fmt_png::crc(c).to_be_bytes()); };
                    chunk(&mut img, b"IHDR\0\0\0\x01\0\0\0\x01\x08\0\0\0\0"); chunk(&mut img, &b); chunk(&mut img, b"IDAT\x78\x9c\x63\x00\x00\x00\x02\x00\x01"); chunk(&mut img, b"IEND");
                    if let Some(i) = own(Fmt::Png, &img, want) { return bad(&i); }
                }
            }
        }
        if f == Fmt::Jpeg { let img = [&[0xff, 0xd8][..], &b, &[0xff, 0xd9]].concat(); if let Some(i) = own(f, &img, want) { return bad(&i); } }
    }
    None
}
/// what the library itself reads from such an image
fn own(f: Fmt, d: &Vec<u8>, want: &MMeta) -> Option<String> {
    match lut::guarded(|| lut::read_vec(d, f).map(|m| lut::dump(&m))) {
        Ok(Ok(Ok(g))) => want.diff(&g, "the object", "an image made with its encoding", true),
        Ok(Ok(Err(e))) => Some(e), Ok(Err(e)) => if want.canon().ifds.is_empty() { None } else { Some(format!("an image made with it cannot be read: {e}")) }, Err(p) => Some(format!("PANIC while reading an image made with it ({p})")),
    }
}
