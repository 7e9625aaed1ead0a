//! Judging which image type the library takes a file for (C15).
use crate::case::{Case, Damage, FileSpec, Op, Step, Via};
use crate::exec::{self, diff_bytes, listing, listing_diff, Mach, Res, Stats, Violation};
use crate::gen::{self, benign, case, file, fmt_of, via, Ex};
use crate::hist::{self, Expect};
use crate::img::{self, Blob, Fmt, Image};
use crate::model::{self, MMeta};
use crate::rng::Rng;
use crate::sys::{self, Fault, FaultKind};

/// documented extensions
const EXT: [(&str, Fmt); 10] = [("heif", Fmt::Heif), ("hif", Fmt::Heif), ("heic", Fmt::Heif), ("avif", Fmt::Heif), ("jpeg", Fmt::Jpeg), ("jpg", Fmt::Jpeg), ("jxl", Fmt::Jxl), ("png", Fmt::Png), ("tiff", Fmt::Tiff), ("tif", Fmt::Tiff)];
const WEBP: &str = "webp";

#[derive(Clone, Copy, PartialEq, Debug)]
enum Named { Type(Fmt), Missing, Unsupported }
fn named(path: &str) -> Named {
    let n = path.rsplit('/').next().unwrap_or("");
    match n.rfind('.') {
        None | Some(0) => Named::Missing,
        Some(i) => {
            let e = &n[i + 1..];
            if e.eq_ignore_ascii_case(WEBP) { return Named::Type(Fmt::Webp); }
            EXT.iter().find(|x| x.0.eq_ignore_ascii_case(e)).map(|x| Named::Type(x.1)).unwrap_or(Named::Unsupported)
        }
    }
}
/// what the first bytes say
#[derive(Clone, Copy, PartialEq, Debug)]
enum Seen { Type(Fmt), Naked, No }
fn seen(d: &[u8]) -> Seen {
    let has = |o: usize, s: &[u8]| d.get(o..o + s.len()) == Some(s);
    if d.len() < 4 { return Seen::No; }
    if has(0, b"\x89PNG") { return Seen::Type(Fmt::Png); }
    if has(0, &[0xff, 0xd8]) { return Seen::Type(Fmt::Jpeg); }
    if has(0, b"II\x2a\0") || has(0, b"MM\0\x2a") { return Seen::Type(Fmt::Tiff); }
    if has(0, b"RIFF") && has(8, b"WEBP") { return Seen::Type(Fmt::Webp); }
    if has(0, &[0xff, 0x0a]) { return Seen::Naked; }
    if has(0, b"\0\0\0\x0cJXL \x0d\x0a\x87\x0a") { return Seen::Type(Fmt::Jxl); }
    if has(4, b"ftyp") && [b"heic", b"heif", b"avif"].iter().any(|b| has(8, *b)) { return Seen::Type(Fmt::Heif); }
    Seen::No
}

fn recase(r: &mut Rng, s: &str) -> String { match r.below(4) { 0 => s.to_uppercase(), 1 => s.chars().map(|c| if r.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(), _ => s.into() } }
fn name(r: &mut Rng, f: Fmt, i: usize) -> String {
    let stem = *r.pick(&["photo", "img.old", "a.jpg", "b.png", "übung", "a b", "x.tiff", "d.webp/pic", "v1.0/img", ".hidden", "no.jxl.heic"]);
    let any = |r: &mut Rng| { let k = r.idx(11); if k == 10 { WEBP } else { EXT[k].0 } };
    let own: Vec<&str> = EXT.iter().map(|x| x.0).chain([WEBP]).filter(|e| named(&format!("x.{e}")) == Named::Type(f)).collect();
    match r.below(20) {
        0..=7 => { let e = *r.pick(&own); let e = recase(r, e); format!("{stem}{i}.{e}") }
        8..=13 => { let a = any(r); let e = recase(r, a); format!("{stem}{i}.{e}") }
        14 => format!("plain{i}"),
        15 => { let a = any(r); format!("d{i}/.{a}") }
        16 => { let a = any(r); format!("dir{i}.{a}/plain") }
        17 => format!("{stem}{i}."),
        18 => { let a = any(r); let e = *r.pick(&["~", "2", " ", "x", "_"]); format!("{stem}{i}.{a}{e}") }
        _ => { let e = *r.pick(&["gif", "bmp", "txt", "jp", "jpe", "jfif", "jpegxl", "tf", "ti", "apng", "web", "hei", "heics", "avi", "jx", "j\u{0440}g", "pn", "p\u{014b}g", "mp4", "riff", "png;", "jpg.bak"]); format!("{stem}{i}.{e}") }
    }
}

/// a complete file, as small as its type permits
fn tiny(r: &mut Rng, f: Fmt) -> Vec<u8> {
    let text: Vec<u8> = (0..r.below(4)).map(|_| b'a' + r.below(26) as u8).chain([0]).collect();
    let tiff = |be: bool| {
        let w = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
        let l = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
        let mut o = if be { b"MM".to_vec() } else { b"II".to_vec() };
        o.extend(w(42)); o.extend(l(8)); o.extend(w(1)); o.extend(w(0x010e)); o.extend(w(2)); o.extend(l(text.len() as u32));
        let mut t = text.clone(); t.resize(4, 0); o.extend(t); o.extend(l(0)); o
    };
    match f {
        Fmt::Tiff => tiff(r.chance(1, 2)),
        Fmt::Jpeg => { let mut o = vec![0xff, 0xd8]; if r.chance(1, 2) { let t = tiff(r.chance(1, 2)); o.extend([0xff, 0xe1, 0, t.len() as u8 + 8]); o.extend(b"Exif\0\0"); o.extend(t); } o.extend([0xff, 0xd9]); o }
        Fmt::Webp => b"RIFF\x12\0\0\0WEBPVP8L\x05\0\0\0\x2f\0\0\0\0\0".to_vec(),
        Fmt::Jxl => if r.chance(1, 2) { vec![0xff, 0x0a, 0, 0x10, 0xb0] } else { b"\0\0\0\x0cJXL \x0d\x0a\x87\x0a\0\0\0\x14ftypjxl \0\0\0\0jxl \0\0\0\x0ajxlc\xff\x0a".to_vec() },
        Fmt::Png => { let mut o = b"\x89PNG\r\n\x1a\n".to_vec(); if r.chance(1, 2) { o.extend(b"\0\0\0\x0dIHDR\0\0\0\x01\0\0\0\x01\x08\0\0\0\0\x3a\x7e\x9b\x55\0\0\0\0IEND\xae\x42\x60\x82"); } o }
        Fmt::Heif => { let mut o = vec![0, 0, 0, 16]; o.extend(b"ftyp"); o.extend(*r.pick(&[b"heic", b"avif", b"heif", b"mif1"])); o.extend([0; 4]); o }
    }
}

pub fn cases(r: &mut Rng, idx: u64) -> Vec<Case> {
    let mut c = case("C15", String::new());
    for i in 0..1 + r.idx(2) {
        let f = if i == 0 { fmt_of(r, idx) } else { *r.pick(&img::FMTS) };
        let ex = if r.chance(4, 5) { Ex::One } else { Ex::Maybe };
        let mut x: FileSpec = file(r, f, ex, i, 6, false);
        x.name = name(r, f, i);
        match r.below(24) {
            // contents that say nothing about their type, or barely miss doing so
            0 => { let n = *r.pick(&[0u64, 1, 2, 3, 5, 31, 32, 33, 200]); x.img = Image::Raw { fmt: f, data: Blob::fill(r, n) }; }
            1 => { let k = r.idx(13); x.damage.push(Damage::Flip { at: k as u32, bit: r.below(8) as u8 }); }
            2 => { let k = r.idx(34); x.damage.push(Damage::Cut { len: k as u32 }); }
            3 => x.damage.push(Damage::Ins { at: 0, data: Blob::H(r.pick(&[vec![0u8], vec![0xff], b"\xef\xbb\xbf".to_vec(), vec![0; 4], b"II\x2b\0\x08\0\0\0".to_vec(), b"MM\0\x2b\0\x08\0\0".to_vec()]).clone()) }),
            4 => { let g = *r.pick(&img::FMTS); let y = file(r, g, Ex::One, i, 3, false).bytes(); let n = 2 + r.idx(14); x.damage.push(Damage::Set { at: 0, data: y[..n.min(y.len())].to_vec() }); }
            // tiny, but complete
            5 | 6 => x.img = Image::Raw { fmt: f, data: Blob::H(tiny(r, f)) },
            _ => {}
        }
        c.files.push(x);
    }
    for _ in 0..1 + r.below(4) {
        let f = r.idx(c.files.len()) as u8;
        let v = if r.chance(3, 4) { Via::File } else { via(r) };
        let op = match r.below(8) {
            0..=3 => Op::Read { slot: r.below(2) as u8, f, via: v },
            4 | 5 => { if r.chance(2, 3) { let m = gen::fresh(r, 5); c.steps.push(Step::of(Op::New { slot: 0, meta: m })); } else { c.steps.push(Step::of(Op::Read { slot: 0, f, via: Via::File })); } Op::Write { slot: 0, f, via: v, ztxt: r.chance(1, 2) } }
            6 => Op::Clear { f, via: v },
            _ => Op::ClearSeg { f, via: v, seg: 12 + r.below(2) as u8 },
        };
        let mut s = Step::of(op);
        match r.below(6) {
            0 | 1 => s.benign = Some(benign(r)),
            2 => s.faults.push(Fault { at: r.below(10) as u32, kind: match r.below(3) { 0 => FaultKind::ErrSticky(sys::EIO), 1 => FaultKind::Err(*r.pick(&[sys::EACCES, sys::EMFILE, sys::EIO])), _ => FaultKind::Err(sys::EIO) } }),
            _ => {}
        }
        c.steps.push(s);
    }
    vec![c]
}

pub fn judge(case: &Case, st: &mut Stats) -> Option<Violation> {
    let v = |what: String| Some(Violation { prop: "C15".into(), what });
    sys::install(exec::world(case));
    let mut m = Mach::new(case);
    let names: Vec<Named> = m.files.iter().map(|f| named(&f.path)).collect();
    // in memory, the caller says what it is: the type that the name stands for
    for (i, n) in names.iter().enumerate() { if let Named::Type(t) = n { m.files[i].fmt = *t; } }
    let mut metas: Vec<Option<MMeta>> = vec![None; 8];
    // for metadata that came from a TIFF image: which place and content of it
    let mut prov: Vec<Option<(u8, Vec<u8>)>> = vec![None; 8];
    for (k, s) in case.steps.iter().enumerate() {
        if let Op::Write { slot, .. } = &s.op { if metas[*slot as usize].is_none() { continue; } }
        let Some((f, via)) = s.op.target() else {
            let o = m.step(s, st);
            if let Op::New { slot, meta } = &s.op { if o.res.ok() { metas[*slot as usize] = Some(MMeta::from_spec(meta)); prov[*slot as usize] = None; } }
            continue;
        };
        let before = m.content(f, via);
        let said = if via == Via::Vec { Named::Type(m.files[f as usize].fmt) } else { names[f as usize] };
        let see = seen(&before);
        // what it really is, according to the independent parsers
        let truth = match see { Seen::Type(t) => Some(t), Seen::Naked => Some(Fmt::Jxl), Seen::No => if img::parse(Fmt::Heif, &before).is_ok() { Some(Fmt::Heif) } else { None } };
        let parsed = truth.and_then(|t| img::parse(t, &before).ok());
        let reading = matches!(s.op, Op::Read { .. });
        // the type the operation is to work with; None: it has to be refused
        let pick = match (said, reading && via == Via::File, see) {
            (Named::Unsupported, _, _) => None,
            (_, true, Seen::Type(t)) => Some(t),
            (_, true, Seen::Naked) => None,
            (Named::Type(t), _, _) => Some(t),
            (Named::Missing, _, _) => None,
        };
        let what = format!("step {k}: {} of '{}' (content: {}{}) {}", s.op.name(), m.files[f as usize].path, truth.map(|t| t.name()).unwrap_or("no image"), if see == Seen::No { ", not recognisable" } else { "" }, match (via, said) { (Via::Vec, Named::Type(t)) => format!("as {} in memory", t.name()), _ => "through the file interface".into() });
        let all = listing();
        let o = m.step(s, st);
        let after = m.content(f, via);
        if let Res::Panic(p) = &o.res { return v(format!("{what}: PANIC ({p})")); }
        let except = if via == Via::File && !reading { Some(m.files[f as usize].path.clone()) } else { None };
        if let Some(e) = listing_diff(&all, &listing(), except.as_deref()) { return v(format!("{what}: {e}")); }
        let hard = o.fired.iter().any(|x| !matches!(x.kind, FaultKind::Eintr | FaultKind::Short(_)));
        let whole = case.files[f as usize].damage.is_empty() && (!matches!(case.files[f as usize].img, Image::Raw { .. }) || parsed.is_some()) && (truth.is_none() || parsed.is_some());
        let fits = whole && truth.is_some() && pick == truth && parsed.is_some();
        st.nontrivial |= truth.is_some() && Named::Type(truth.unwrap()) != said;
        st.count(format!("kind:{}:{}:{}", match said { Named::Type(t) if Some(t) == truth => "right name", Named::Type(_) => "other type's name", Named::Missing => "no extension", Named::Unsupported => "unsupported extension" }, s.op.name(), o.res.class()));
        if !fits {
            // not its type, or no type at all
            if after != before {
                // damaged, but still of that type as far as one can see
                if !whole && !reading && o.res.ok() && (pick == truth || see == Seen::No) { continue; }
                if hard && !whole && (pick == truth || (pick.is_some() && see == Seen::No)) { return None; }
                return v(format!("{what}: {}, yet the content changed: {}", o.res.show(), diff_bytes(&before, &after)));
            }
            if let Op::Read { slot, .. } = &s.op {
                if o.res.ok() {
                    if pick.is_none() && !(hard && truth.is_some()) { return v(format!("{what}: succeeded although the type is unknown or unsupported")); }
                    if truth.is_some() && pick.is_some() && pick != truth { return v(format!("{what}: succeeded although the image is of another type")); }
                    if see == Seen::No && matches!(case.files[f as usize].img, Image::Raw { .. }) { if let Some(Ok(d)) = m.dump(*slot) { if !d.is_empty() { return v(format!("{what}: returned metadata of an unrecognisable file")); } } }
                    metas[*slot as usize] = None; prov[*slot as usize] = None;
                }
            } else if o.res.ok() && (pick.is_none() || (truth.is_some() && pick != truth)) { return v(format!("{what}: reported success")); }
            continue;
        }
        let t = truth.unwrap(); let p = parsed.unwrap();
        let expect = hist::expect_of(&p);
        match &s.op {
            Op::Read { slot, .. } => {
                if !o.res.ok() {
                    if !hard { if let Expect::Some(x) = &expect { if !x.ifds.is_empty() { return v(format!("{what}: failed: {}", o.res.show())); } } }
                    continue;
                }
                let d = match m.dump(*slot) { Some(Ok(d)) => d, Some(Err(e)) => return v(format!("{what}: {e}")), None => continue };
                match &expect {
                    Expect::Some(x) => if let Some(e) = x.diff(&d, "the image", "the result", true) { return v(format!("{what}: {e}")); },
                    Expect::None => if !d.is_empty() { return v(format!("{what}: returned metadata although there is none")); },
                    Expect::Unknown => {}
                }
                metas[*slot as usize] = Some(d);
                prov[*slot as usize] = if t == Fmt::Tiff { Some((f, before)) } else { None };
            }
            Op::Write { slot, .. } => {
                let want = metas[*slot as usize].clone().unwrap();
                // a TIFF image takes its own metadata only
                let own = t != Fmt::Tiff || prov[*slot as usize].as_ref() == Some(&(f, before.clone()));
                if !o.res.ok() {
                    if !hard && own && hist::fits(t, &want) && !hist::sequence(&p) { return v(format!("{what}: failed: {}", o.res.show())); }
                    if after != before { return None; }
                    continue;
                }
                let q = match img::parse(t, &after) { Ok(q) => q, Err(e) => return v(format!("{what}: succeeded, but the image can no longer be parsed: {e}")) };
                if own { match hist::expect_of(&q) { Expect::Some(y) => if let Some(e) = want.diff(&y, "the metadata given", "the file", true) { return v(format!("{what}: {e}")); }, _ => return v(format!("{what}: succeeded, but the metadata is not there")) } }
            }
            Op::Clear { .. } => {
                if !o.res.ok() {
                    let excuse = hist::sequence(&p) || p.exif.is_empty() || (t == Fmt::Tiff && match &expect { Expect::Some(x) => !hist::fits(Fmt::Tiff, x), _ => false });
                    if !hard && !excuse { return v(format!("{what}: failed: {}", o.res.show())); }
                    if after != before { return None; }
                    continue;
                }
                let q = match img::parse(t, &after) { Ok(q) => q, Err(e) => return v(format!("{what}: succeeded, but the image can no longer be parsed: {e}")) };
                for c in &q.exif { if !matches!(t, Fmt::Heif | Fmt::Tiff) { return v(format!("{what}: left EXIF data behind ({})", c.kind)); } else if let Ok(d) = model::decode(&c.tiff) { for (key, dir) in &d.meta.ifds { for h in dir.keys() { if !hist::kept(t, key.0, key.1, *h) { return v(format!("{what}: left tag 0x{h:04x}")); } } } } }
            }
            Op::ClearSeg { seg, .. } => {
                if t != Fmt::Jpeg {
                    if o.res.ok() { return v(format!("{what}: reported success although only JPEG files have such segments")); }
                    if after != before { return v(format!("{what}: refused, but the image changed")); }
                    continue;
                }
                if !o.res.ok() { if !hard { return v(format!("{what}: failed: {}", o.res.show())); } if after != before { return None; } continue; }
                let q = match img::parse(t, &after) { Ok(q) => q, Err(e) => return v(format!("{what}: succeeded, but the image can no longer be parsed: {e}")) };
                let n = format!("segment {:02x}", 0xe0 + seg);
                let keep: Vec<_> = p.parts.iter().filter(|x| x.0 != n).cloned().collect();
                if let Some(e) = hist::parts_diff(&keep, &q.parts) { return v(format!("{what}: {e}")); }
            }
            _ => {}
        }
    }
    exec::finish(st);
    None
}
