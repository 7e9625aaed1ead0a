//! Generators of cases.
use crate::case::{Case, Damage, FileSpec, Op, Step, Via};
use crate::fmt_tiff::STRUCTURAL;
use crate::img::{self, Blob, Fmt, GenOpt, FMTS};
use crate::model::{self, gen_meta, gen_tag, Layout, MSpec, MTag};
use crate::rng::Rng;
use crate::sys::Benign;

pub fn layout(r: &mut Rng) -> Layout {
    Layout { seed: if r.chance(2, 3) { 1 + r.below(1 << 30) } else { 0 }, bare_text: r.chance(1, 4), dirs_first: r.chance(1, 2), tail: if r.chance(1, 5) { r.below(20) as u32 } else { 0 }, odd: r.chance(1, 4), narrow: r.chance(1, 4), no_final_link: false, front: if r.chance(1, 12) { *r.pick(&[100, 202, 244, 246, 248, 300, 498, 1000, 6000]) } else { 0 } }
}
pub fn exif(r: &mut Rng, max: u64) -> Blob {
    let mut meta = gen_meta(r, true, max);
    if r.chance(1, 3) { for t in meta.tags.iter_mut() { if r.chance(1, 3) { model::disguise(r, t); } } }
    Blob::T { meta, lay: layout(r) }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Ex { None, Maybe, One, Many }

pub fn name(r: &mut Rng, f: Fmt, i: usize) -> String {
    let e = match f { Fmt::Jpeg => *r.pick(&["jpg", "jpeg", "JPG"]), Fmt::Png => *r.pick(&["png", "PNG"]), Fmt::Webp => *r.pick(&["webp", "WebP"]), Fmt::Jxl => "jxl", Fmt::Tiff => *r.pick(&["tif", "tiff"]), Fmt::Heif => *r.pick(&["heic", "heif", "hif", "avif"]) };
    let s = *r.pick(&["photo", "img.old", "übung", "a b"]);
    format!("{s}{i}.{e}")
}
pub fn file(r: &mut Rng, f: Fmt, ex: Ex, i: usize, max_tags: u64, big: bool) -> FileSpec {
    let n = match ex { Ex::None => 0, Ex::Maybe => (r.below(3) > 0) as u64, Ex::One => 1, Ex::Many => if r.chance(1, 12) { 4 + r.below(5) } else { r.below(4) } };
    let mut v: Vec<Blob> = (0..n).map(|_| exif(r, max_tags)).collect();
    // one of the payloads may be nothing that can be decoded
    if ex == Ex::Many && f != Fmt::Tiff && !v.is_empty() && r.chance(1, 8) {
        let k = r.idx(v.len()); let d = v[k].bytes();
        v[k] = Blob::H(match r.below(5) { 0 => vec![], 1 => d[..r.idx(d.len().min(12))].to_vec(), 2 => d[..r.idx(d.len())].to_vec(), 3 => { let n = 1 + r.idx(40); r.bytes(n) } _ => vec![0; 1 + r.idx(12)] });
    }
    let o = GenOpt { exif: if v.is_empty() { None } else { Some(v.remove(0)) }, extra: v, big };
    let mut im = img::gen(r, f, &o);
    // EXIF data that the file's flags do not announce
    if let img::Image::Webp(s) = &mut im { if ex == Ex::Many && r.chance(1, 10) { if let Some(Blob::H(x)) = s.chunks.first_mut().filter(|c| c.id == "VP8X").map(|c| &mut c.data) { x[0] &= !8; } } }
    FileSpec { name: name(r, f, i), img: im, damage: vec![], ro: false, before: None }
}
/// The same image with other metadata in it
pub fn other_metadata(r: &mut Rng, i: &img::Image) -> img::Image {
    fn walk(r: &mut Rng, v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                if m.len() == 1 && m.get("T").map_or(false, |t| t.get("meta").is_some()) { *v = serde_json::to_value(exif(r, 8)).unwrap(); return; }
                for x in m.values_mut() { walk(r, x); }
            }
            serde_json::Value::Array(a) => for x in a { walk(r, x); },
            _ => {}
        }
    }
    let mut v = serde_json::to_value(i).unwrap();
    walk(r, &mut v);
    serde_json::from_value(v).unwrap_or_else(|_| i.clone())
}
pub fn benign(r: &mut Rng) -> Benign {
    Benign { seed: r.below(1 << 32), short_pct: *r.pick(&[20, 60, 95]), eintr_pct: *r.pick(&[0, 10, 30]), tiny: r.chance(1, 2) }
}
pub fn via(r: &mut Rng) -> Via { if r.chance(1, 2) { Via::File } else { Via::Vec } }

pub fn case(prop: &str, origin: String) -> Case { Case { prop: prop.into(), origin, files: vec![], rofs: false, steps: vec![], threads: vec![], sched_seed: 0, rounds: 0, twin: false, switches: None } }

/// New metadata as a program would put together; sometimes with further directories and thumbnails
pub fn fresh(r: &mut Rng, max: u64) -> MSpec { let f = r.chance(1, 4); let mut m = gen_meta(r, f, max); m.be = false; m }

/// Metadata that just fits into a JPEG segment, or just does not.
pub fn near_limit(r: &mut Rng) -> MSpec {
    let mut m = fresh(r, 4);
    m.tags.retain(|t| t.hex != 0x010e);
    let room = 0x10000 + r.idx(24);
    let rest = model::encode(&model::MMeta::from_spec(&m), &model::Layout::default()).len() + 40 - r.idx(16);
    if rest < room { let n = room - rest; let mut d = vec![b'x'; n]; d[n - 1] = 0; m.tags.push(MTag { nr: 0, grp: 0, hex: 0x010e, v: model::MV::Raw(2, d) }); }
    m
}

/// Tags that the generators neither set nor remove in metadata that carries a picture.
pub fn touchy(hex: u16) -> bool { STRUCTURAL.contains(&hex) || matches!(hex, 0x011a | 0x011b | 0x0128) }

fn plain_tag(r: &mut Rng, nr: u32, tiff: bool) -> MTag {
    loop {
        let g = if nr > 0 { 0 } else { r.below(4) as u8 };
        let t = gen_tag(r, nr, g);
        if g == 0 && (matches!(t.hex, 0x0111 | 0x0117 | 0x0201 | 0x0202) || (tiff && touchy(t.hex))) { continue; }
        return t;
    }
}

/// A history of operations. Slots 0..=3; slot contents are tracked as far as needed to stay meaningful.
pub struct Hist { pub clear: u64, pub seg: bool, pub edit: u64, pub restart: bool, pub benign_pct: u64, pub len: u64, pub max_tags: u64, pub force_via: Option<Via>, pub ztxt_only: bool, pub repeat: u64 }

pub fn history(r: &mut Rng, files: &[FileSpec], h: &Hist) -> Vec<Step> {
    #[derive(Clone, PartialEq)]
    enum S { Empty, Free, Pic(u8, u32) }
    let mut slots = vec![S::Empty; 4];
    let mut v: Vec<Op> = vec![];
    // files whose metadata may have vanished are not relied upon for reading
    let vv = |r: &mut Rng| h.force_via.unwrap_or_else(|| via(r));
    let fm: Vec<Fmt> = files.iter().map(|f| f.img.fmt()).collect();
    let mut has: Vec<bool> = files.iter().map(|f| f.img.fmt() == Fmt::Tiff || img::parse(f.img.fmt(), &f.bytes()).map(|p| p.exif.iter().any(|e| e.readable())).unwrap_or(false)).collect();
    let mut both: Vec<[bool; 2]> = has.iter().map(|x| [*x, *x]).collect();
    let _ = &mut has;
    let vi = |v: Via| if v == Via::File { 0 } else { 1 };
    let mut last: Option<Op> = None;
    for _ in 0..h.len {
        let f = r.idx(files.len()) as u8;
        let tiff = fm[f as usize] == Fmt::Tiff;
        let slot = r.below(4) as u8;
        let op = match r.below(100) {
            x if x < 22 => {
                let w = vv(r);
                if slots[slot as usize] != S::Empty && !both[f as usize][vi(w)] { Op::Read { slot: 3, f, via: w } } else { Op::Read { slot, f, via: w } }
            }
            x if x < 34 => Op::New { slot, meta: if fm.contains(&Fmt::Jpeg) && r.chance(1, 16) { near_limit(r) } else { fresh(r, h.max_tags) } },
            x if x < 34 + h.edit => {
                if slots[slot as usize] == S::Empty { continue; }
                let pic = matches!(slots[slot as usize], S::Pic(..));
                let t = plain_tag(r, 0, pic);
                if r.chance(2, 3) { Op::Set { slot, tag: t } } else {
                    // remove something that is likely to be there: the case's own tags
                    let mut cand: Vec<(u32, u8, u16)> = vec![];
                    for o in &v { if let Op::Set { tag, .. } = o { cand.push((tag.nr, tag.grp, tag.hex)); } if let Op::New { meta, .. } = o { for t in &meta.tags { cand.push((t.nr, t.grp, t.hex)); } } }
                    for fs in files { if let Ok(s) = serde_json::to_value(&fs.img) { collect(&s, &mut cand); } }
                    cand.retain(|c| !(c.1 == 0 && (touchy(c.2) || matches!(c.2, 0x0111 | 0x0117 | 0x0201 | 0x0202))));
                    let (nr, grp, hex) = if cand.is_empty() { (0, t.grp, t.hex) } else { *r.pick(&cand) };
                    Op::Remove { slot, nr, grp, hex, all: r.chance(1, 2) }
                }
            }
            x if x < 34 + h.edit + 4 => { if slots[slot as usize] == S::Empty { continue; } if r.chance(1, 2) { Op::Query { slot } } else { Op::Copy { from: slot, to: r.below(4) as u8 } } }
            x if x < 34 + h.edit + 4 + h.clear => { if h.seg && fm[f as usize] == Fmt::Jpeg && r.chance(1, 3) { Op::ClearSeg { f, via: vv(r), seg: 12 + r.below(2) as u8 } } else { Op::Clear { f, via: vv(r) } } }
            x if x < 34 + h.edit + 6 + h.clear && h.restart => Op::Restart,
            x if x < 34 + h.edit + 6 + h.clear + h.repeat && last.is_some() => last.clone().unwrap(),
            _ => {
                let c: Vec<u8> = (0..4u8).filter(|s| match &slots[*s as usize] { S::Empty => false, S::Free => !tiff, S::Pic(g, _) => !tiff || *g == f }).collect();
                if c.is_empty() { continue; }
                Op::Write { slot: *r.pick(&c), f, via: vv(r), ztxt: h.ztxt_only || r.chance(1, 2) }
            }
        };
        match &op {
            Op::Read { slot, f, via } => { if both[*f as usize][vi(*via)] { slots[*slot as usize] = if fm[*f as usize] == Fmt::Tiff { S::Pic(*f, 0) } else { S::Free }; } }
            Op::New { slot, .. } => slots[*slot as usize] = S::Free,
            Op::Copy { from, to } => slots[*to as usize] = slots[*from as usize].clone(),
            Op::Clear { f, via } => { if fm[*f as usize] != Fmt::Tiff { both[*f as usize][vi(*via)] = false; } }
            Op::Write { f, via, .. } => both[*f as usize][vi(*via)] = true,
            Op::Restart => { for s in slots.iter_mut() { *s = S::Empty; } for b in both.iter_mut() { b[1] = b[0]; } }
            _ => {}
        }
        if op.mutates() { last = Some(op.clone()); }
        v.push(op);
    }
    v.into_iter().map(|op| { let b = matches!(op.target(), Some((_, Via::File))) && r.below(100) < h.benign_pct; Step { op, faults: vec![], benign: if b { Some(benign(r)) } else { None } } }).collect()
}
/// tags mentioned in an image specification
fn collect(v: &serde_json::Value, out: &mut Vec<(u32, u8, u16)>) {
    match v {
        serde_json::Value::Object(m) => {
            if let (Some(a), Some(b), Some(c)) = (m.get("nr").and_then(|x| x.as_u64()), m.get("grp").and_then(|x| x.as_u64()), m.get("hex").and_then(|x| x.as_u64())) { out.push((a as u32, b as u8, c as u16)); return; }
            for x in m.values() { collect(x, out); }
        }
        serde_json::Value::Array(a) => for x in a { collect(x, out); },
        _ => {}
    }
}

pub fn fmt_of(r: &mut Rng, idx: u64) -> Fmt { if idx % 7 == 6 { *r.pick(&FMTS) } else { FMTS[(idx % 7) as usize] } }

pub fn damages(r: &mut Rng, d: &[u8]) -> Vec<Damage> {
    let n = match r.below(6) { 0..=2 => 1, 3 => 2, 4 => 3, _ => 1 + r.below(6) };
    let l = d.len().max(1) as u64;
    // structure sits at the beginning and around "interesting" places: bias there
    let hot: Vec<u64> = (0..d.len().saturating_sub(4)).filter(|i| { let w = &d[*i..*i + 4]; matches!(w, b"Exif" | b"iloc" | b"iinf" | b"infe" | b"iref" | b"pitm" | b"hdlr" | b"mdat" | b"meta" | b"brob" | b"EXIF" | b"VP8X" | b"RIFF" | b"zTXt" | b"eXIf" | b"IHDR" | b"IEND" | b"iTXt" | b"II*\0" | b"MM\0*" | b"idat" | b"jxlc" | b"exif") || (w[0] == 0xff && w[1] >= 0xc0 && w[1] != 0xff) }).map(|i| i as u64).collect();
    let at = |r: &mut Rng| -> u32 {
        (match r.below(6) { 0 | 1 if !hot.is_empty() => (*r.pick(&hot)).saturating_add(r.below(40)).saturating_sub(10), 2 => r.below(l.min(64)), 3 => l - 1 - r.below(l.min(32)), _ => r.below(l) }) as u32
    };
    (0..n).map(|_| match r.below(16) {
        0..=3 => Damage::Flip { at: at(r), bit: r.below(8) as u8 },
        4 => Damage::Zero { at: at(r), len: 1 + r.below(64) as u32 },
        5 => Damage::Zero { at: (r.below(l) / 512 * 512) as u32, len: 512 },
        6 | 7 => Damage::Cut { len: if r.chance(1, 2) { at(r) } else { r.below(l + 1) as u32 } },
        8 => Damage::Dup { at: at(r), len: 1 + r.below(100) as u32, to: at(r) },
        9 => { let k = r.below(40); let f = Blob::fill(r, k); Damage::Ins { at: at(r), data: if r.chance(1, 3) { Blob::H(vec![0xff; k as usize]) } else { f } } }
        10 => Damage::Del { at: at(r), len: 1 + r.below(16) as u32 },
        11 => Damage::Set { at: at(r), data: vec![0xff; 1 + r.idx(8)] },
        12 => { let v = *r.pick(&[0u32, 1, 2, 7, 8, 15, 16, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff0, l as u32, l as u32 + 1]); Damage::Set { at: at(r), data: if r.chance(1, 2) { v.to_be_bytes().to_vec() } else { v.to_le_bytes().to_vec() } } }
        13 => { let v = *r.pick(&[0u16, 1, 2, 6, 7, 0x7fff, 0xffff]); Damage::Set { at: at(r), data: v.to_be_bytes().to_vec() } }
        _ => { let k = 1 + r.idx(3); Damage::Set { at: at(r), data: r.bytes(k) } }
    }).collect()
}

/// A structurally damaged image: fields of its specification have other values, parts of it are missing, repeated, swapped or
/// carry other names, while all lengths and checksums around them are still right.
pub fn mangle(r: &mut Rng, i: &img::Image) -> Option<img::Image> {
    use serde_json::Value;
    fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
        match v {
            Value::Object(m) => for (k, x) in m { if k == "seed" { continue; } at.push(k.clone()); paths(x, at, out); at.pop(); },
            Value::Array(a) => { out.push(at.clone()); for (k, x) in a.iter().enumerate() { at.push(k.to_string()); paths(x, at, out); at.pop(); } }
            Value::Null => {}
            _ => out.push(at.clone()),
        }
    }
    const NAMES: &[&str] = &["Exif", "exif", "xml ", "jxlc", "jxlp", "brob", "jbrd", "ftyp", "meta", "mdat", "idat", "hdlr", "pitm", "iinf", "infe", "iloc", "iref", "iprp", "ipco", "dinf", "dref", "moov", "stco", "co64", "free", "uuid", "mime", "cdsc", "iloc",
        "EXIF", "VP8X", "VP8 ", "VP8L", "ALPH", "ICCP", "XMP ", "ANIM", "ANMF", "IHDR", "IDAT", "IEND", "eXIf", "zTXt", "tEXt", "iTXt", "PLTE", "\0\0\0\0", "\u{ff}abc"];
    let mut i = i.clone();
    let mut n = 1 + r.below(3);
    if let img::Image::Png(s) = &mut i { if r.chance(1, 3) { crate::fmt_png::mangle_profile(r, s); n -= 1; } }
    let i = &i;
    let mut v = serde_json::to_value(i).ok()?;
    for _ in 0..n {
        let mut ps = vec![];
        paths(&v, &mut vec![], &mut ps);
        if ps.is_empty() { return None; }
        // the types of tags are of particular interest
        let ts: Vec<&Vec<String>> = if r.chance(1, 4) { ps.iter().filter(|p| p.len() > 1 && p[p.len() - 2] == "Raw" && p[p.len() - 1] == "0").collect() } else { vec![] };
        let typ = !ts.is_empty();
        let p = if typ { (*r.pick(&ts)).clone() } else { r.pick(&ps).clone() };
        let key = p.last().cloned().unwrap_or_default();
        let x = v.pointer_mut(&p.iter().map(|k| format!("/{k}")).collect::<String>())?;
        match x {
            Value::Bool(b) => *b = !*b,
            Value::Number(n) => {
                let o = n.as_u64().unwrap_or(0);
                let y = if typ && r.chance(5, 6) { 1 + r.below(12) } else { match r.below(4) { 0 => o.wrapping_add(1), 1 => o.saturating_sub(1), 2 => *r.pick(&[0u64, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 15]), _ => *r.pick(&[16u64, 127, 128, 254, 255, 256, 0x7fff, 0x8769, 0x8825, 0xa005, 0xfffe, 0xffff, 0x10000, 0x7fffffff, 0xffffffff]) } };
                *n = (if matches!(key.as_str(), "len" | "tail" | "rst" | "nr") { y & if key == "nr" { 7 } else { 0xfff } } else { y }).into();
            }
            Value::String(s) => {
                if s.len() % 2 == 0 && s.len() > 4 && s.bytes().all(|b| b.is_ascii_hexdigit()) {
                    let mut d: Vec<u8> = (0..s.len() / 2).filter_map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).ok()).collect();
                    let k = r.idx(d.len());
                    match r.below(5) { 0 => d.truncate(k), 1 => { let n = 1 + r.idx(8); let e = r.bytes(n); d.extend(e); } 2 => d[k] ^= 1 << r.below(8), 3 => d[k] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]), _ => { d.remove(k); } }
                    *s = d.iter().map(|b| format!("{b:02x}")).collect();
                } else if s.len() == 4 { *s = r.pick(NAMES).to_string(); }
                else if !s.is_empty() && s.is_ascii() { let k = r.idx(s.len()); match r.below(4) { 0 => s.truncate(k), 1 => s.insert(k, *r.pick(&['\0', '<', '"', 'x', 'é'])), 2 => { s.remove(k); } _ => { let t = s[k..].to_string(); s.push_str(&t); } } }
            }
            Value::Array(a) => {
                if a.is_empty() { continue; }
                let k = r.idx(a.len());
                match r.below(4) { 0 => { a.remove(k); } 1 => { let e = a[k].clone(); let at = r.idx(a.len() + 1); a.insert(at, e); } 2 => { let j = r.idx(a.len()); a.swap(k, j); } _ => { let e = a.remove(k); if r.chance(1, 2) { a.push(e) } else { a.insert(0, e) } } }
            }
            _ => {}
        }
    }
    let d = std::panic::catch_unwind(|| serde_json::from_value::<img::Image>(v).ok().map(|m| m.build())).ok()??;
    if d.len() > 4 << 20 { return None; }
    Some(img::Image::Raw { fmt: i.fmt(), data: Blob::H(d) })
}
