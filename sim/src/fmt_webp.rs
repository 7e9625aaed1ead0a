//! WebP (RFC 9649)
use serde::{Deserialize, Serialize};
use crate::img::{b4, le32, Blob, Carrier, GenOpt, Parsed, extra, size};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Chunk { pub id: String, pub data: Blob }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec { pub chunks: Vec<Chunk> }

impl Spec {
    pub fn build(&self) -> Vec<u8> {
        let mut o = b"RIFF\0\0\0\0WEBP".to_vec();
        for c in &self.chunks {
            let d = c.data.bytes();
            o.extend(b4(&c.id)); o.extend((d.len() as u32).to_le_bytes()); o.extend(&d);
            if d.len() % 2 == 1 { o.push(0); }
        }
        let n = (o.len() - 8) as u32;
        o[4..8].copy_from_slice(&n.to_le_bytes());
        o
    }
    pub fn simple(&self) -> bool { self.chunks.first().map(|c| c.id != "VP8X").unwrap_or(true) }
}

/// (width, height, alpha) announced by the bitstream
fn dims(id: &[u8], d: &[u8]) -> Option<(u32, u32, bool)> {
    if id == b"VP8L" {
        if *d.first()? != 0x2f { return None; }
        let v = le32(d, 1)?;
        Some(((v & 0x3fff) + 1, ((v >> 14) & 0x3fff) + 1, (v >> 28) & 1 == 1))
    } else {
        if d.get(3..6)? != [0x9d, 1, 0x2a] { return None; }
        let v = le32(d, 6)?;
        Some((v & 0x3fff, (v >> 16) & 0x3fff, false))
    }
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    if d.get(0..4) != Some(b"RIFF") || d.get(8..12) != Some(b"WEBP") { return Err("no RIFF/WEBP signature".into()); }
    let n = le32(d, 4).unwrap() as usize;
    if n % 2 == 1 { p.issue("odd RIFF size"); }
    if n + 8 > d.len() { return Err(format!("RIFF size {n} but only {} bytes follow", d.len() - 8)); }
    let end = n + 8;
    let mut i = 12;
    let mut chunks: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    while i < end {
        let l = le32(d, i + 4).filter(|_| i + 8 <= end).ok_or("chunk header does not fit")? as usize;
        if i + 8 + l > end { return Err(format!("chunk {:?} at {i} with length {l} does not fit", String::from_utf8_lossy(&d[i..i + 4]))); }
        chunks.push((d[i..i + 4].to_vec(), d[i + 8..i + 8 + l].to_vec()));
        i += 8 + l;
        if l % 2 == 1 { match d.get(i).filter(|_| i < end) { None => return Err("padding byte missing".into()), Some(0) => {} _ => p.issue("padding byte not zero") } i += 1; }
    }
    let first = chunks.first().ok_or("no chunks")?.clone();
    let has_exif = chunks.iter().any(|c| c.0 == b"EXIF");
    if first.0 == b"VP8X" {
        if first.1.len() < 10 { return Err("VP8X too short".into()); }
        let f = first.1[0];
        let (w, h) = (1 + (le32(&first.1, 4).unwrap() & 0xffffff), 1 + (le32(&[first.1[7], first.1[8], first.1[9], 0], 0).unwrap()));
        p.part("canvas", format!("{w}x{h} flags {:02x}", f & !8).as_bytes());
        p.part("canvas reserved", &first.1[1..4]);
        if first.1.len() > 10 { p.part("canvas more", &first.1[10..]); }
        if (f & 8 != 0) != has_exif { p.issue(format!("EXIF flag {} but EXIF chunk {}", f & 8 != 0, has_exif)); }
        if (f & 4 != 0) != chunks.iter().any(|c| c.0 == b"XMP ") { p.issue("XMP flag"); }
        if (f & 0x20 != 0) != chunks.iter().any(|c| c.0 == b"ICCP") { p.issue("ICC flag"); }
        if (f & 2 != 0) != chunks.iter().any(|c| c.0 == b"ANIM") { p.issue("animation flag"); }
        if let Some(c) = chunks.iter().find(|c| c.0 == b"VP8 " || c.0 == b"VP8L") {
            match dims(&c.0, &c.1) { Some((a, b, al)) => { if (a, b) != (w, h) { p.issue(format!("canvas {w}x{h} but frame {a}x{b}")); } if al && f & 0x10 == 0 { p.issue("alpha flag not set"); } } None => p.issue("bitstream header") }
        }
        let rank = |id: &[u8]| match id { b"VP8X" => 0, b"ICCP" => 1, b"ANIM" => 2, b"ANMF" => 3, b"ALPH" => 4, b"VP8 " | b"VP8L" => 5, _ => 99 };
        let order: Vec<i32> = chunks.iter().map(|c| rank(&c.0)).filter(|r| *r < 99).collect();
        if order.windows(2).any(|w| w[0] > w[1]) { p.issue("reconstruction chunks out of order"); }
        if chunks.iter().filter(|c| c.0 == b"VP8X").count() > 1 { p.issue("several VP8X chunks"); }
    } else if first.0 == b"VP8 " || first.0 == b"VP8L" {
        match dims(&first.0, &first.1) {
            Some((w, h, a)) => { p.part("canvas", format!("{w}x{h} flags {:02x}", if a { 0x10 } else { 0 }).as_bytes()); p.part("canvas reserved", &[0, 0, 0]); }
            None => return Err("bitstream header".into()),
        }
        if chunks.len() > 1 { p.issue("further chunks in a simple file"); }
    } else { return Err(format!("first chunk is {:?}", String::from_utf8_lossy(&first.0))); }
    for (id, c) in &chunks {
        if id == b"VP8X" { continue; }
        if id == b"EXIF" { let t = if c.starts_with(b"Exif\0\0") { c[6..].to_vec() } else { c.clone() }; p.exif.push(Carrier { kind: if first.0 == b"VP8X" && first.1[0] & 8 == 0 { "unannounced EXIF chunk" } else { "EXIF chunk" }.into(), tiff: t }); }
        else { p.part(String::from_utf8_lossy(id), c); }
    }
    if end < d.len() { p.part("trailing", &d[end..]); }
    Ok(p)
}

fn vp8(r: &mut Rng, w: u32, h: u32, n: u64) -> Chunk {
    let mut b = vec![0x10, 0x02, 0x00, 0x9d, 1, 0x2a]; b.extend((w as u16 | (r.below(4) as u16) << 14).to_le_bytes()); b.extend((h as u16 | (r.below(4) as u16) << 14).to_le_bytes());
    Chunk { id: "VP8 ".into(), data: Blob::C(vec![Blob::H(b), Blob::fill(r, n)]) }
}
fn vp8l(r: &mut Rng, w: u32, h: u32, alpha: bool, n: u64) -> Chunk {
    let mut b = vec![0x2f]; b.extend(((w - 1) | (h - 1) << 14 | (alpha as u32) << 28).to_le_bytes());
    Chunk { id: "VP8L".into(), data: Blob::C(vec![Blob::H(b), Blob::fill(r, n)]) }
}

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let (mw, mh) = (*r.pick(&[16383u64, 300, 300, 300]), *r.pick(&[16383u64, 300, 300, 300]));
    let (w, h) = (1 + r.below(mw) as u32, 1 + r.below(mh) as u32);
    let n = size(r, o.big);
    if o.exif.is_none() && o.extra.is_empty() && r.chance(1, 2) {
        let a = r.chance(1, 2);
        return Spec { chunks: vec![if r.chance(1, 2) { vp8(r, w, h, n) } else { vp8l(r, w, h, a, n) }] };
    }
    let (icc, xmp, anim) = (r.chance(1, 3), r.chance(1, 3), r.chance(1, 3));
    let mut alpha = r.chance(1, 3);
    let mut v: Vec<Chunk> = vec![];
    let c = |id: &str, d: Blob| Chunk { id: id.into(), data: d };
    if icc { let k = extra(r, o.big, 50); v.push(c("ICCP", Blob::fill(r, k))); }
    if anim {
        v.push(c("ANIM", Blob::h(&[255, 255, 255, 255, 0, 0])));
        for _ in 0..1 + r.below(3) {
            let k = extra(r, o.big, 60);
            let inner = Spec { chunks: vec![vp8l(r, w, h, alpha, k)] }.build()[12..].to_vec();
            let mut f = vec![0u8; 6]; f.extend(&(w - 1).to_le_bytes()[..3]); f.extend(&(h - 1).to_le_bytes()[..3]); f.extend([100, 0, 0, 0]); f.extend(inner);
            v.push(c("ANMF", Blob::H(f)));
        }
    } else if r.chance(1, 2) {
        if alpha { let k = 1 + extra(r, o.big, 30); v.push(c("ALPH", Blob::fill(r, k))); }
        v.push(vp8(r, w, h, n));
    } else { let a = r.chance(1, 2); alpha |= a; v.push(vp8l(r, w, h, a, n)); }
    if xmp { v.push(c("XMP ", if r.chance(1, 2) { Blob::h(b"<x:xmpmeta/>") } else { let k = extra(r, o.big, 30); Blob::fill(r, k) })); }
    for _ in 0..r.below(3) { let k = r.below(20); let i = r.idx(v.len() + 1); let id = *r.pick(&["unkn", "abcd", "EXIX", "junk"]); let f = Blob::fill(r, k); v.insert(i, c(id, f)); }
    let mut any = false;
    for t in o.exif.iter().chain(o.extra.iter()) {
        let d = if r.chance(1, 5) { Blob::C(vec![Blob::h(b"Exif\0\0"), t.clone()]) } else { t.clone() };
        let i = if r.chance(1, 2) { v.len() } else { r.idx(v.len() + 1) };
        v.insert(i, c("EXIF", d)); any = true;
    }
    let flags = (icc as u8) << 5 | (alpha as u8) << 4 | (any as u8) << 3 | (xmp as u8) << 2 | (anim as u8) << 1;
    let mut x = vec![flags, 0, 0, 0]; x.extend(&(w - 1).to_le_bytes()[..3]); x.extend(&(h - 1).to_le_bytes()[..3]);
    v.insert(0, c("VP8X", Blob::H(x)));
    Spec { chunks: v }
}
