//! JPEG XL container (ISO/IEC 18181-2)
use serde::{Deserialize, Serialize};
use crate::img::{b4, be32, be64, Blob, Carrier, GenOpt, Parsed, extra, size};
use crate::rng::Rng;

/// form: 0 plain size, 1 64-bit size, 2 reaches to the end of the file
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum JBox { Raw { ty: String, data: Blob, form: u8 }, Brob { inner: String, data: Blob, form: u8 } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spec { Naked { data: Blob }, Boxes { boxes: Vec<JBox> } }

pub const SIG: &[u8] = &[0, 0, 0, 12, b'J', b'X', b'L', b' ', 0x0d, 0x0a, 0x87, 0x0a];

pub fn brotli(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let p = brotli::enc::BrotliEncoderParams { quality: 4, lgwin: 16, ..Default::default() };
    brotli::BrotliCompress(&mut &d[..], &mut o, &p).unwrap();
    o
}
fn unbrotli(d: &[u8]) -> Option<Vec<u8>> { let mut o = vec![]; brotli::BrotliDecompress(&mut &d[..], &mut o).ok()?; Some(o) }

pub fn mkbox(ty: &[u8], d: &[u8], form: u8) -> Vec<u8> {
    let mut o = vec![];
    match form {
        1 => { o.extend(1u32.to_be_bytes()); o.extend(ty); o.extend((d.len() as u64 + 16).to_be_bytes()); }
        2 => { o.extend(0u32.to_be_bytes()); o.extend(ty); }
        _ => { o.extend((d.len() as u32 + 8).to_be_bytes()); o.extend(ty); }
    }
    o.extend(d);
    o
}

impl Spec {
    pub fn build(&self) -> Vec<u8> {
        match self {
            Spec::Naked { data } => { let mut o = vec![0xff, 0x0a]; o.extend(data.bytes()); o }
            Spec::Boxes { boxes } => {
                let mut o = SIG.to_vec();
                for (i, b) in boxes.iter().enumerate() {
                    let last = i + 1 == boxes.len();
                    let (ty, d, form) = match b {
                        JBox::Raw { ty, data, form } => (b4(ty).to_vec(), data.bytes(), *form),
                        JBox::Brob { inner, data, form } => { let mut d = b4(inner).to_vec(); d.extend(brotli(&data.bytes())); (b"brob".to_vec(), d, *form) }
                    };
                    o.extend(mkbox(&ty, &d, if form == 2 && !last { 0 } else { form }));
                }
                o
            }
        }
    }
}

/// Exif box payload: 4-byte offset of the TIFF header, then data
pub fn exif_payload(p: &mut Parsed, kind: &str, c: &[u8]) {
    match be32(c, 0).and_then(|o| c.get(4 + o as usize..)) {
        Some(t) => p.exif.push(Carrier { kind: kind.into(), tiff: t.to_vec() }),
        None => { p.issue("Exif payload: offset beyond end"); p.exif.push(Carrier { kind: kind.into(), tiff: vec![] }); }
    }
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    // A bare codestream and the same codestream in a container show the same picture.
    if d.starts_with(&[0xff, 0x0a]) { p.part("ftyp", b"jxl \0\0\0\0jxl "); p.part("jxlc", d); return Ok(p); }
    if !d.starts_with(SIG) { return Err("no JXL signature".into()); }
    let mut i = 12;
    let mut n = 0;
    let mut stream: Vec<u8> = vec![];
    let (mut whole, mut partial, mut last_part) = (0, 0, false);
    while i < d.len() {
        let s = be32(d, i).ok_or("truncated box header")? as u64;
        let ty = d.get(i + 4..i + 8).ok_or("truncated box header")?.to_vec();
        let (h, e) = match s { 0 => (8, d.len()), 1 => { let l = be64(d, i + 8).ok_or("truncated box header")?; if l < 16 { return Err("large box size".into()); } (16, i.saturating_add(l as usize)) } s if s < 8 => return Err(format!("box size {s}")), s => (8, i + s as usize) };
        let c = d.get(i + h..e).ok_or(format!("box {} at {i} beyond end", String::from_utf8_lossy(&ty)))?;
        let name = String::from_utf8_lossy(&ty).to_string();
        if n == 0 && name != "ftyp" { p.issue("ftyp is not the second box"); }
        n += 1;
        if name == "jxll" && n != 2 { p.issue("jxll box does not follow ftyp"); }
        match name.as_str() {
            "Exif" => exif_payload(&mut p, "Exif box", c),
            "brob" => {
                if c.get(0..4) == Some(b"Exif") { match unbrotli(&c[4..]) { Some(x) => exif_payload(&mut p, "compressed Exif box", &x), None => { p.issue("broken brob"); p.exif.push(Carrier { kind: "broken".into(), tiff: vec![] }); } } }
                else { p.part("brob", c); }
            }
            "jxlc" => { whole += 1; p.part("jxlc", c); stream.extend(c); }
            "jxlp" => { partial += 1; if last_part { p.issue("jxlp after the last one"); } match be32(c, 0) { Some(x) => { if (x & 0x7fffffff) as usize != partial - 1 { p.issue("jxlp index"); } last_part = x >> 31 == 1; } None => p.issue("short jxlp") } p.part("jxlp", c); stream.extend(c.get(4..).unwrap_or(&[])); }
            _ => p.part(name.clone(), c),
        }
        i = e;
    }
    if whole + partial == 0 { p.issue("no codestream"); }
    if whole > 1 || (whole > 0 && partial > 0) { p.issue("several codestreams"); }
    if partial > 0 && !last_part { p.issue("last jxlp missing"); }
    Ok(p)
}

pub fn exif_blob(r: &mut Rng, t: &Blob) -> Blob {
    match r.below(9) { 0 | 1 => Blob::C(vec![Blob::h(&[0, 0, 0, 6]), Blob::h(b"Exif\0\0"), t.clone()]), 2 => { let n = *r.pick(&[1u8, 2, 4, 10, 30]); let f = Blob::fill(r, n as u64); Blob::C(vec![Blob::h(&[0, 0, 0, n]), f, t.clone()]) } _ => Blob::C(vec![Blob::h(&[0; 4]), t.clone()]) }
}

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let n = size(r, o.big);
    if o.exif.is_none() && o.extra.is_empty() && r.chance(1, 8) { return Spec::Naked { data: Blob::fill(r, n.max(2)) }; }
    let raw = |ty: &str, data: Blob| JBox::Raw { ty: ty.into(), data, form: 0 };
    let mut v = vec![];
    if r.chance(1, 3) {
        let k = 1 + r.below(3) as u32;
        for i in 0..k {
            let f = Blob::fill(r, n / k as u64); v.push(raw("jxlp", Blob::C(vec![Blob::H((i | if i + 1 == k { 1 << 31 } else { 0 }).to_be_bytes().to_vec()), f])));
            if r.chance(1, 5) { v.push(raw("free", Blob::h(b"gap"))); }
        }
    } else { let f = Blob::fill(r, n); v.push(raw("jxlc", Blob::C(vec![Blob::h(&[0xff, 0x0a]), f]))); }
    for _ in 0..r.below(4) {
        let k = if r.chance(1, 6) { extra(r, o.big, 40) } else { *r.pick(&[0u64, 1, 4, 9, 40]) }; let f = Blob::fill(r, k);
        let b = match r.below(8) { 0 | 1 => raw("jxli", f), 2 => raw("jbrd", f), 3 => raw("xml ", Blob::h(b"<x:xmpmeta>Exif</x:xmpmeta>")), 4 => JBox::Brob { inner: "xml ".into(), data: Blob::h(b"<x:xmpmeta></x:xmpmeta>"), form: 0 }, 5 => raw("jumb", f), 6 => raw("free", f), _ => JBox::Brob { inner: "jumb".into(), data: f, form: 0 } };
        let i = r.idx(v.len() + 1); v.insert(i, b);
    }
    for t in o.exif.iter().chain(o.extra.iter()) {
        let d = exif_blob(r, t);
        let b = if r.chance(1, 3) { JBox::Brob { inner: "Exif".into(), data: d, form: 0 } } else { raw("Exif", d) };
        let i = r.idx(v.len() + 1); v.insert(i, b);
    }
    // the level box, if any, comes right after ftyp
    if r.chance(1, 3) { v.insert(0, raw("jxll", Blob::h(&[10]))); }
    let mut ft = raw("ftyp", Blob::h(b"jxl \0\0\0\0jxl "));
    if r.chance(1, 10) { if let JBox::Raw { form, .. } = &mut ft { *form = 1; } }
    v.insert(0, ft);
    for b in v.iter_mut().skip(1) { if r.chance(1, 8) { match b { JBox::Raw { form, .. } | JBox::Brob { form, .. } => *form = 1 } } }
    if r.chance(1, 5) { if let Some(JBox::Raw { form, .. } | JBox::Brob { form, .. }) = v.last_mut() { *form = 2; } }
    Spec::Boxes { boxes: v }
}
