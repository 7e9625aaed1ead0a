//! JPEG (ITU T.81, Exif 2.32 4.5.4)
use serde::{Deserialize, Serialize};
use crate::img::{be16, Blob, Carrier, GenOpt, Parsed, extra, size};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Seg { pub m: u8, pub fill: u8, pub data: Blob, pub scan: Option<Scan> }
/// entropy-coded data; FF bytes get stuffed, a restart marker is placed every `rst` bytes (0: never)
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Scan { pub data: Blob, pub rst: u32 }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec { pub segs: Vec<Seg>, pub eoi: bool, pub tail: Blob }

pub const EXIF: &[u8] = b"Exif\0\0";

impl Spec {
    pub fn build(&self) -> Vec<u8> {
        let mut o = vec![0xff, 0xd8];
        for s in &self.segs {
            for _ in 0..s.fill { o.push(0xff); }
            o.extend([0xff, s.m]);
            let mut d = s.data.bytes();
            d.truncate(65533);
            o.extend(((d.len() + 2) as u16).to_be_bytes());
            o.extend(d);
            if let Some(x) = &s.scan {
                let (mut n, mut k) = (0u32, 0u8);
                for b in x.data.bytes() {
                    o.push(b);
                    if b == 0xff { o.push(0); }
                    n += 1;
                    if x.rst > 0 && n % x.rst == 0 { o.extend([0xff, 0xd0 + k]); k = (k + 1) % 8; }
                }
            }
        }
        if self.eoi { o.extend([0xff, 0xd9]); }
        o.extend(self.tail.bytes());
        o
    }
}

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    if d.get(0..2) != Some(&[0xff, 0xd8]) { return Err("no SOI".into()); }
    let mut i = 2;
    let mut seen_sos = false;
    loop {
        if i >= d.len() { p.issue("no EOI"); break; }
        if d[i] != 0xff { return Err(format!("marker expected at {i}, found 0x{:02x}", d[i])); }
        while i < d.len() && d[i] == 0xff { i += 1; }
        let Some(m) = d.get(i).copied() else { p.issue("no EOI"); break; };
        i += 1;
        match m {
            0xd9 => { p.part("eoi", &[]); if i < d.len() { p.part("trailing", &d[i..]); } break; }
            0x00 => return Err(format!("marker 00 at {i}")),
            0xd8 => return Err(format!("second SOI at {i}")),
            0x01 | 0xd0..=0xd7 => { p.part(format!("marker {m:02x}"), &[]); }
            _ => {
                let l = be16(d, i).ok_or("segment length beyond end")? as usize;
                if l < 2 { return Err(format!("segment {m:02x} has length {l}")); }
                let c = d.get(i + 2..i + l).ok_or(format!("segment {m:02x} at {i} with length {l} beyond end"))?;
                i += l;
                if m == 0xe1 && c.starts_with(EXIF) {
                    if seen_sos { p.issue("EXIF segment after the first scan"); }
                    p.exif.push(Carrier { kind: "APP1".into(), tiff: c[6..].to_vec() });
                } else { p.part(format!("segment {m:02x}"), c); }
                if m == 0xda {
                    seen_sos = true;
                    let s = i;
                    while i < d.len() { if d[i] == 0xff && !matches!(d.get(i + 1), Some(0x00) | Some(0xd0..=0xd7)) { break; } i += 1; }
                    p.part("scan", &d[s..i]);
                }
            }
        }
    }
    Ok(p)
}

pub fn exif_seg(b: &Blob) -> Seg { Seg { m: 0xe1, fill: 0, data: Blob::C(vec![Blob::h(EXIF), b.clone()]), scan: None } }

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let seg = |m: u8, d: Blob| Seg { m, fill: 0, data: d, scan: None };
    let mut segs = vec![];
    let jfif = r.chance(2, 3);
    if jfif { segs.push(seg(0xe0, Blob::C(vec![Blob::h(b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0")]))); }
    let mut head: Vec<Seg> = vec![];
    let n = r.below(7);
    for _ in 0..n {
        let len = if r.chance(1, 6) { extra(r, o.big, 40) } else { *r.pick(&[0u64, 1, 2, 3, 5, 17, 60, 300]) };
        let f = Blob::fill(r, len);
        head.push(match r.below(14) {
            0 => seg(0xfe, Blob::C(vec![Blob::h(b"comment "), f])),
            1 => seg(0xfe, f),
            2 => seg(0xe1, Blob::C(vec![Blob::h(b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta xmlns:x=\"adobe:ns:meta/\"></x:xmpmeta>"), f])),
            3 => seg(0xe2, Blob::C(vec![Blob::h(b"ICC_PROFILE\0\x01\x01"), f])),
            4 => seg(0xe2, Blob::C(vec![Blob::h(b"MPF\0II\x2a\0"), f])),
            5 => seg(0xec, Blob::C(vec![Blob::h(b"Ducky"), f])),
            6 => seg(0xed, Blob::C(vec![Blob::h(b"Photoshop 3.0\08BIM"), f])),
            7 => seg(0xee, Blob::C(vec![Blob::h(b"Adobe\0"), f])),
            8 => seg(*r.pick(&[0xec, 0xed]), f),
            // contents that look like markers or like EXIF data
            9 => seg(0xfe, Blob::C(vec![Blob::h(b"\xff\xd8\xff\xe1\0\x10Exif\0\0II\x2a\0"), f, Blob::h(b"\xff\xd9")])),
            10 => seg(0xe1, Blob::C(vec![Blob::h(*r.pick(&[&b"Exif"[..], b"Exif\0", b"exif\0\0", b"ExifX\0", b""])), ])),
            11 => seg(0xe3, Blob::C(vec![Blob::h(b"Meta\0\0Exif\0\0MM\0\x2a"), f])),
            12 => seg(0xe1, f),
            _ => seg(0xe0 + r.below(16) as u8, Blob::C(vec![Blob::h(b"other\0"), f])),
        });
    }
    // the EXIF segment usually comes first, not always
    let mut ex: Vec<Seg> = o.exif.iter().chain(o.extra.iter()).map(exif_seg).collect();
    if let Some(e) = (!ex.is_empty()).then(|| ex.remove(0)) { if r.chance(2, 3) { head.insert(0, e) } else { let i = r.idx(head.len() + 1); head.insert(i, e) } }
    for e in ex { let i = r.idx(head.len() + 1); head.insert(i, e); }
    if jfif && r.chance(1, 8) { let x = segs.remove(0); let i = r.idx(head.len() + 1); head.insert(i, x); }
    segs.extend(head);
    let comps = *r.pick(&[1u8, 3]);
    let f = Blob::fill(r, 64); segs.push(seg(0xdb, Blob::C(vec![Blob::h(&[0]), f])));
    let mut sof = vec![8, 0, 16, 0, 16, comps]; for c in 0..comps { sof.extend([c + 1, 0x11, 0]); }
    let progressive = r.chance(1, 3);
    segs.push(seg(if progressive { 0xc2 } else { 0xc0 }, Blob::h(&sof)));
    let f = Blob::fill(r, 30); segs.push(seg(0xc4, f));
    let rst = if r.chance(1, 3) { 5 + r.below(30) as u32 } else { 0 };
    if rst > 0 { segs.push(seg(0xdd, Blob::h(&[0, 5]))); }
    let scans = if progressive { 1 + r.below(3) } else { 1 };
    for k in 0..scans {
        if k > 0 && r.chance(1, 2) { let f = Blob::fill(r, 20); segs.push(seg(0xc4, f)); }
        if k > 0 && r.chance(1, 3) { segs.push(seg(*r.pick(&[0xfe, 0xe5]), Blob::h(b"between scans"))); }
        let mut sos = vec![comps]; let odd = r.chance(1, 8); for c in 0..comps { if odd { sos.extend([255 - c, *r.pick(&[0u8, 1, 0x10, 0x11])]); } else { sos.extend([c + 1, 0]); } } sos.extend([0, 63, 0]);
        let n = size(r, o.big);
        let data = match r.below(4) { 0 => Blob::C(vec![Blob::h(&[0xff; 7]), Blob::fill(r, n)]), 1 => Blob::C(vec![Blob::fill(r, n), Blob::h(b"Exif\0\0\xff")]), _ => Blob::fill(r, n) };
        segs.push(Seg { m: 0xda, fill: 0, data: Blob::h(&sos), scan: Some(Scan { data, rst }) });
    }
    // a stream without an image (the abbreviated format), which can be very short
    if r.chance(1, 25) { segs.retain(|s| !(0xc0..=0xdf).contains(&s.m)); }
    if !segs.is_empty() && r.chance(1, 4) { let i = r.idx(segs.len()); segs[i].fill = 1 + r.below(3) as u8; }
    let tail = match r.below(6) { 0 => { let n = 1 + r.below(40); Blob::fill(r, n) } 1 => Blob::h(b"\xff\xd8\xff\xe1\0\x0aExif\0\0xx\xff\xd9"), 2 => Blob::h(&[0; 5]), _ => Blob::empty() };
    Spec { segs, eoi: r.chance(19, 20), tail }
}
