//! TIFF 6.0: the whole file is the EXIF structure, the picture is part of it.
use serde::{Deserialize, Serialize};
use crate::img::{Blob, Carrier, GenOpt, Parsed};
use crate::model::{self, add_strips, push, Hex, Layout, MMeta, MSpec, MTag, MV};
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec { pub meta: MSpec, pub lay: Layout }
impl Spec { pub fn build(&self) -> Vec<u8> { model::encode(&MMeta::from_spec(&self.meta), &self.lay) } }

/// Tags without which the picture cannot be interpreted (or looks different).
pub const STRUCTURAL: &[u16] = &[0x00fe, 0x00ff, 0x0100, 0x0101, 0x0102, 0x0103, 0x0106, 0x010a, 0x0111, 0x0115, 0x0116, 0x0117, 0x011c, 0x0122, 0x0123, 0x0124, 0x0125, 0x013d, 0x013e, 0x013f, 0x0140, 0x0142, 0x0143, 0x0144, 0x0145, 0x014a, 0x014c, 0x014d, 0x014e, 0x0150, 0x0151,
    0x0152, 0x0153, 0x0154, 0x0155, 0x015b, 0x0200, 0x0201, 0x0202, 0x0203, 0x0205, 0x0206, 0x0207, 0x0208, 0x0209, 0x0211, 0x0212, 0x0213, 0x0214, 0x8773];

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    let x = model::decode(d)?;
    p.issues = x.issues;
    p.slack = d.len() - x.used;
    p.part("byte order", if x.meta.be { b"big" } else { b"little" });
    for ((nr, g), dir) in &x.meta.canon().ifds {
        if *g != 0 { continue; }
        for (h, v) in dir {
            let v = if model::is_position(*h) { &x.meta.ifds[&(*nr, *g)][h] } else { v };
            if !STRUCTURAL.contains(h) { continue; }
            let mut b = vec![];
            match v {
                // SHORT and LONG say the same
                MV::Raw(3, d) => { b.extend(4u16.to_le_bytes()); for c in d.chunks(2) { b.extend(c); b.extend([0, 0]); } }
                MV::Raw(2, d) => { b.extend(2u16.to_le_bytes()); let n = d.iter().rposition(|c| *c != 0).map_or(0, |x| x + 1); b.extend(model::utf8(&d[..n])); }
                MV::Raw(t, d) => { b.extend(t.to_le_bytes()); b.extend(d); } MV::Strips(s) => for x in s { b.extend((x.0.len() as u32).to_le_bytes()); b.extend(&x.0); }, MV::Thumb(t) => b.extend(t) }
            p.part(format!("page {nr} tag {h:04x}"), &b);
        }
    }
    p.exif.push(Carrier { kind: "tiff".into(), tiff: d.to_vec() });
    Ok(p)
}

fn le16(v: &[u16]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }
fn le32(v: &[u32]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() }

fn page(r: &mut Rng, s: &mut MSpec, nr: u32) {
    let mut t = |hex: u16, v: MV| push(s, MTag { nr, grp: 0, hex, v });
    let spp = *r.pick(&[1u16, 3, 4]);
    t(0x100, MV::Raw(4, le32(&[1 + r.below(5000) as u32]))); t(0x101, MV::Raw(4, le32(&[1 + r.below(5000) as u32])));
    t(0x102, MV::Raw(3, le16(&vec![8; spp as usize]))); t(0x103, MV::Raw(3, le16(&[*r.pick(&[1, 5, 32773])]))); t(0x106, MV::Raw(3, le16(&[2])));
    t(0x115, MV::Raw(3, le16(&[spp]))); t(0x116, MV::Raw(4, le32(&[1 + r.below(64) as u32])));
    t(0x11a, MV::Raw(5, le32(&[72, 1]))); t(0x11b, MV::Raw(5, le32(&[300, 1]))); t(0x128, MV::Raw(3, le16(&[2])));
    if r.chance(1, 3) { t(0x11c, MV::Raw(3, le16(&[1 + r.below(2) as u16]))); }
    if r.chance(1, 3) { t(0x13d, MV::Raw(3, le16(&[2]))); }
    if spp == 4 { t(0x152, MV::Raw(3, le16(&[1]))); }
    if r.chance(1, 3) { t(0x153, MV::Raw(3, le16(&vec![1; spp as usize]))); }
    if r.chance(1, 4) { t(0x10a, MV::Raw(3, le16(&[1]))); }
    if r.chance(1, 4) { t(0xfe, MV::Raw(4, le32(&[0]))); }
    if r.chance(1, 4) { let n = 5 + r.idx(60); t(0x8773, MV::Raw(7, r.bytes(n))); }
    if r.chance(1, 5) { t(0x140, MV::Raw(3, { let n = 3 * (1 + r.idx(8)); r.bytes(2 * n) })); }
    if r.chance(1, 5) { t(0x212, MV::Raw(3, le16(&[2, 2]))); t(0x213, MV::Raw(3, le16(&[1]))); }
    if r.chance(1, 5) { t(0x14c, MV::Raw(3, le16(&[1]))); t(0x14e, MV::Raw(3, le16(&[4]))); t(0x14d, MV::Raw(2, b"C\0M\0Y\0K\0".to_vec())); }
    if r.chance(1, 5) { t(0x150, MV::Raw(*r.pick(&[1u16, 1]), vec![0, 255])); t(0x151, MV::Raw(2, b"target\0".to_vec())); }
    let n = if r.chance(1, 60) { 250 + r.idx(60) } else { 1 + r.idx(4) };
    add_strips(r, s, nr, n, true);
}

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let (mut meta, mut lay) = (MSpec { be: r.chance(1, 2), tags: vec![] }, Layout { seed: if r.chance(1, 2) { 1 + r.below(1 << 30) } else { 0 }, odd: r.chance(1, 3), tail: if r.chance(1, 4) { r.below(30) as u32 } else { 0 }, ..Layout::default() });
    if let Some(Blob::T { meta: m, lay: l }) = &o.exif { meta.be = m.be; lay = l.clone(); for t in &m.tags { if !matches!(t.hex, 0x0111 | 0x0117) { push(&mut meta, t.clone()); } } }
    let pages = meta.tags.iter().map(|t| t.nr).max().unwrap_or(0);
    let more = if r.chance(1, 4) { 1 } else { 0 };
    for nr in 0..=pages + more { page(r, &mut meta, nr); }
    if r.chance(1, 12) {
        // data that is found through further tags: tiles, and directories of reduced images
        let nr = r.below((pages + more + 1) as u64) as u32;
        let w = |v: u16| if meta.be { v.to_be_bytes() } else { v.to_le_bytes() };
        let n = 1 + r.idx(3);
        if r.chance(1, 4) {
            // tables of old-style JPEG
            let t: Vec<Hex> = (0..n).map(|_| Hex(r.bytes(64))).collect();
            push(&mut meta, MTag { nr, grp: 0, hex: 0x200, v: MV::Raw(3, le16(&[1])) });
            push(&mut meta, MTag { nr, grp: 0, hex: *r.pick(&[0x207, 0x208, 0x209]), v: MV::Strips(t) });
        } else if r.chance(1, 2) {
            let t: Vec<Hex> = (0..n).map(|_| { let k = 1 + r.idx(90); Hex(r.bytes(k)) }).collect();
            let c = le32(&t.iter().map(|x| x.0.len() as u32).collect::<Vec<_>>());
            if r.chance(2, 3) { meta.tags.retain(|x| !(x.nr == nr && x.grp == 0 && matches!(x.hex, 0x0111 | 0x0117))); }
            for (h, v) in [(0x142, MV::Raw(3, le16(&[16]))), (0x143, MV::Raw(3, le16(&[16]))), (0x144, MV::Strips(t)), (0x145, MV::Raw(4, c))] { push(&mut meta, MTag { nr, grp: 0, hex: h, v }); }
        } else {
            let t: Vec<Hex> = (0..n).map(|_| { let mut d = w(1).to_vec(); d.extend(w(0x100)); d.extend(w(3)); d.extend(if meta.be { [0, 0, 0, 1] } else { [1, 0, 0, 0] }); d.extend(w(r.below(65536) as u16)); d.extend([0; 6]); Hex(d) }).collect();
            push(&mut meta, MTag { nr, grp: 0, hex: 0x14a, v: MV::Strips(t) });
        }
    }
    if r.chance(1, 8) { lay.front = *r.pick(&[150, 248, 300, 2000, 65_500, 65_526, 65_528, 66_000]); }
    Spec { meta, lay }
}
