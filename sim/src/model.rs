//! Reference model of EXIF metadata: a map (image directory number, group, tag number) -> value, an independent encoder with
//! free choice of layout (as other software would produce) and an independent, strict decoder.

use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};

use crate::rng::Rng;
use crate::tagtable::TAGS;

pub const GENERIC: u8 = 0; pub const EXIF: u8 = 1; pub const INTEROP: u8 = 2; pub const GPS: u8 = 3;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum MV {
    /// TIFF type code and the components in little-endian byte order
    Raw(u16, #[serde(with = "hexs")] Vec<u8>),
    Strips(Vec<Hex>),
    Thumb(#[serde(with = "hexs")] Vec<u8>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Hex(#[serde(with = "hexs")] pub Vec<u8>);

pub mod hexs {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        // long runs are abbreviated: "~LEN:SEED" stands for pseudo-random filler, see super::filler
        s.serialize_str(&v.iter().map(|b| format!("{b:02x}")).collect::<String>())
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).map_err(serde::de::Error::custom)).collect()
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct MTag { pub nr: u32, pub grp: u8, pub hex: u16, pub v: MV }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct MSpec { pub be: bool, pub tags: Vec<MTag> }

pub type Dir = BTreeMap<u16, MV>;
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MMeta { pub be: bool, pub ifds: BTreeMap<(u32, u8), Dir> }

/// Tags that say where in a file further data is
pub fn is_position(hex: u16) -> bool { matches!(hex, 0x0144 | 0x014a | 0x0207 | 0x0208 | 0x0209) }
pub fn type_size(t: u16) -> usize { match t { 1 | 2 | 6 | 7 => 1, 3 | 8 => 2, 4 | 9 | 11 => 4, 5 | 10 | 12 => 8, _ => 0 } }
/// size of the unit that is byte-swapped
pub fn swap_unit(t: u16) -> usize { match t { 1 | 2 | 6 | 7 => 1, 3 | 8 => 2, 4 | 9 | 11 | 5 | 10 => 4, 12 => 8, _ => 1 } }

pub fn swap(t: u16, d: &[u8], be: bool) -> Vec<u8> {
    let u = swap_unit(t);
    if !be || u == 1 { return d.to_vec(); }
    let mut o = d.to_vec();
    for c in o.chunks_mut(u) { c.reverse(); }
    o
}

fn trim(d: &[u8]) -> Vec<u8> { let mut n = d.len(); while n > 0 && d[n - 1] == 0 { n -= 1; } d[..n].to_vec() }

impl MMeta {
    pub fn from_spec(s: &MSpec) -> MMeta {
        let mut m = MMeta { be: s.be, ifds: BTreeMap::new() };
        for t in &s.tags { m.set(t); }
        m
    }
    pub fn set(&mut self, t: &MTag) {
        self.ifds.entry((t.nr, t.grp)).or_default().insert(t.hex, t.v.clone());
        // the directories leading there exist as well
        if t.grp == INTEROP { self.ifds.entry((t.nr, EXIF)).or_default(); }
        if t.grp != GENERIC { self.ifds.entry((t.nr, GENERIC)).or_default(); }
    }
    /// The form in which two models are compared: no empty directories, text without terminators.
    pub fn canon(&self) -> MMeta {
        let mut r = MMeta { be: self.be, ifds: BTreeMap::new() };
        for (k, d) in &self.ifds {
            let mut nd = Dir::new();
            for (h, v) in d {
                // a position in a file is no value
                if k.1 == GENERIC && is_position(*h) { nd.insert(*h, MV::Raw(0, vec![])); continue; }
                nd.insert(*h, match v { MV::Raw(2, s) if k.1 != GPS || !matches!(h, 5 | 0x1b) => MV::Raw(2, trim(&utf8(s))), MV::Raw(t, s) => int_canon(k.1, *h, *t, s), x => x.clone() });
            }
            if !nd.is_empty() { r.ifds.insert(*k, nd); }
        }
        r
    }
    pub fn is_empty(&self) -> bool { self.ifds.values().all(|d| d.is_empty()) }
    /// Human-readable difference.
    pub fn diff(&self, other: &MMeta, what_self: &str, what_other: &str, check_endian: bool) -> Option<String> {
        let (a, b) = (self.canon(), other.canon());
        if check_endian && a.be != b.be { return Some(format!("byte order differs: {what_self} {} / {what_other} {}", if a.be { "big" } else { "little" }, if b.be { "big" } else { "little" })); }
        let keys: BTreeSet<(u32, u8)> = a.ifds.keys().chain(b.ifds.keys()).cloned().collect();
        let empty = Dir::new();
        for k in keys {
            let (da, db) = (a.ifds.get(&k).unwrap_or(&empty), b.ifds.get(&k).unwrap_or(&empty));
            let hs: BTreeSet<u16> = da.keys().chain(db.keys()).cloned().collect();
            for h in hs {
                let (va, vb) = (da.get(&h), db.get(&h));
                if va != vb {
                    return Some(format!("directory {} group {} tag 0x{:04x}: {} has {} but {} has {}", k.0, k.1, h, what_self, show(va), what_other, show(vb)));
                }
            }
        }
        None
    }
}
/// Text that is not UTF-8 is Latin-1; it means the same when re-encoded.
pub fn utf8(s: &[u8]) -> Vec<u8> {
    if std::str::from_utf8(s).is_ok() { s.to_vec() } else { s.iter().map(|b| *b as char).collect::<String>().into_bytes() }
}
/// Integers of a standard tag mean the same in every width: they are compared in the tag's own type if they fit.
fn int_canon(grp: u8, hex: u16, t: u16, d: &[u8]) -> MV {
    let same = || MV::Raw(t, d.to_vec());
    if grp == GPS && hex == 0x001b && matches!(t, 2 | 7) { return MV::Raw(7, trim(d)); }
    if grp == GPS && hex == 0x0005 && t == 2 { return match d.first() { None | Some(0 | b'0') => MV::Raw(1, vec![0]), Some(1 | b'1') => MV::Raw(1, vec![1]), _ => same() }; }
    let Some(w) = std_type(grp, hex) else { return same() };
    if w == 10 && t == 5 && d.chunks(4).all(|c| c[3] < 0x80) { return MV::Raw(10, d.to_vec()); }
    as_int(w, t, d).map(|d| MV::Raw(w, d)).unwrap_or_else(same)
}
pub fn std_type(grp: u8, hex: u16) -> Option<u16> { TAGS.iter().find(|x| x.0 == grp && x.1 == hex).map(|x| x.2) }
/// the same integers in another width
fn as_int(w: u16, t: u16, d: &[u8]) -> Option<Vec<u8>> {
    if w == t || !matches!(t, 1 | 3 | 4) || !matches!(w, 1 | 3 | 4) { return None; }
    let v: Vec<u32> = d.chunks(type_size(t)).map(|c| { let mut b = [0u8; 4]; b[..c.len()].copy_from_slice(c); u32::from_le_bytes(b) }).collect();
    let y = type_size(w);
    if v.iter().any(|x| (*x as u64) >= 1u64 << (8 * y)) { return None; }
    Some(v.iter().flat_map(|x| x.to_le_bytes()[..y].to_vec()).collect())
}
/// Stores a standard tag's value the way some other software does: integers in another width, a signed fraction as an unsigned
/// one, GPSAltitudeRef and GPSProcessingMethod as text.
pub fn disguise(r: &mut Rng, t: &mut MTag) {
    if matches!(t.hex, 0x0111 | 0x0117 | 0x0201 | 0x0202) { return; }
    let MV::Raw(w, d) = &t.v else { return };
    if std_type(t.grp, t.hex) != Some(*w) { return; }
    let n = if t.grp == GPS && t.hex == 0x0005 { MV::Raw(2, vec![*r.pick(&[b'0', b'1', 1])]) }
        else if t.grp == GPS && t.hex == 0x001b { MV::Raw(2, trim(d).iter().map(|b| b & 0x7f | 0x20).collect()) }
        else if *w == 10 { MV::Raw(5, d.chunks(4).flat_map(|c| [c[0], c[1], c[2], c[3] & 0x7f]).collect()) }
        else { let k = *r.pick(&[1, 3, 4]); if *w == 1 && k == 4 { return; } match as_int(k, *w, d) { Some(d) => MV::Raw(k, d), None => return } };
    t.v = n;
}
fn show(v: Option<&MV>) -> String {
    match v {
        None => "nothing".into(),
        Some(MV::Raw(t, d)) => format!("type {} x{} {}", t, d.len() / type_size(*t).max(1), short(d)),
        Some(MV::Strips(s)) => format!("{} strips of {:?} bytes", s.len(), s.iter().map(|x| x.0.len()).collect::<Vec<_>>()),
        Some(MV::Thumb(d)) => format!("thumbnail of {} bytes", d.len()),
    }
}
pub fn short(d: &[u8]) -> String {
    let h: String = d.iter().take(24).map(|b| format!("{b:02x}")).collect();
    if d.len() > 24 { format!("{h}..({})", d.len()) } else { h }
}

// ------------------------------------------------------------------------------------------------ independent encoder

/// How other software might have laid out the structure.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, Default)]
pub struct Layout {
    /// pseudo-random choice of gaps and of the order of value areas and sub-directories; 0 = compact
    pub seed: u64,
    /// write text without a terminating NUL when its length allows it
    pub bare_text: bool,
    /// put all directories before all values
    pub dirs_first: bool,
    /// bytes left over at the end
    pub tail: u32,
    /// place values at odd offsets too (common in the wild)
    pub odd: bool,
    /// encode known INT32U tags with values < 65536 as INT16U
    pub narrow: bool,
    /// multi-strip thumbnails in IFD1 etc. are expressed by the tags themselves; nothing to choose
    pub no_final_link: bool,
    /// other bytes before the first directory
    #[serde(default)] pub front: u32,
}

struct Enc<'a> { be: bool, out: Vec<u8>, rng: Rng, lay: &'a Layout }

impl Enc<'_> {
    fn u16(&self, v: u16) -> [u8; 2] { if self.be { v.to_be_bytes() } else { v.to_le_bytes() } }
    fn u32(&self, v: u32) -> [u8; 4] { if self.be { v.to_be_bytes() } else { v.to_le_bytes() } }
    fn gap(&mut self) {
        if self.lay.seed != 0 && self.rng.chance(1, 4) { let n = self.rng.below(9) as usize; let b = self.rng.bytes(n); self.out.extend(b); }
        if self.lay.odd && self.lay.seed != 0 { return; }
        if self.out.len() % 2 == 1 { self.out.push(0); }
    }
    fn blob(&mut self, d: &[u8]) -> u32 { self.gap(); let p = self.out.len() as u32; self.out.extend(d); p }
    fn patch(&mut self, at: usize, v: [u8; 4]) { self.out[at..at + 4].copy_from_slice(&v); }
    fn even(&mut self) { if self.out.len() % 2 == 1 { self.out.push(0); } }
}

enum Late { Value(Vec<u8>), Strips(Vec<Vec<u8>>), Sub(u8) }

fn write_dir(e: &mut Enc, m: &MMeta, nr: u32, grp: u8) -> (u32, usize) {
    let empty = Dir::new();
    let dir = m.ifds.get(&(nr, grp)).unwrap_or(&empty);
    let mut entries: Vec<(u16, u16, u32, Option<[u8; 4]>, Option<Late>)> = vec![];
    for (h, v) in dir {
        match v {
            MV::Raw(t, d) => {
                let mut t = *t;
                let mut d = d.clone();
                if t == 2 { d = trim(&d); if !(e.lay.bare_text && !d.is_empty()) { d.push(0); } }
                if t == 4 && e.lay.narrow && d.len() % 4 == 0 && d.chunks(4).all(|c| c[2] == 0 && c[3] == 0) && TAGS.iter().any(|x| x.0 == grp && x.1 == *h && x.2 == 4) {
                    t = 3; d = d.chunks(4).flat_map(|c| [c[0], c[1]]).collect();
                }
                let n = (d.len() / type_size(t).max(1)) as u32;
                let raw = swap(t, &d, e.be);
                if raw.len() <= 4 { let mut f = [0u8; 4]; f[..raw.len()].copy_from_slice(&raw); entries.push((*h, t, n, Some(f), None)); }
                else { entries.push((*h, t, n, None, Some(Late::Value(raw)))); }
            }
            MV::Strips(s) => {
                let bytes: Vec<Vec<u8>> = s.iter().map(|x| x.0.clone()).collect();
                entries.push((*h, 4, s.len() as u32, None, Some(Late::Strips(bytes))));
            }
            MV::Thumb(d) => entries.push((*h, 4, 1, None, Some(Late::Strips(vec![d.clone()])))),
        }
    }
    let subs: &[(u8, u16, u8)] = &[(GENERIC, 0x8769, EXIF), (GENERIC, 0x8825, GPS), (EXIF, 0xa005, INTEROP)];
    for (g, h, s) in subs { if *g == grp && m.ifds.contains_key(&(nr, *s)) { entries.push((*h, 4, 1, None, Some(Late::Sub(*s)))); } }
    entries.sort_by_key(|x| x.0);

    e.even();
    let start = e.out.len();
    let n = e.u16(entries.len() as u16); e.out.extend(n);
    for (h, t, c, inline, _) in &entries {
        let (h, t, c) = (e.u16(*h), e.u16(*t), e.u32(*c));
        e.out.extend(h); e.out.extend(t); e.out.extend(c); e.out.extend(inline.unwrap_or([0; 4]));
    }
    let link = e.out.len();
    e.out.extend([0u8; 4]);

    let mut late: Vec<(usize, Late)> = entries.into_iter().enumerate().filter_map(|(i, x)| x.4.map(|l| (start + 2 + 12 * i + 8, l))).collect();
    if e.lay.seed != 0 { for i in (1..late.len()).rev() { let j = e.rng.idx(i + 1); late.swap(i, j); } }
    if e.lay.dirs_first { late.sort_by_key(|x| !matches!(x.1, Late::Sub(_))); }
    for (at, l) in late {
        match l {
            Late::Value(d) => { let p = e.blob(&d); let p = e.u32(p); e.patch(at, p); }
            Late::Strips(s) => {
                let mut offs = vec![];
                for (i, x) in s.iter().enumerate() {
                    // the same data may be stored once
                    let o = match s[..i].iter().position(|y| y == x) { Some(j) if e.lay.seed % 2 == 1 && !x.is_empty() => offs[j], _ => e.blob(x) };
                    offs.push(o);
                }
                if e.lay.narrow && !offs.is_empty() && offs.iter().all(|o| *o < 65536) {
                    // positions fit into SHORTs
                    let t = e.u16(3); e.out[at - 6..at - 4].copy_from_slice(&t);
                    let d: Vec<u8> = offs.iter().flat_map(|o| e.u16(*o as u16)).collect();
                    let mut f = [0u8; 4];
                    if d.len() <= 4 { f[..d.len()].copy_from_slice(&d); } else { let p = e.blob(&d); f = e.u32(p); }
                    e.patch(at, f);
                }
                else if offs.len() == 1 { let p = e.u32(offs[0]); e.patch(at, p); }
                else { let mut d = vec![]; for o in offs { d.extend(e.u32(o)); } let p = if d.is_empty() { 0 } else { e.blob(&d) }; let p = e.u32(p); e.patch(at, p); }
            }
            Late::Sub(g) => { let (p, _) = write_dir(e, m, nr, g); let p = e.u32(p); e.patch(at, p); }
        }
    }
    (start as u32, link)
}

/// Serialises the model as a TIFF structure.
pub fn encode(m: &MMeta, lay: &Layout) -> Vec<u8> {
    let mut e = Enc { be: m.be, out: vec![], rng: Rng::new(lay.seed), lay };
    e.out.extend(if m.be { *b"MM\0\x2a" } else { *b"II\x2a\0" });
    e.out.extend([0u8; 4]);
    if lay.seed != 0 && e.rng.chance(1, 3) { let n = 2 * e.rng.below(20) as usize; let b = e.rng.bytes(n); e.out.extend(b); }
    if lay.front > 0 { let b = e.rng.bytes(lay.front.min(100_000) as usize); e.out.extend(b); }
    let mut link_at = 4usize;
    let max = m.ifds.keys().filter(|k| k.1 == GENERIC).map(|k| k.0).max().unwrap_or(0);
    for nr in 0..=max {
        let (p, l) = write_dir(&mut e, m, nr, GENERIC);
        let p = e.u32(p); e.patch(link_at, p);
        link_at = l;
    }
    for _ in 0..lay.tail.min(100_000) { let b = e.rng.next() as u8; e.out.push(b); }
    e.out
}

// ------------------------------------------------------------------------------------------------ independent decoder

pub struct Decoded { pub meta: MMeta, pub issues: Vec<String>, pub used: usize }

struct Dec<'a> { d: &'a [u8], be: bool, issues: Vec<String>, areas: Vec<(usize, usize, String)>, seen: BTreeSet<usize> }

impl Dec<'_> {
    fn u16(&self, o: usize) -> Result<u16, String> { let b = self.d.get(o..o + 2).ok_or("offset beyond end")?; Ok(if self.be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) }) }
    fn u32(&self, o: usize) -> Result<u32, String> { let b = self.d.get(o..o + 4).ok_or("offset beyond end")?; let a = [b[0], b[1], b[2], b[3]]; Ok(if self.be { u32::from_be_bytes(a) } else { u32::from_le_bytes(a) }) }
    fn dir(&mut self, off: usize, nr: u32, grp: u8, m: &mut MMeta) -> Result<u32, String> {
        if !self.seen.insert(off) { return Err(format!("directory at {off} referenced twice")); }
        if off % 2 == 1 { self.issues.push(format!("directory {nr}/{grp} at odd offset {off}")); }
        let n = self.u16(off)? as usize;
        if self.d.len() < off + 2 + 12 * n + 4 { return Err(format!("directory {nr}/{grp} at {off} does not fit")); }
        self.areas.push((off, off + 2 + 12 * n + 4, format!("directory {nr}/{grp}")));
        let mut dir = Dir::new();
        let mut raw: BTreeMap<u16, (u16, Vec<u8>)> = BTreeMap::new();
        let mut last: Option<u16> = None;
        for i in 0..n {
            let p = off + 2 + 12 * i;
            let (h, t, c) = (self.u16(p)?, self.u16(p + 2)?, self.u32(p + 4)? as usize);
            if let Some(l) = last { if h == l { self.issues.push(format!("directory {nr}/{grp}: duplicate tag 0x{h:04x}")); } else if h < l { self.issues.push(format!("directory {nr}/{grp}: tag 0x{h:04x} out of order after 0x{l:04x}")); } }
            last = Some(h);
            let size = type_size(t);
            if size == 0 { return Err(format!("directory {nr}/{grp}: tag 0x{h:04x} has unknown type {t}")); }
            let len = size.checked_mul(c).ok_or("count overflow")?;
            let bytes = if len <= 4 {
                if self.d[p + 8 + len..p + 12].iter().any(|b| *b != 0) { self.issues.push(format!("directory {nr}/{grp}: tag 0x{h:04x} has stray bytes after its inline value")); }
                self.d[p + 8..p + 8 + len].to_vec()
            } else {
                let o = self.u32(p + 8)? as usize;
                let b = self.d.get(o..o.checked_add(len).ok_or("overflow")?).ok_or(format!("directory {nr}/{grp}: value of tag 0x{h:04x} ({len} bytes at {o}) beyond end ({})", self.d.len()))?;
                if o % 2 == 1 { self.issues.push(format!("directory {nr}/{grp}: value of tag 0x{h:04x} at odd offset {o}")); }
                let b = b.to_vec();
                self.areas.push((o, o + len, format!("value of 0x{h:04x} in {nr}/{grp}")));
                b
            };
            if t == 2 && !bytes.ends_with(&[0]) { self.issues.push(format!("directory {nr}/{grp}: text of tag 0x{h:04x} not terminated")); }
            raw.insert(h, (t, swap(t, &bytes, self.be)));
        }
        let link = self.u32(off + 2 + 12 * n)?;
        let ints = |v: &(u16, Vec<u8>)| -> Vec<usize> { match v.0 { 3 => v.1.chunks(2).map(|c| c[0] as usize | (c[1] as usize) << 8).collect(), 4 => v.1.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as usize).collect(), _ => vec![] } };
        for (off_tag, len_tag, strips) in [(0x0111u16, 0x0117u16, true), (0x0201, 0x0202, false)] {
            if let (Some(o), Some(l)) = (raw.get(&off_tag).cloned(), raw.get(&len_tag).cloned()) {
                let (o, l) = (ints(&o), ints(&l));
                if o.len() != l.len() { return Err(format!("directory {nr}/{grp}: {} offsets but {} lengths", o.len(), l.len())); }
                let mut s = vec![];
                for (a, b) in o.iter().zip(&l) {
                    s.push(Hex(self.d.get(*a..a.checked_add(*b).ok_or("overflow")?).ok_or(format!("directory {nr}/{grp}: data of tag 0x{off_tag:04x} ({b} bytes at {a}) beyond end"))?.to_vec()));
                    if *b > 0 { self.areas.push((*a, a + b, format!("data of 0x{off_tag:04x} in {nr}/{grp}"))); }
                }
                raw.remove(&off_tag);
                let v = if strips { MV::Strips(s) } else { MV::Thumb(s.pop().map(|x| x.0).unwrap_or_default()) };
                dir.insert(off_tag, v);
            }
        }
        if grp == GENERIC {
            if let (Some(o), Some(l)) = (raw.get(&0x0144), raw.get(&0x0145)) {
                let (o, l) = (ints(o), ints(l));
                let t: Option<Vec<Hex>> = o.iter().zip(&l).map(|(a, b)| self.d.get(*a..a.checked_add(*b)?).map(|x| Hex(x.to_vec()))).collect();
                if let (Some(t), true) = (t, o.len() == l.len()) { raw.remove(&0x0144); dir.insert(0x0144, MV::Strips(t)); }
            }
            if let Some(o) = raw.get(&0x014a) {
                let t: Option<Vec<Hex>> = ints(o).iter().map(|a| { let n = self.u16(*a).ok()? as usize; self.d.get(*a..a.checked_add(6 + 12 * n)?).map(|x| Hex(x.to_vec())) }).collect();
                if let Some(t) = t { raw.remove(&0x014a); dir.insert(0x014a, MV::Strips(t)); }
            }
            for h in [0x0207, 0x0208, 0x0209] { if let Some(o) = raw.get(&h) {
                let t: Option<Vec<Hex>> = ints(o).iter().map(|a| self.d.get(*a..a.checked_add(64)?).map(|x| Hex(x.to_vec()))).collect();
                if let Some(t) = t { raw.remove(&h); dir.insert(h, MV::Strips(t)); }
            } }
        }
        let subs: &[(u8, u16, u8)] = &[(GENERIC, 0x8769, EXIF), (GENERIC, 0x8825, GPS), (EXIF, 0xa005, INTEROP)];
        for (g, h, s) in subs {
            if *g == grp { if let Some(v) = raw.remove(h) { let o = *ints(&v).first().ok_or(format!("pointer 0x{h:04x} without a value"))?; let l = self.dir(o, nr, *s, m)?; if l != 0 { self.issues.push(format!("sub-directory {nr}/{s} links to another directory")); } } }
        }
        for (h, (t, b)) in raw { dir.insert(h, MV::Raw(t, b)); }
        m.ifds.insert((nr, grp), dir);
        Ok(link)
    }
}

pub fn decode(d: &[u8]) -> Result<Decoded, String> { std::panic::catch_unwind(|| decode_it(d)).unwrap_or_else(|_| Err("not decodable".into())) }
fn decode_it(d: &[u8]) -> Result<Decoded, String> {
    let be = match d.get(0..4) { Some(b"II\x2a\0") => false, Some(b"MM\0\x2a") => true, x => return Err(format!("no TIFF header: {x:02x?}")) };
    let mut c = Dec { d, be, issues: vec![], areas: vec![(0, 8, "header".into())], seen: BTreeSet::new() };
    let mut m = MMeta { be, ifds: BTreeMap::new() };
    let mut off = c.u32(4)? as usize;
    let mut nr = 0;
    while off != 0 { off = c.dir(off, nr, GENERIC, &mut m)? as usize; nr += 1; if nr > 1000 { return Err("too many directories".into()); } }
    let mut a = c.areas.clone();
    a.sort();
    for w in a.windows(2) { if w[0].1 > w[1].0 { c.issues.push(format!("{} ({}..{}) overlaps {} ({}..{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    let used = a.iter().map(|x| x.1).max().unwrap_or(8);
    Ok(Decoded { meta: m, issues: c.issues, used })
}

// ------------------------------------------------------------------------------------------------ generation

pub fn gen_value(r: &mut Rng, t: u16, count: usize) -> Vec<u8> {
    match t {
        2 => {
            let mut s: Vec<u8> = (0..count).map(|_| match r.below(12) { 0 => b' ', 1 => b'\n', 2 => b'"', 3 => b'<', _ => 0x21 + r.below(94) as u8 }).collect();
            if count > 8 && r.chance(1, 6) { s.truncate(count - 2); s.extend("é".as_bytes()); }
            // text in another encoding, and several texts in one
            if count > 0 && r.chance(1, 8) { for _ in 0..1 + r.below(3) { let i = r.idx(s.len()); s[i] = if r.chance(1, 2) { 0x80 | r.below(128) as u8 } else { *r.pick(&[0xe9u8, 0xa9, 0xff, 0x80, 0xc3, 0x9f]) }; } }
            if count > 2 && r.chance(1, 8) { let i = if r.chance(1, 8) { 0 } else { 1 + r.idx(count - 2) }; s[i] = 0; }
            // characters that are easily taken for nothing, at either end
            if count > 0 && r.chance(1, 16) {
                let c = *r.pick(&["\u{feff}", "\u{a0}", "\u{200b}", "\u{2028}", "\r\n", "\t", "\u{1}", "\u{7f}", "  "]);
                if r.chance(1, 2) { s.splice(0..0, c.bytes()); } else { s.extend(c.bytes()); }
            }
            s
        }
        _ => {
            let n = type_size(t) * count;
            match r.below(9) {
                0 => vec![0u8; n],
                1 => vec![0xff; n],
                // numbers at the limits of their type
                2 if type_size(t) > 1 => {
                    let w = match t { 5 | 10 => 4, _ => type_size(t) };
                    (0..n / w).flat_map(|_| {
                        let x = match r.below(9) { 0 => 0u64, 1 => 1, 2 => u64::MAX, 3 => 1 << (8 * w - 1), 4 => (1 << (8 * w - 1)) - 1, 5 => 0x7ff0 << (8 * w).saturating_sub(16), 6 => 0x7f80 << (8 * w).saturating_sub(16), 7 => 0xff, _ => r.next() };
                        x.to_le_bytes()[..w].to_vec()
                    }).collect()
                }
                _ => r.bytes(n),
            }
        }
    }
}

/// Counts around the 4-byte inline limit are the interesting ones.
fn gen_count(r: &mut Rng, t: u16) -> usize {
    let inline = 4 / type_size(t).clamp(1, 4);
    // large values: around what a JPEG segment and a 16-bit length can hold
    match r.below(500) { 0 => return (65_000 + r.idx(1_200)) / type_size(t), 1..=3 => return (1_000 + r.idx(9_000)) / type_size(t), _ => {} }
    match r.below(10) { 0 => 1, 1 => inline.max(1), 2 => inline + 1, 3 => inline.saturating_sub(1).max(1), 4 => 1 + r.idx(60), 5 => 1 + r.idx(400), _ => 1 + r.idx(9) }
}

const UNKNOWN_TAGS: &[(u8, u16)] = &[(0, 0x000b), (0, 0x00fe), (0, 0x0107), (0, 0x02bc), (0, 0x4746), (0, 0x83bb), (0, 0x9c9b), (0, 0x9c9d), (0, 0xc4a5), (0, 0xea1c), (0, 0xfde8),
    (1, 0x0100), (1, 0x8822 + 0x0f00), (1, 0x9a00), (1, 0xa40d), (1, 0xa461 + 0x20), (1, 0xea1c), (1, 0xfe00), (1, 0xfffe), (2, 0x1000), (2, 0x1001), (2, 0x0003), (3, 0x0020), (3, 0x00ff), (3, 0xffff)];

pub fn gen_tag(r: &mut Rng, nr: u32, grp: u8) -> MTag {
    if r.chance(1, 5) {
        let c: Vec<_> = UNKNOWN_TAGS.iter().filter(|x| x.0 == grp).collect();
        let (_, h) = **r.pick(&c);
        if h != 0x0100 || grp == EXIF {
            let t = 1 + r.below(12) as u16;
            let n = gen_count(r, t);
            return MTag { nr, grp, hex: h, v: MV::Raw(t, gen_value(r, t, n)) };
        }
    }
    let c: Vec<_> = TAGS.iter().filter(|x| x.0 == grp).collect();
    let x = **r.pick(&c);
    let n = if x.2 == 2 { if r.chance(1, 12) { 0 } else { gen_count(r, 2) } } else if x.3 > 0 && !r.chance(1, 6) { x.3 as usize } else { gen_count(r, x.2) };
    MTag { nr, grp, hex: x.1, v: MV::Raw(x.2, gen_value(r, x.2, n)) }
}

/// A random metadata object. `foreign` allows big endian, further directories and thumbnails (things only reading can produce).
pub fn gen_meta(r: &mut Rng, foreign: bool, max_tags: u64) -> MSpec {
    let mut s = MSpec { be: foreign && r.chance(1, 2), tags: vec![] };
    let n = match r.below(10) { 0 => 1, 1 => max_tags, _ => 1 + r.below(max_tags) };
    let groups: Vec<u8> = match r.below(6) { 0 => vec![0], 1 => vec![0, 1], 2 => vec![0, 1, 3], 3 => vec![1], 4 => vec![2, 3], _ => vec![0, 1, 2, 3] };
    for _ in 0..n { let g = *r.pick(&groups); let t = gen_tag(r, 0, g); push(&mut s, t); }
    // more tags than fit a byte
    if max_tags > 2 && r.chance(1, 200) { let g = *r.pick(&groups); for j in 0..230 + r.below(400) as u16 { let n = 1 + r.idx(6); let t = *r.pick(&[1u16, 7]); push(&mut s, MTag { nr: 0, grp: g, hex: 0xd000 | j, v: MV::Raw(t, gen_value(r, t, n)) }); } }
    if foreign && r.chance(1, 3) {
        let more = if r.chance(1, 16) { 3 + r.below(8) as u32 } else { 1 + r.below(2) as u32 };
        for nr in 1..=more {
            for _ in 0..1 + r.below(4) { let t = gen_tag(r, nr, GENERIC); push(&mut s, t); }
            if r.chance(2, 3) {
                let n = match r.below(4) { 0 => 1, 1 => 2 + r.idx(50), _ => 100 + r.idx(900) };
                let mut d = vec![0xff, 0xd8]; d.extend(r.bytes(n)); d.extend([0xff, 0xd9]);
                push(&mut s, MTag { nr, grp: 0, hex: 0x0202, v: MV::Raw(4, (d.len() as u32).to_le_bytes().to_vec()) });
                push(&mut s, MTag { nr, grp: 0, hex: 0x0201, v: MV::Thumb(d) });
            } else if r.chance(1, 2) { let n = 1 + r.idx(3); add_strips(r, &mut s, nr, n, false); }
            if r.chance(1, 4) { let g = 1 + r.below(3) as u8; let t = gen_tag(r, nr, g); push(&mut s, t); }
        }
    }
    s
}
pub fn add_strips(r: &mut Rng, s: &mut MSpec, nr: u32, n: usize, large: bool) {
    let mut strips: Vec<Hex> = (0..n).map(|_| { let k = match r.below(96) { 0..=5 => 0, _ if n > 20 => r.idx(9), 6..=9 => 240 + r.idx(30), 10 => 1000 + r.idx(4000), 11 if large && r.chance(1, 4) => 65_500 + r.idx(2000), _ => 1 + r.idx(90) }; Hex(r.bytes(k)) }).collect();
    if n > 1 && r.chance(1, 12) { let (i, j) = (r.idx(n), r.idx(n)); strips[i] = strips[j].clone(); }
    let counts: Vec<u8> = strips.iter().flat_map(|x| (x.0.len() as u32).to_le_bytes()).collect();
    push(s, MTag { nr, grp: 0, hex: 0x0111, v: MV::Strips(strips) });
    push(s, MTag { nr, grp: 0, hex: 0x0117, v: MV::Raw(4, counts) });
}
pub fn push(s: &mut MSpec, t: MTag) {
    if matches!(t.hex, 0x8769 | 0x8825) && t.grp == GENERIC { return; }
    s.tags.retain(|x| !(x.nr == t.nr && x.grp == t.grp && x.hex == t.hex));
    s.tags.push(t);
}
