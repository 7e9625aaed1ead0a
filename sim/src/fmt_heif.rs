//! HEIF / AVIF still images (ISO/IEC 14496-12, 23008-12)
use std::collections::{BTreeMap, BTreeSet};

use serde::{Deserialize, Serialize};
use crate::fmt_jxl::{exif_payload, mkbox};
use crate::img::{b4, be32, be64, Blob, GenOpt, Parsed, extra, size};
use crate::rng::Rng;

/// method 0: in an mdat box, 1: in the idat box, 2: in the data of the item `share`, from byte `cuts[0]`, as many bytes as `cuts[1]`. `cuts`: the item is stored in several extents, split at these positions.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Item { pub id: u32, pub ty: String, pub name: String, pub tail: Blob, pub hidden: bool, pub data: Blob, pub method: u8, pub mdat: u8, pub cuts: Vec<u32>, pub gap: u8,
    /// stored in the same bytes as this other item
    #[serde(default)] pub share: Option<u32>,
    /// number of the data reference that says in which file it is
    #[serde(default)] pub dref: u16 }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Top { Meta, Mdat { form: u8 }, Raw { ty: String, data: Blob, form: u8 },
    /// an image sequence besides the image: its chunk table names positions in the file
    Moov { wide: bool } }
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Spec {
    pub major: String, pub compat: Vec<String>, pub top: Vec<Top>,
    pub order: Vec<String>, pub other: Vec<(String, Blob)>,
    pub items: Vec<Item>, pub refs: Vec<(String, u32, Vec<u32>)>, pub primary: u32,
    pub pitm_ver: u8, pub iinf_ver: u8, pub infe_ver: u8, pub iref_ver: u8, pub iloc_ver: u8,
    pub off: u8, pub len: u8, pub base: u8, pub idx: u8, pub large_meta: bool,
    /// the data references: whether each stands for this very file
    #[serde(default)] pub drefs: Vec<bool>,
    /// what follows after the last box
    #[serde(default = "Blob::empty")] pub tail: Blob,
}

fn full(v: u8, flags: u32) -> Vec<u8> { let mut o = vec![v]; o.extend(&flags.to_be_bytes()[1..]); o }
fn sized(o: &mut Vec<u8>, n: u8, v: u64) { o.extend(&v.to_be_bytes()[8 - n as usize..]); }
fn cstr(o: &mut Vec<u8>, s: &str) { o.extend(s.as_bytes()); o.push(0); }

/// where the extents of each item are: (item index) -> [(position, length)]
type Places = BTreeMap<usize, Vec<(u64, u64)>>;

impl Spec {
    fn external(&self, it: &Item) -> bool { it.dref > 0 && !self.drefs.get(it.dref as usize - 1).copied().unwrap_or(false) }
    fn pieces(&self, it: &Item) -> Vec<Vec<u8>> {
        let d = it.data.bytes();
        let mut v = vec![]; let mut at = 0;
        let mut c: Vec<usize> = it.cuts.iter().map(|c| *c as usize).filter(|c| *c > 0 && *c < d.len()).collect();
        c.sort(); c.dedup();
        for x in c { v.push(d[at..x].to_vec()); at = x; }
        v.push(d[at..].to_vec());
        v
    }
    /// content of the area (mdat number k, or the idat box) and the places relative to its start
    fn area(&self, method: u8, mdat: u8, pl: &mut Places, at: u64) -> Vec<u8> {
        let mut o = vec![];
        for (i, it) in self.items.iter().enumerate() {
            if it.method == 2 || self.external(it) { if method == 1 { pl.insert(i, vec![(it.cuts.first().copied().unwrap_or(0) as u64, it.cuts.get(1).copied().unwrap_or(0) as u64)]); } continue; }
            if it.method != method || (method == 0 && it.mdat != mdat) || it.share.is_some() { continue; }
            for p in self.pieces(it) {
                o.extend(std::iter::repeat(0xA5).take(it.gap as usize));
                pl.entry(i).or_default().push((at + o.len() as u64, p.len() as u64));
                o.extend(p);
            }
        }
        o
    }
    fn meta(&self, pl: &Places, idat: &[u8]) -> Vec<u8> {
        let mut m = full(0, 0);
        for b in &self.order {
            let c = match b.as_str() {
                "hdlr" => { let mut c = full(0, 0); c.extend([0; 4]); c.extend(b"pict"); c.extend([0; 12]); c.push(0); c }
                "pitm" => { let mut c = full(self.pitm_ver, 0); if self.pitm_ver == 0 { c.extend((self.primary as u16).to_be_bytes()); } else { c.extend(self.primary.to_be_bytes()); } c }
                "dinf" => mkbox(b"dref", &{ let mut c = full(0, 0); let one = [true]; let v: &[bool] = if self.drefs.is_empty() { &one } else { &self.drefs }; c.extend((v.len() as u32).to_be_bytes());
                    for (i, here) in v.iter().enumerate() { let mut e = full(0, *here as u32); if !*here { cstr(&mut e, &"http://example.com/elsewhere"[..10 + i * 7]); } c.extend(mkbox(b"url ", &e, 0)); } c }, 0),
                "iinf" => {
                    let mut c = full(self.iinf_ver, 0);
                    if self.iinf_ver == 0 { c.extend((self.items.len() as u16).to_be_bytes()); } else { c.extend((self.items.len() as u32).to_be_bytes()); }
                    for it in &self.items {
                        if it.ty == "?v0?" { let mut e = full(0, 0); e.extend((it.id as u16).to_be_bytes()); e.extend([0, 0]); cstr(&mut e, &it.name); cstr(&mut e, "text/plain"); c.extend(mkbox(b"infe", &e, 0)); continue; }
                        let v = if it.id > 0xffff { 3 } else { self.infe_ver };
                        let mut e = full(v, it.hidden as u32);
                        if v == 2 { e.extend((it.id as u16).to_be_bytes()); } else { e.extend(it.id.to_be_bytes()); }
                        e.extend([0, 0]); e.extend(b4(&it.ty)); cstr(&mut e, &it.name); e.extend(it.tail.bytes());
                        c.extend(mkbox(b"infe", &e, 0));
                    }
                    c
                }
                "iloc" => {
                    let mut c = full(self.iloc_ver, 0);
                    c.push(self.off << 4 | self.len); c.push(self.base << 4 | if self.iloc_ver > 0 { self.idx } else { 0 });
                    if self.iloc_ver < 2 { c.extend((self.items.len() as u16).to_be_bytes()); } else { c.extend((self.items.len() as u32).to_be_bytes()); }
                    for (i, it) in self.items.iter().enumerate() {
                        if self.iloc_ver < 2 { c.extend((it.id as u16).to_be_bytes()); } else { c.extend(it.id.to_be_bytes()); }
                        if self.iloc_ver > 0 { c.extend((it.method as u16).to_be_bytes()); }
                        c.extend(it.dref.to_be_bytes());
                        let e = pl.get(&i).cloned().unwrap_or_default();
                        let b = if self.base == 0 { 0 } else { e.iter().map(|x| x.0).min().unwrap_or(0) };
                        sized(&mut c, self.base, b);
                        c.extend((e.len() as u16).to_be_bytes());
                        for (p, l) in e { if self.iloc_ver > 0 { sized(&mut c, self.idx, (it.method == 2) as u64); } sized(&mut c, self.off, p - b); sized(&mut c, self.len, l); }
                    }
                    c
                }
                "iref" => {
                    let mut c = full(self.iref_ver, 0);
                    for (t, from, to) in &self.refs {
                        let mut e = vec![];
                        let id = |e: &mut Vec<u8>, i: u32| if self.iref_ver == 0 { e.extend((i as u16).to_be_bytes()) } else { e.extend(i.to_be_bytes()) };
                        id(&mut e, *from); e.extend((to.len() as u16).to_be_bytes()); for x in to { id(&mut e, *x); }
                        c.extend(mkbox(&b4(t), &e, 0));
                    }
                    c
                }
                "idat" => idat.to_vec(),
                o => self.other.iter().find(|x| x.0 == *o).map(|x| x.1.bytes()).unwrap_or_default(),
            };
            m.extend(mkbox(&b4(b), &c, 0));
        }
        mkbox(b"meta", &m, self.large_meta as u8)
    }
    fn assemble(&self, pl_in: &Places) -> (Vec<u8>, Places) {
        let mut pl = Places::new();
        let mut ft = b4(&self.major).to_vec(); ft.extend([0; 4]); for c in &self.compat { ft.extend(b4(c)); }
        let mut o = mkbox(b"ftyp", &ft, 0);
        let idat = self.area(1, 0, &mut pl, 0);
        let (mut k, mut raw) = (0u8, false);
        for (i, t) in self.top.iter().enumerate() {
            let last = i + 1 == self.top.len();
            let f = |form: u8| if form == 2 && !last { 0 } else { form };
            match t {
                Top::Meta => o.extend(self.meta(pl_in, &idat)),
                Top::Mdat { form } => { let form = f(*form); let at = o.len() as u64 + if form == 1 { 16 } else { 8 }; let d = self.area(0, k, &mut pl, at); o.extend(mkbox(b"mdat", &d, form)); k += 1; }
                Top::Raw { ty, data, form } => {
                    let mut c = data.bytes();
                    // items numbered 100 are stored in the first such box
                    if !raw { raw = true; let at = o.len() as u64 + if f(*form) == 1 { 16 } else { 8 } + c.len() as u64; c.extend(self.area(0, 100, &mut pl, at)); }
                    o.extend(mkbox(&b4(ty), &c, f(*form)))
                }
                Top::Moov { wide } => {
                    let at: Vec<u64> = pl_in.iter().filter(|x| self.items[*x.0].method == 0 && self.items[*x.0].ty != "Exif").flat_map(|x| x.1.iter().map(|y| y.0)).collect();
                    let mut c = full(0, 0); c.extend((at.len() as u32).to_be_bytes());
                    for a in at { if *wide { c.extend(a.to_be_bytes()); } else { c.extend((a as u32).to_be_bytes()); } }
                    let mut b = mkbox(if *wide { b"co64" } else { b"stco" }, &c, 0);
                    for t in [b"stbl", b"minf", b"mdia", b"trak", b"moov"] { b = mkbox(t, &b, 0); }
                    o.extend(b);
                }
            }
        }
        for (i, it) in self.items.iter().enumerate() { if it.method == 2 { continue; } if let Some(j) = it.share.and_then(|x| self.items.iter().position(|y| y.id == x && y.share.is_none() && y.method == it.method)) { if let Some(x) = pl.get(&j).cloned() { pl.insert(i, x); } } }
        (o, pl)
    }
    pub fn build(&self) -> Vec<u8> {
        // extent counts have to be known for the size of iloc: first pass yields them, second the positions
        let (_, p0) = self.assemble(&Places::new());
        let (_, p1) = self.assemble(&p0);
        let mut o = self.assemble(&p1).0;
        if !matches!(self.top.last(), Some(Top::Mdat { form: 2 } | Top::Raw { form: 2, .. })) { o.extend(self.tail.bytes()); }
        o
    }
}

struct Bx { ty: String, body: (usize, usize), whole: (usize, usize) }
fn boxes(d: &[u8], from: usize, to: usize, top: bool) -> Result<Vec<Bx>, String> {
    let mut v = vec![]; let mut i = from;
    while i < to {
        let s = be32(d, i).ok_or("truncated box header")? as u64;
        let ty = d.get(i + 4..i + 8).ok_or("truncated box header")?;
        let (h, e) = match s {
            0 if top => (8, to),
            1 => { let l = be64(d, i + 8).ok_or("truncated box header")?; if l < 16 { return Err("large box size".into()); } (16, i.saturating_add(l as usize)) }
            s if s < 8 => return Err(format!("box size {s} at {i}")),
            s => (8, i + s as usize),
        };
        if e > to || i + h > e { return Err(format!("box {} at {i} beyond the end of its container", String::from_utf8_lossy(ty))); }
        v.push(Bx { ty: ty.iter().map(|b| *b as char).collect(), body: (i + h, e), whole: (i, e) });
        i = e;
    }
    Ok(v)
}
/// the end of the last box, once there is a meta box and an mdat box
fn tail_at(d: &[u8]) -> usize {
    let (mut i, mut seen) = (0, (false, false));
    while i < d.len() {
        let Some(s) = be32(d, i) else { break };
        let e = match s { 0 => d.len(), 1 => be64(d, i + 8).map_or(0, |l| i.saturating_add(l as usize)), s => i + s as usize };
        if e < i + 8 || e > d.len() || d.len() - i < 8 { break; }
        match &d[i + 4..i + 8] { b"meta" => seen.0 = true, b"mdat" => seen.1 = true, _ => {} }
        i = e;
    }
    if seen.0 && seen.1 { i } else { d.len() }
}
/// positions in the chunk tables of a moov box
fn chunks(d: &[u8], from: usize, to: usize, out: &mut Vec<u64>) -> Result<(), String> {
    for b in boxes(d, from, to, false)? {
        match b.ty.as_str() {
            "trak" | "mdia" | "minf" | "stbl" => chunks(d, b.body.0, b.body.1, out)?,
            t @ ("stco" | "co64") => { let mut c = Cur { d: &d[..b.body.1], i: b.body.0 + 4 }; let n = c.n(4)?; for _ in 0..n { out.push(c.n(if t == "stco" { 4 } else { 8 })?); } }
            _ => {}
        }
    }
    Ok(())
}
struct Cur<'a> { d: &'a [u8], i: usize }
impl Cur<'_> {
    fn n(&mut self, n: usize) -> Result<u64, String> { let b = self.d.get(self.i..self.i + n).ok_or("truncated box")?; self.i += n; Ok(b.iter().fold(0u64, |a, b| a << 8 | *b as u64)) }
    fn rest(&self) -> &[u8] { self.d.get(self.i..).unwrap_or(&[]) }
}
fn name4(v: u64) -> String { (v as u32).to_be_bytes().iter().map(|b| *b as char).collect() }

pub fn parse(d: &[u8]) -> Result<Parsed, String> {
    let mut p = Parsed::default();
    // what follows after the last box and is none
    let tail = tail_at(d);
    if tail < d.len() { p.part("after the last box", &d[tail..]); }
    let top = boxes(d, 0, tail, true)?;
    if top.first().map(|b| b.ty.as_str()) != Some("ftyp") { return Err("does not start with ftyp".into()); }
    if top.iter().filter(|b| b.ty == "meta").count() > 1 { p.issue("several meta boxes"); }
    let meta = top.iter().find(|b| b.ty == "meta").ok_or("no meta box")?;
    let mdats: Vec<(usize, usize)> = top.iter().filter(|b| b.ty == "mdat").map(|b| b.body).collect();
    for b in top.iter().filter(|b| b.ty == "moov") {
        let mut at = vec![];
        chunks(d, b.body.0, b.body.1, &mut at)?;
        p.part("chunk of moov: how many", &(at.len() as u32).to_be_bytes());
        for (k, a) in at.iter().enumerate() { let a = *a as usize; p.part(format!("chunk of moov {k}"), d.get(a..a.saturating_add(3)).ok_or("chunk of moov beyond end")?); }
    }
    if be32(d, meta.body.0) != Some(0) { p.issue("meta box version"); }
    let subs = boxes(d, meta.body.0 + 4, meta.body.1, false)?;
    let mut infos: BTreeMap<u32, (String, Vec<u8>)> = BTreeMap::new();
    let mut locs: BTreeMap<u32, (u64, Vec<(u64, u64)>)> = BTreeMap::new();
    let mut source: BTreeMap<u32, u64> = BTreeMap::new();
    let mut elsewhere: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut drefs: Vec<bool> = vec![];
    if let Some(b) = subs.iter().find(|b| b.ty == "dinf") { for b in boxes(d, b.body.0, b.body.1, false)?.iter().filter(|b| b.ty == "dref") {
        for e in boxes(d, b.body.0 + 8, b.body.1, false)? { drefs.push(d.get(e.body.0 + 3).map_or(false, |x| x & 1 == 1)); }
    } }
    let mut refs: Vec<(String, u32, Vec<u32>)> = vec![];
    let mut primary = None;
    let idat = subs.iter().find(|b| b.ty == "idat").map(|b| b.body);
    let mut seen = BTreeSet::new();
    for s in &subs {
        let body = &d[s.body.0..s.body.1];
        if matches!(s.ty.as_str(), "hdlr" | "pitm" | "iinf" | "iloc" | "iref" | "iprp" | "idat" | "dinf") && !seen.insert(s.ty.clone()) { p.issue(format!("duplicate {}", s.ty)); }
        let mut c = Cur { d: body, i: 0 };
        match s.ty.as_str() {
            "pitm" => { let v = c.n(1)?; c.n(3)?; primary = Some(c.n(if v == 0 { 2 } else { 4 })? as u32); p.part("primary item", &primary.unwrap().to_be_bytes()); if !c.rest().is_empty() { p.issue("pitm: trailing bytes"); } }
            "iinf" => {
                let v = c.n(1)?; c.n(3)?; let n = c.n(if v == 0 { 2 } else { 4 })?;
                let es = boxes(d, s.body.0 + c.i, s.body.1, false)?;
                if es.len() as u64 != n { p.issue(format!("iinf announces {n} entries but holds {}", es.len())); }
                for e in es {
                    if e.ty != "infe" { p.issue("iinf: other box"); continue; }
                    let b = &d[e.body.0..e.body.1];
                    let mut c = Cur { d: b, i: 0 };
                    let v = c.n(1)?; let fl = c.n(3)?;
                    let (id, ty) = if v < 2 { let id = c.n(2)? as u32; c.n(2)?; (id, "?v0?".to_string()) } else { let id = c.n(if v == 2 { 2 } else { 4 })? as u32; c.n(2)?; (id, name4(c.n(4)?)) };
                    if v >= 2 && !c.rest().contains(&0) { p.issue("infe: name not terminated"); }
                    let mut rest = vec![fl as u8]; rest.extend(c.rest());
                    if infos.insert(id, (ty, rest)).is_some() { p.issue(format!("iinf: duplicate item {id}")); }
                }
            }
            "iloc" => {
                let v = c.n(1)?; c.n(3)?; if v > 2 { return Err("iloc version".into()); }
                let a = c.n(1)? as usize; let b = c.n(1)? as usize;
                let (off, len, base, idx) = (a >> 4, a & 15, b >> 4, if v > 0 { b & 15 } else { 0 });
                for x in [off, len, base, idx] { if !matches!(x, 0 | 4 | 8) { return Err("iloc field size".into()); } }
                let n = c.n(if v < 2 { 2 } else { 4 })?;
                for _ in 0..n {
                    let id = c.n(if v < 2 { 2 } else { 4 })? as u32;
                    let m = if v > 0 { c.n(2)? & 15 } else { 0 };
                    let dref = c.n(2)? as usize; let outside = dref > 0 && !drefs.get(dref - 1).copied().unwrap_or(false);
                    let bo = c.n(base)?; let k = c.n(2)?;
                    let mut e = vec![];
                    for _ in 0..k { let j = c.n(idx)?; if m == 2 { source.insert(id, if idx == 0 { 1 } else { j }); } let o = c.n(off)?; let l = c.n(len)?; e.push((bo.wrapping_add(o), l)); }
                    if outside { let mut b = vec![m as u8]; for (o, l) in e { b.extend(o.to_be_bytes()); b.extend(l.to_be_bytes()); } if elsewhere.insert(id, b).is_some() { p.issue(format!("iloc: duplicate item {id}")); } continue; }
                    if locs.insert(id, (m, e)).is_some() { p.issue(format!("iloc: duplicate item {id}")); }
                }
                if !c.rest().is_empty() { p.issue("iloc: trailing bytes"); }
            }
            "iref" => {
                let v = c.n(1)?; c.n(3)?; let w = if v == 0 { 2 } else { 4 };
                for e in boxes(d, s.body.0 + 4, s.body.1, false)? {
                    let mut c = Cur { d: &d[e.body.0..e.body.1], i: 0 };
                    let from = c.n(w)? as u32; let k = c.n(2)?;
                    let mut to = vec![]; for _ in 0..k { to.push(c.n(w)? as u32); }
                    if !c.rest().is_empty() { p.issue("iref: trailing bytes"); }
                    refs.push((e.ty, from, to));
                }
            }
            "idat" => {}
            o => p.part(format!("meta/{o}"), body),
        }
    }
    if subs.first().map(|b| b.ty.as_str()) != Some("hdlr") { p.issue("hdlr is not the first box in meta"); }
    if let Some(i) = primary { if !infos.contains_key(&i) { p.issue("primary item does not exist"); } }
    let exifs: BTreeSet<u32> = infos.iter().filter(|x| x.1.0 == "Exif").map(|x| *x.0).collect();
    for (id, _) in &locs { if !infos.contains_key(id) { p.issue(format!("iloc: item {id} does not exist")); } }
    let mut used: Vec<(usize, usize, u32, bool)> = vec![];
    let mut idat_used = 0;
    for (id, (ty, rest)) in &infos {
        let mut data = vec![];
        match locs.get(id) {
            None => { if let Some(b) = elsewhere.get(id) { data.extend(b"elsewhere"); data.extend(b); } else if exifs.contains(id) { p.issue("Exif item without location"); } }
            Some((m, ex)) => {
                for (o, l) in ex {
                    let (at, l) = (*o as usize, *l as usize);
                    let r = match m {
                        0 => { let e = at.checked_add(l).ok_or("overflow")?; if l > 0 && !mdats.iter().any(|x| x.0 <= at && e <= x.1) { p.issue(format!("item {id} ({ty}) is not inside an mdat box")); } if l > 0 { used.push((at, e, *id, exifs.contains(id))); } d.get(at..e) }
                        1 => { let b = idat.ok_or("item in a missing idat")?; let l = if l == 0 { (b.1 - b.0).saturating_sub(at) } else { l }; idat_used += l; let e = at.checked_add(l).ok_or("overflow")?; d[b.0..b.1].get(at..e) }
                        2 => {
                            let k = source.get(id).copied().unwrap_or(0) as usize;
                            let from = refs.iter().filter(|r| r.0 == "iloc" && r.1 == *id).flat_map(|r| r.2.iter()).nth(k.wrapping_sub(1)).ok_or("source of an item is missing")?;
                            let (m, ex) = locs.get(from).ok_or("source of an item has no location")?;
                            let mut x = vec![];
                            for (o, l) in ex { let b = match m { 0 => 0, 1 => idat.ok_or("item in a missing idat")?.0, _ => return Err("construction method".into()) }; let at = b + *o as usize; x.extend(d.get(at..at.saturating_add(*l as usize)).ok_or("source of an item beyond end")?); }
                            let e = at.checked_add(l).ok_or("overflow")?;
                            data.extend(x.get(at..e).ok_or(format!("item {id} ({ty}): {l} bytes at {at} beyond the end of its source"))?);
                            continue;
                        }
                        _ => return Err("construction method".into()),
                    };
                    data.extend(r.ok_or(format!("item {id} ({ty}): {l} bytes at {at} beyond end"))?);
                }
            }
        }
        if exifs.contains(id) { exif_payload(&mut p, "Exif item", &data); continue; }
        let mut b = rest.clone(); b.push(0xff); b.extend(data);
        p.part(format!("item {id} {ty}"), &b);
    }
    for (t, f, to) in &refs {
        for x in to.iter().chain([f]) { if !infos.contains_key(x) { p.issue(format!("iref {t}: item {x} does not exist")); } }
        if exifs.contains(f) { continue; }
        let mut b = f.to_be_bytes().to_vec(); for x in to { b.extend(x.to_be_bytes()); }
        p.part(format!("ref {t}"), &b);
    }
    for e in &exifs { if !refs.iter().any(|r| r.1 == *e && r.0 == "cdsc" && primary.map(|p| r.2.contains(&p) || r.2.first().map_or(false, |x| infos.contains_key(x))).unwrap_or(true)) { p.issue("Exif item describes no image"); } }
    used.sort();
    // other boxes: what does not belong to an item
    for b in &top { if !matches!(b.ty.as_str(), "meta" | "mdat" | "moov") {
        let (mut c, mut at) = (vec![], b.body.0);
        for u in used.iter().filter(|u| u.0 >= b.body.0 && u.1 <= b.body.1) { if u.0 > at { c.extend(&d[at..u.0]); } at = at.max(u.1); }
        c.extend(&d[at..b.body.1]);
        p.part(b.ty.clone(), &c);
    } }
    for w in used.windows(2) { if w[0].1 > w[1].0 && w[0].2 != w[1].2 && (w[0].3 || w[1].3) { p.issue(format!("items {} and {} share bytes", w[0].2, w[1].2)); } }
    // bytes of mdat / idat that belong to nothing
    let mut sl = 0usize;
    for m in &mdats { let mut at = m.0; for u in &used { if u.0 >= m.0 && u.1 <= m.1 { sl += u.0.saturating_sub(at); at = at.max(u.1); } } sl += m.1.saturating_sub(at); }
    if let Some(b) = idat { sl += (b.1 - b.0).saturating_sub(idat_used); }
    p.slack = sl;
    let places: Vec<(bool, u8, u64, u64)> = locs.iter().flat_map(|(id, (m, ex))| ex.iter().map(|(o, l)| (exifs.contains(id), *m as u8, *o as u64, *l as u64)).collect::<Vec<_>>()).collect();
    p.shared = places.iter().any(|x| x.0 && places.iter().any(|y| !y.0 && x.1 == y.1 && x.2 < y.2.saturating_add(y.3) && y.2 < x.2.saturating_add(x.3)));
    Ok(p)
}

/// boxes known from the standards, which mean nothing here
const LEAVES: &[&str] = &["ipco", "ipma", "pdin", "mvhd", "tkhd", "mdhd", "vmhd", "smhd", "hmhd", "sthd", "nmhd", "elng", "stsd", "stdp", "stts", "ctts", "cslg", "stss", "stsh", "sdtp", "elst", "url ", "urn ", "dref", "stsz", "stz2", "stsc", "padb", "subs", "saiz", "saio", "mehd",
    "trex", "mfhd", "tfhd", "trun", "tfra", "mfro", "tfdt", "leva", "trep", "assp", "sbgp", "sgpd", "cprt", "tsel", "kind", "xml ", "bxml", "ipro", "mere", "schm", "fiin", "fpar", "fecr", "gitn", "fire", "stri", "stsg", "stvi", "sidx", "ssix", "prft", "srpp", "srat", "chnl", "dmix",
    "ludt", "txtC", "uri ", "uriI", "styp", "tref", "sinf", "frma", "schi", "udta", "strk", "paen", "meco", "segr", "fdsa", "fdpa", "extr", "rinf", "csgp", "cinf", "iods", "emsg", "ccst", "prfl", "\u{a9}nam", "wide", "jumb"];

pub fn gen(r: &mut Rng, o: &GenOpt) -> Spec {
    let avif = r.chance(1, 3);
    let major = if avif { "avif" } else { *r.pick(&["heic", "heic", "heix", "mif1", "heif"]) };
    let compat: Vec<String> = ["mif1", if avif { "avif" } else { "heic" }, "miaf", "MiHB"].iter().take(2 + r.idx(3)).map(|s| s.to_string()).collect();
    let base_id = if r.chance(1, 12) { 70_000 } else if r.chance(1, 4) { 1 + r.below(500) as u32 } else { 1 };
    let wide = base_id > 0xffff;
    let iloc_ver = if wide { 2 } else { *r.pick(&[0u8, 1, 1, 1, 2]) };
    let base = *r.pick(&[0u8, 0, 4, 8]);
    let off = if base > 0 && r.chance(1, 6) { 0 } else { *r.pick(&[4u8, 4, 4, 8]) };
    let mut s = Spec { major: major.into(), compat, top: vec![], order: vec![], other: vec![], items: vec![], refs: vec![], primary: base_id,
        pitm_ver: wide as u8, iinf_ver: r.chance(1, 5) as u8, infe_ver: if wide || r.chance(1, 8) { 3 } else { 2 }, iref_ver: if wide { 1 } else { r.chance(1, 6) as u8 }, iloc_ver,
        off, len: *r.pick(&[4u8, 4, 4, 8]), base, idx: if iloc_ver > 0 && r.chance(1, 6) { *r.pick(&[4, 8]) } else { 0 }, large_meta: false, drefs: vec![], tail: Blob::empty() };
    let mdats = if r.chance(1, 6) { 2 } else { 1 };
    let codec = if avif { "av01" } else { "hvc1" };
    let mut id = base_id;
    let mut item = |r: &mut Rng, ty: &str, data: Blob, method: u8| -> Item {
        let many = off > 0 && r.chance(1, 8);
        let it = Item { id, ty: ty.into(), name: if r.chance(1, 5) { "name".into() } else { String::new() }, tail: Blob::empty(), hidden: false, data, method, mdat: r.below(mdats) as u8, cuts: if many { vec![3, 7 + r.below(20) as u32] } else { vec![] }, gap: if r.chance(1, 8) { 3 } else { 0 }, share: None, dref: 0 };
        id += if r.chance(1, 6) { 3 } else { 1 };
        it
    };
    let grid = iloc_ver > 0 && r.chance(1, 4);
    let n = 4 + size(r, o.big);
    let mut items = vec![];
    if grid {
        let g = item(r, "grid", Blob::h(&[0, 0, 0, 1, 0, 64, 0, 32]), 1); let gid = g.id; items.push(g);
        let mut to = vec![];
        for _ in 0..2 { let f = Blob::fill(r, n / 2); let mut t = item(r, codec, f, 0); t.hidden = true; to.push(t.id); items.push(t); }
        s.refs.push(("dimg".into(), gid, to));
    } else { let f = Blob::fill(r, n); let x = item(r, codec, f, 0); items.push(x); }
    if r.chance(1, 3) { let k = 5 + extra(r, o.big, 60); let f = Blob::fill(r, k); let t = item(r, codec, f, 0); s.refs.push(("thmb".into(), t.id, vec![base_id])); items.push(t); }
    if r.chance(1, 3) { let mut t = item(r, "mime", Blob::h(b"<x:xmpmeta>Exif</x:xmpmeta>"), 0); t.tail = Blob::h(b"application/rdf+xml\0"); s.refs.push(("cdsc".into(), t.id, vec![base_id])); items.push(t); }
    for t in o.exif.iter().chain(o.extra.iter()) {
        let d = super::fmt_jxl::exif_blob(r, t);
        let m = if iloc_ver > 0 && r.chance(1, 10) { 1 } else { 0 };
        let mut t = item(r, "Exif", d, m); t.hidden = r.chance(1, 3);
        s.refs.push(("cdsc".into(), t.id, vec![base_id]));
        let at = r.idx(items.len() + 1); items.insert(at, t);
    }
    // an item described the old way, one that shares the bytes of another one, one outside of the mdat boxes
    if !wide && r.chance(1, 15) { let k = 1 + r.below(30); let f = Blob::fill(r, k); let t = item(r, "?v0?", f, 0); items.push(t); }
    if r.chance(1, 15) { let (i, m) = { let x = r.pick(&items); (x.id, x.method) }; let mut t = item(r, "mime", Blob::empty(), m); t.share = Some(i); t.tail = Blob::h(b"text/plain\0"); items.push(t); }
    // an item within another item
    if iloc_ver > 0 && (off > 0 || base > 0) && r.chance(1, 12) {
        let c: Vec<usize> = (0..items.len()).filter(|i| items[*i].ty != "Exif" && items[*i].share.is_none() && items[*i].data.bytes().len() >= 4).collect();
        if !c.is_empty() {
            let k = *r.pick(&c); let n = items[k].data.bytes().len() as u32;
            let from = items[k].id; let at = r.below(n as u64 / 2) as u32; let len = 1 + r.below((n - at) as u64 - 1) as u32;
            let mut t = item(r, "mime", Blob::empty(), 2); t.share = Some(from); t.tail = Blob::h(b"text/plain\0"); t.cuts = vec![at, len];
            s.refs.push(("iloc".into(), t.id, vec![from])); items.push(t);
        }
    }
    let outside = r.chance(1, 20);
    if outside { let i = r.idx(items.len()); if items[i].method == 0 { items[i].mdat = 100; } }
    let mut bare = iloc_ver > 0 && !outside && r.chance(1, 20);
    if bare { for t in items.iter_mut() { if t.method == 0 { t.method = 1; } } }
    // all there is: no numbers are needed to tell where it is
    if iloc_ver > 0 && items.len() == 1 && items[0].ty != "Exif" && r.chance(1, 5) {
        bare = true; items[0].method = 1; items[0].gap = 0; items[0].cuts = vec![];
        s.base = *r.pick(&[0, 0, 4]); s.off = *r.pick(&[0, 0, 4]);
        if r.chance(1, 2) { s.len = 0; }
    }
    // the largest numbers that fit narrow fields
    if !wide && r.chance(1, 15) {
        let d = *r.pick(&[65_535u32, 65_535, 65_534, 65_533]) - items.iter().map(|i| i.id).max().unwrap_or(1);
        for i in items.iter_mut() { i.id += d; }
        for i in items.iter_mut() { if let Some(x) = i.share.as_mut() { *x += d; } }
        for x in s.refs.iter_mut() { x.1 += d; for t in x.2.iter_mut() { *t += d; } }
        s.primary += d;
    }
    // data references other than the plain one
    if r.chance(1, 12) {
        s.drefs = (*r.pick(&[&[true][..], &[false], &[true, false], &[false, true], &[false, false, true]])).to_vec();
        for (k, here) in s.drefs.clone().iter().enumerate() {
            let c: Vec<usize> = (0..items.len()).filter(|i| { let t = &items[*i]; if t.dref > 0 { return false; } *here && t.method != 2 && t.share.is_none() || !*here && s.off > 0 && i > &0 && t.ty == "mime" && t.method == 0 && t.share.is_none() && items.iter().all(|x| x.share != Some(t.id)) }).collect();
            if c.is_empty() { continue; }
            let i = *r.pick(&c); items[i].dref = k as u16 + 1;
            if !*here { items[i].data = Blob::empty(); items[i].cuts = vec![r.below(5000) as u32, 1 + r.below(100) as u32]; items[i].gap = 0; }
        }
    }
    if r.chance(1, 3) { items.sort_by_key(|i| i.id); }
    if r.chance(1, 8) { items.reverse(); }
    s.items = items;
    let mut ord: Vec<String> = vec!["pitm".into(), "iinf".into(), "iloc".into(), "iprp".into()];
    if !s.refs.is_empty() { ord.push("iref".into()); }
    if !s.drefs.is_empty() || r.chance(1, 3) { ord.push("dinf".into()); }
    if s.items.iter().any(|i| i.method == 1) { ord.push("idat".into()); }
    let k = r.below(50);
    s.other.push(("iprp".into(), Blob::C(vec![Blob::h(&mkbox(b"ipco", &mkbox(b"ispe", &[0, 0, 0, 0, 0, 0, 0, 64, 0, 0, 0, 32], 0), 0)), Blob::h(&mkbox(b"ipma", &[0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 1], 0))])));
    if r.chance(1, 4) { let f = Blob::fill(r, k); s.other.push(("free".into(), f)); ord.push("free".into()); }
    if r.chance(1, 5) { let k = 12 + r.below(40); let (ty, f) = (*r.pick(LEAVES), Blob::fill(r, k)); s.other.push((ty.into(), f)); ord.push(ty.into()); }
    if r.chance(1, 6) { s.other.push(("grpl".into(), Blob::h(&mkbox(b"altr", &[0, 0, 0, 0, 0, 0, 0, 9, 0, 0, 0, 1, 0, 0, 0, 1], 0)))); ord.push("grpl".into()); }
    if r.chance(1, 3) { for i in (1..ord.len()).rev() { let j = r.idx(i + 1); ord.swap(i, j); } }
    ord.insert(0, "hdlr".into());
    s.order = ord;
    let mut top = vec![Top::Meta];
    for _ in 0..if bare { 0 } else { mdats } { let f = if r.chance(1, 8) { 1 } else { 0 }; let at = if r.chance(1, 5) { 0 } else { top.len() }; top.insert(at, Top::Mdat { form: f }); }
    if outside || r.chance(1, 3) { let (ty, k) = (if r.chance(1, 2) { *r.pick(&["free", "skip", "uuid", "xtra"]) } else { *r.pick(LEAVES) }, 16 + r.below(30)); let f = Blob::fill(r, k); let at = r.idx(top.len() + 1); top.insert(at, Top::Raw { ty: ty.into(), data: f, form: 0 }); }
    if r.chance(1, 20) { let at = r.idx(top.len() + 1); top.insert(at, Top::Moov { wide: r.chance(1, 3) }); }
    if r.chance(1, 8) { match top.last_mut() { Some(Top::Mdat { form } | Top::Raw { form, .. }) => *form = 2, _ => {} } }
    s.top = top;
    if !bare && r.chance(1, 20) {
        let n = r.below(200); let f = Blob::fill(r, n);
        s.tail = match r.below(4) { 0 => Blob::h(&[0; 7][..1 + r.idx(7)]), 1 => Blob::C(vec![Blob::h(&[0, 0, 0, 1 + r.below(7) as u8]), Blob::h(b"more\0\0\0\0\0\0\0\0"), f]), 2 => Blob::C(vec![Blob::h(b"\xff\xd8\xff\xe1Exif\0\0"), f]), _ => Blob::C(vec![Blob::h(b"SEFHe\0\0\0"), f]) };
    }
    s.large_meta = r.chance(1, 30);
    s
}
