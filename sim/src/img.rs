//! Images: generated from small serialisable specifications, and read back by independent parsers that follow the
//! container standards (none of this shares code with little_exif).

use serde::{Deserialize, Serialize};

use crate::model::{self, hexs, Layout, MMeta, MSpec};
use crate::rng::Rng;
use crate::{fmt_heif, fmt_jpeg, fmt_jxl, fmt_png, fmt_tiff, fmt_webp};

/// A piece of file content.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Blob {
    H(#[serde(with = "hexs")] Vec<u8>),
    /// pseudo-random filler
    F { seed: u64, len: u32 },
    /// an EXIF (TIFF) structure
    T { meta: MSpec, lay: Layout },
    C(Vec<Blob>),
    /// compressed data (brotli or zlib) that becomes much larger when decompressed
    Bomb { brotli: bool },
}
impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::H(v) => v.clone(),
            Blob::F { seed, len } => Rng::new(*seed).bytes(*len as usize),
            Blob::T { meta, lay } => model::encode(&MMeta::from_spec(meta), lay),
            Blob::Bomb { brotli } => { static B: [std::sync::OnceLock<Vec<u8>>; 2] = [const { std::sync::OnceLock::new() }; 2]; B[*brotli as usize].get_or_init(|| { let d = vec![b'0'; 40 << 20]; if *brotli { fmt_jxl::brotli(&d) } else { fmt_png::zip(&d) } }).clone() }
            Blob::C(v) => { let mut o = vec![]; for b in v { o.extend_from_slice(&b.bytes()); } o }
        }
    }
    pub fn h(v: &[u8]) -> Blob { Blob::H(v.to_vec()) }
    pub fn fill(r: &mut Rng, len: u64) -> Blob { Blob::F { seed: r.below(1 << 32), len: len as u32 } }
    pub fn empty() -> Blob { Blob::H(vec![]) }
}

/// how much picture data
pub fn size(r: &mut Rng, big: bool) -> u64 {
    if big && r.chance(1, 2) { return match r.below(8) { 0 => 4080 + r.below(24), 1 | 2 => 65_500 + r.below(50), 3 => 66_000 + r.below(140_000), 4 => 8000 + r.below(400), _ => 3000 + r.below(60_000) }; }
    match r.below(10) { 0 => 200 + r.below(1000), 1 => 240 + r.below(30), _ => r.below(200) }
}
/// how much of something else
pub fn extra(r: &mut Rng, big: bool, usual: u64) -> u64 {
    if big && r.chance(1, 6) { return match r.below(3) { 0 => 65_200 + r.below(160), 1 => 4096 - r.below(20), _ => 3000 + r.below(50_000) }; }
    match r.below(16) { 0 => 240 + r.below(30), 1 => 500 + r.below(600), _ => r.below(usual) }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Fmt { Jpeg, Png, Webp, Jxl, Tiff, Heif }
pub const FMTS: [Fmt; 6] = [Fmt::Jpeg, Fmt::Png, Fmt::Webp, Fmt::Jxl, Fmt::Tiff, Fmt::Heif];
impl Fmt { pub fn name(self) -> &'static str { match self { Fmt::Jpeg => "jpeg", Fmt::Png => "png", Fmt::Webp => "webp", Fmt::Jxl => "jxl", Fmt::Tiff => "tiff", Fmt::Heif => "heif" } } }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Image {
    Jpeg(fmt_jpeg::Spec), Png(fmt_png::Spec), Webp(fmt_webp::Spec), Jxl(fmt_jxl::Spec), Tiff(fmt_tiff::Spec), Heif(fmt_heif::Spec),
    Raw { fmt: Fmt, data: Blob },
}

/// EXIF data found in a file: where, and the TIFF structure itself.
#[derive(Clone, Debug, PartialEq)]
pub struct Carrier { pub kind: String, pub tiff: Vec<u8> }
impl Carrier {
    /// data that the library is meant to read
    pub fn readable(&self) -> bool { self.kind != "xmp" && !self.kind.starts_with("unannounced") }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Parsed {
    pub exif: Vec<Carrier>,
    /// everything that makes up the picture and its other metadata, in order
    pub parts: Vec<(String, Vec<u8>)>,
    /// deviations from the container's standard
    pub issues: Vec<String>,
    /// facts about how it is stored (for distribution statistics)
    pub slack: usize,
    /// another item uses bytes of the EXIF data
    pub shared: bool,
}
impl Parsed {
    pub fn part(&mut self, n: impl Into<String>, d: &[u8]) { self.parts.push((n.into(), d.to_vec())); }
    pub fn issue(&mut self, s: impl Into<String>) { self.issues.push(s.into()); }
}

impl Image {
    pub fn fmt(&self) -> Fmt {
        match self { Image::Jpeg(_) => Fmt::Jpeg, Image::Png(_) => Fmt::Png, Image::Webp(_) => Fmt::Webp, Image::Jxl(_) => Fmt::Jxl, Image::Tiff(_) => Fmt::Tiff, Image::Heif(_) => Fmt::Heif, Image::Raw { fmt, .. } => *fmt }
    }
    pub fn build(&self) -> Vec<u8> {
        match self { Image::Jpeg(s) => s.build(), Image::Png(s) => s.build(), Image::Webp(s) => s.build(), Image::Jxl(s) => s.build(), Image::Tiff(s) => s.build(), Image::Heif(s) => s.build(), Image::Raw { data, .. } => data.bytes() }
    }
    pub fn naked_jxl(&self) -> bool { matches!(self, Image::Jxl(fmt_jxl::Spec::Naked { .. })) }
}

/// Makes the file longer without changing what it means; leaves it alone if its container has no room for that.
pub fn pad(f: Fmt, mut d: Vec<u8>, len: usize) -> Vec<u8> {
    if d.len() >= len { return d; }
    let more = len - d.len();
    match f {
        Fmt::Jpeg | Fmt::Png | Fmt::Tiff => d.resize(len, 0),
        Fmt::Webp => if more >= 8 && more % 2 == 0 && d.len() >= 12 {
            d.extend(b"PADX"); d.extend(((more - 8) as u32).to_le_bytes()); d.resize(len, 0);
            let n = (len - 8) as u32; d[4..8].copy_from_slice(&n.to_le_bytes());
        },
        Fmt::Jxl | Fmt::Heif => if more >= 8 { d.extend((more as u32).to_be_bytes()); d.extend(b"free"); d.resize(len, 0); },
    }
    d
}

pub fn parse(f: Fmt, d: &[u8]) -> Result<Parsed, String> {
    // whatever the library left behind, judging it must not fail
    std::panic::catch_unwind(|| match f { Fmt::Jpeg => fmt_jpeg::parse(d), Fmt::Png => fmt_png::parse(d), Fmt::Webp => fmt_webp::parse(d), Fmt::Jxl => fmt_jxl::parse(d), Fmt::Tiff => fmt_tiff::parse(d), Fmt::Heif => fmt_heif::parse(d) }).unwrap_or_else(|_| Err("not parseable".into()))
}

/// What EXIF data an image carries to begin with.
#[derive(Clone, Debug)]
pub struct GenOpt {
    /// metadata for EXIF carriers; None: no EXIF
    pub exif: Option<Blob>,
    /// further carriers of EXIF data, in other places
    pub extra: Vec<Blob>,
    pub big: bool,
}

pub fn gen(r: &mut Rng, f: Fmt, o: &GenOpt) -> Image {
    match f {
        Fmt::Jpeg => Image::Jpeg(fmt_jpeg::gen(r, o)), Fmt::Png => Image::Png(fmt_png::gen(r, o)), Fmt::Webp => Image::Webp(fmt_webp::gen(r, o)),
        Fmt::Jxl => Image::Jxl(fmt_jxl::gen(r, o)), Fmt::Tiff => Image::Tiff(fmt_tiff::gen(r, o)), Fmt::Heif => Image::Heif(fmt_heif::gen(r, o)),
    }
}

pub fn be16(d: &[u8], o: usize) -> Option<u16> { Some(u16::from_be_bytes(d.get(o..o + 2)?.try_into().ok()?)) }
pub fn be32(d: &[u8], o: usize) -> Option<u32> { Some(u32::from_be_bytes(d.get(o..o + 4)?.try_into().ok()?)) }
pub fn be64(d: &[u8], o: usize) -> Option<u64> { Some(u64::from_be_bytes(d.get(o..o + 8)?.try_into().ok()?)) }
pub fn le32(d: &[u8], o: usize) -> Option<u32> { Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?)) }
pub fn b4(s: &str) -> [u8; 4] { let b = s.as_bytes(); [b[0], b[1], b[2], b[3]] }

/// The format a file claims to be by its first bytes
pub fn sniff(d: &[u8]) -> Option<Fmt> {
    if d.len() < 12 { return None; }
    Some(match d {
        [0x89, b'P', b'N', b'G', ..] => Fmt::Png,
        [0xff, 0xd8, ..] => Fmt::Jpeg,
        [b'I', b'I', 42, 0, ..] | [b'M', b'M', 0, 42, ..] => Fmt::Tiff,
        [0xff, 0x0a, ..] | [0, 0, 0, 12, b'J', b'X', b'L', b' ', ..] => Fmt::Jxl,
        [b'R', b'I', b'F', b'F', ..] => Fmt::Webp,
        [_, _, _, _, b'f', b't', b'y', b'p', ..] => Fmt::Heif,
        _ => return None,
    })
}
