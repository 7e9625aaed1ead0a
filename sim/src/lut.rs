//! Adapter to the library under test: everything goes through its public interface.
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;

use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ExifTagGroup;
pub use little_exif::metadata::Metadata;

use crate::img::Fmt;
use crate::model::{Hex, MMeta, MSpec, MTag, MV};
use crate::named;
use crate::sys;

pub fn group(g: u8) -> ExifTagGroup { match g { 0 => ExifTagGroup::GENERIC, 1 => ExifTagGroup::EXIF, 2 => ExifTagGroup::INTEROP, _ => ExifTagGroup::GPS } }
pub fn group_no(g: ExifTagGroup) -> u8 { match g { ExifTagGroup::GENERIC => 0, ExifTagGroup::EXIF => 1, ExifTagGroup::INTEROP => 2, ExifTagGroup::GPS => 3 } }
pub fn ext(f: Fmt, ztxt: bool) -> FileExtension {
    match f { Fmt::Jpeg => FileExtension::JPEG, Fmt::Png => FileExtension::PNG { as_zTXt_chunk: ztxt }, Fmt::Webp => FileExtension::WEBP, Fmt::Jxl => FileExtension::JXL, Fmt::Tiff => FileExtension::TIFF, Fmt::Heif => FileExtension::HEIF }
}

pub fn tag(t: &MTag) -> Result<ExifTag, String> {
    match (&t.v, &t.hex) {
        (MV::Strips(s), _) => Ok(ExifTag::StripOffsets(vec![], s.iter().map(|x| x.0.clone()).collect())),
        (MV::Thumb(d), _) => Ok(ExifTag::ThumbnailOffset(vec![], d.clone())),
        (MV::Raw(4, d), 0x0117) if t.grp == 0 => Ok(ExifTag::StripByteCounts(u32s(d))),
        (MV::Raw(4, d), 0x0202) if t.grp == 0 => Ok(ExifTag::ThumbnailLength(u32s(d))),
        (MV::Raw(ty, d), h) => {
            // most of the time as a program would write it down
            if (*h as usize + d.len()) % 4 != 0 {
                if let Some(x) = named::named(t.grp, *h, *ty, d) { return Ok(x); }
                if crate::model::std_type(t.grp, *h).is_none() && (*h & 1) == 0 { if let Some(x) = named::unnamed(t.grp, *h, *ty, d) { return Ok(x); } }
            }
            let f = ExifTagFormat::from_u16(*ty).ok_or("format")?;
            ExifTag::from_u16_with_data(*h, &f, d, &Endian::Little, &group(t.grp))
        }
    }
}
fn u32s(d: &[u8]) -> Vec<u32> { d.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect() }

pub fn set(m: &mut Metadata, t: &MTag) -> Result<(), String> {
    let x = tag(t)?;
    if t.nr == 0 && group_no(x.get_group()) == t.grp { m.set_tag(x); } else { m.get_ifd_mut(group(t.grp), t.nr).set_tag(x); }
    Ok(())
}
pub fn build(s: &MSpec) -> Result<Metadata, String> {
    let mut m = Metadata::new();
    for t in &s.tags { set(&mut m, t).map_err(|e| format!("tag 0x{:04x}: {e}", t.hex))?; }
    Ok(m)
}
pub fn dump(m: &Metadata) -> Result<MMeta, String> {
    let mut o = MMeta { be: matches!(m.get_endian(), Endian::Big), ifds: Default::default() };
    for ifd in m.get_ifds() {
        let k = (ifd.get_generic_ifd_nr(), group_no(ifd.get_ifd_type()));
        if o.ifds.contains_key(&k) { return Err(format!("two directories {}/{}", k.0, k.1)); }
        let d = o.ifds.entry(k).or_default();
        for t in ifd.get_tags() {
            let v = match t {
                ExifTag::StripOffsets(_, s) => MV::Strips(s.iter().map(|x| Hex(x.clone())).collect()),
                ExifTag::ThumbnailOffset(_, x) => MV::Thumb(x.clone()),
                _ => {
                    let raw = t.value_as_u8_vec(&Endian::Little);
                    let named = named::typed(t);
                    if raw.len() <= 32 && (format!("{t:?}").starts_with("Unknown") != t.is_unknown() || !t.is_unknown() && !t.unknown_is_justified()) { return Err(format!("{t:?}: is_unknown() is {}", t.is_unknown())); }
                    let ty = t.format().as_u16();
                    let n = if ty == 2 { raw.strip_suffix(&[0]).unwrap_or(&raw).len() + 1 } else { raw.len() / crate::model::type_size(ty).max(1) };
                    if t.is_string() != (ty == 2) { return Err(format!("{t:?}: is_string() is {}", t.is_string())); }
                    if !raw.is_empty() && t.number_of_components() as usize != n { return Err(format!("{t:?} claims to have {} components", t.number_of_components())); }
                    if let Some((g, h, ty, b)) = named {
                        let x = if ty == 2 { raw.strip_suffix(&[0]).unwrap_or(&raw) } else { &raw[..] };
                        if t.as_u16() != h || t.format().as_u16() != ty || group_no(t.get_group()) != g { return Err(format!("{t:?} claims to be tag 0x{:04x} of type {} in {:?}", t.as_u16(), t.format().as_u16(), t.get_group())); }
                        if x != b { return Err(format!("{t:?} claims to consist of the bytes {}", crate::model::short(x))); }
                        MV::Raw(ty, b)
                    } else { MV::Raw(t.format().as_u16(), raw) }
                }
            };
            if d.insert(t.as_u16(), v).is_some() { return Err(format!("directory {}/{} holds tag 0x{:04x} twice", k.0, k.1, t.as_u16())); }
        }
    }
    Ok(o)
}

/// Everything that can be asked of a metadata object.
pub fn query(m: &Metadata) -> usize {
    let mut n = format!("{m:?}").len();
    n += m.get_max_generic_ifd_number() as usize;
    for h in [0x010eu16, 0x0110, 0x8769, 0x9286, 0xa420, 0x0001, 0x0201, 0xfffe] {
        for g in [None, Some(ExifTagGroup::GENERIC), Some(ExifTagGroup::EXIF), Some(ExifTagGroup::GPS), Some(ExifTagGroup::INTEROP)] { n += m.get_tag_by_hex(h, g).count(); }
        for g in [ExifTagGroup::GENERIC, ExifTagGroup::EXIF, ExifTagGroup::GPS, ExifTagGroup::INTEROP] { n += m.get_ifd(g, h as u32 % 3).map(|i| i.get_tags().len()).unwrap_or(0); if let Ok(t) = ExifTag::from_u16(h, &g) { n += m.get_tag(&t).count(); } }
    }
    for t in m { n += t.as_u16() as usize + t.number_of_components() as usize + t.is_unknown() as usize + t.unknown_is_justified() as usize; }
    n += m.encode().map(|v| v.len()).unwrap_or(0);
    for f in [Fmt::Png, Fmt::Jpeg, Fmt::Webp, Fmt::Heif] { n += m.as_u8_vec(ext(f, true)).map(|v| v.len()).unwrap_or(0); }
    n += m.clone().get_ifds().len();
    n
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let old = sys::set_mode(sys::INTERNAL);
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = i.location().map(|l| { let f = l.file(); let f = f.rfind("/src/").map(|k| &f[k + 5..]).unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
        if std::env::var_os("SIM_SHOW_PANICS").is_some() { eprintln!("panic: {m} at {at}"); }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{m} ({at})"));
        sys::set_mode(old);
    }));
}

/// Runs library code inside the simulation.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = sys::set_mode(sys::SIM);
    let r = catch_unwind(AssertUnwindSafe(f));
    sys::set_mode(old);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn read_file(p: &str) -> std::io::Result<Metadata> { Metadata::new_from_path(Path::new(p)) }
pub fn read_vec(d: &Vec<u8>, f: Fmt) -> std::io::Result<Metadata> { Metadata::new_from_vec(d, ext(f, true)) }
pub fn write_file(m: &Metadata, p: &str) -> std::io::Result<()> { m.write_to_file(Path::new(p)) }
pub fn write_vec(m: &Metadata, d: &mut Vec<u8>, f: Fmt, ztxt: bool) -> std::io::Result<()> { m.write_to_vec(d, ext(f, ztxt)) }
pub fn clear_file(p: &str) -> std::io::Result<()> { Metadata::file_clear_metadata(Path::new(p)) }
pub fn clear_vec(d: &mut Vec<u8>, f: Fmt) -> std::io::Result<()> { Metadata::clear_metadata(d, ext(f, true)) }
pub fn seg_file(p: &str, s: u8) -> std::io::Result<()> { if s == 12 { Metadata::file_clear_app12_segment(Path::new(p)) } else { Metadata::file_clear_app13_segment(Path::new(p)) } }
pub fn seg_vec(d: &mut Vec<u8>, f: Fmt, s: u8) -> std::io::Result<()> { if s == 12 { Metadata::clear_app12_segment(d, ext(f, true)) } else { Metadata::clear_app13_segment(d, ext(f, true)) } }

/// Removes a tag from every directory of a group; by naming the tag if it has a name.
pub fn remove(m: &mut Metadata, hex: u16, grp: u8) -> usize {
    if hex % 2 == 0 { if let Some(ty) = crate::model::std_type(grp, hex) { if let Some(x) = named::named(grp, hex, ty, &[]) { return m.remove_tag(x); } } }
    m.remove_tag_by_hex_group(hex, group(grp))
}
