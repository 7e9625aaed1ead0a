//! Tags by name: what a program that uses the library writes down, and the typed values it gets to see. Written out once from the
//! EXIF/TIFF standards' tables (names, numbers, groups, types); independent of the library's own tables and conversions.
use little_exif::exif_tag::ExifTag;
use little_exif::rational::{iR64, uR64};

use crate::lut::group;

macro_rules! num { ($n:ident, $t:ty, $z:expr) => { mod $n { pub fn d(b: &[u8]) -> Vec<$t> { b.chunks_exact($z).map(|c| <$t>::from_le_bytes(c.try_into().unwrap())).collect() } pub fn e(v: &[$t]) -> Vec<u8> { v.iter().flat_map(|x| x.to_le_bytes()).collect() } } } }
num!(u8_, u8, 1); num!(i8_, i8, 1); num!(u16_, u16, 2); num!(i16_, i16, 2); num!(u32_, u32, 4); num!(i32_, i32, 4); num!(f32_, f32, 4); num!(f64_, f64, 8);
mod ur_ { use super::uR64; pub fn d(b: &[u8]) -> Vec<uR64> { super::u32_::d(b).chunks_exact(2).map(|c| uR64 { nominator: c[0], denominator: c[1] }).collect() } pub fn e(v: &[uR64]) -> Vec<u8> { v.iter().flat_map(|x| [x.nominator.to_le_bytes(), x.denominator.to_le_bytes()].concat()).collect() } }
mod ir_ { use super::iR64; pub fn d(b: &[u8]) -> Vec<iR64> { super::i32_::d(b).chunks_exact(2).map(|c| iR64 { nominator: c[0], denominator: c[1] }).collect() } pub fn e(v: &[iR64]) -> Vec<u8> { v.iter().flat_map(|x| [x.nominator.to_le_bytes(), x.denominator.to_le_bytes()].concat()).collect() } }
mod s_ { pub fn d(b: &[u8]) -> String { String::from_utf8(b.to_vec()).unwrap() } pub fn e(s: &str) -> Vec<u8> { s.as_bytes().to_vec() } }

macro_rules! table { ($(($name:ident, $g:expr, $h:expr, $t:expr, $m:ident)),* $(,)?) => {
    /// The tag as a program names it; None if it has no name (or the value is not of the tag's own type).
    pub fn named(g: u8, h: u16, t: u16, b: &[u8]) -> Option<ExifTag> {
        if t == 2 && std::str::from_utf8(b).is_err() { return None; }
        Some(match (g, h, t) { $(($g, $h, $t) => ExifTag::$name($m::d(b)),)* _ => return None })
    }
    /// (group, number, type, value) of a tag that has a name
    pub fn typed(x: &ExifTag) -> Option<(u8, u16, u16, Vec<u8>)> {
        Some(match x { $(ExifTag::$name(v) => ($g, $h, $t, $m::e(v)),)*
            ExifTag::UnknownINT8U(v, h, g) => (crate::lut::group_no(*g), *h, 1, u8_::e(v)),
            ExifTag::UnknownSTRING(v, h, g) => (crate::lut::group_no(*g), *h, 2, s_::e(v)),
            ExifTag::UnknownINT16U(v, h, g) => (crate::lut::group_no(*g), *h, 3, u16_::e(v)),
            ExifTag::UnknownINT32U(v, h, g) => (crate::lut::group_no(*g), *h, 4, u32_::e(v)),
            ExifTag::UnknownRATIONAL64U(v, h, g) => (crate::lut::group_no(*g), *h, 5, ur_::e(v)),
            ExifTag::UnknownINT8S(v, h, g) => (crate::lut::group_no(*g), *h, 6, i8_::e(v)),
            ExifTag::UnknownUNDEF(v, h, g) => (crate::lut::group_no(*g), *h, 7, u8_::e(v)),
            ExifTag::UnknownINT16S(v, h, g) => (crate::lut::group_no(*g), *h, 8, i16_::e(v)),
            ExifTag::UnknownINT32S(v, h, g) => (crate::lut::group_no(*g), *h, 9, i32_::e(v)),
            ExifTag::UnknownRATIONAL64S(v, h, g) => (crate::lut::group_no(*g), *h, 10, ir_::e(v)),
            ExifTag::UnknownFLOAT(v, h, g) => (crate::lut::group_no(*g), *h, 11, f32_::e(v)),
            ExifTag::UnknownDOUBLE(v, h, g) => (crate::lut::group_no(*g), *h, 12, f64_::e(v)),
            _ => return None })
    }
} }
/// A tag that has no name
pub fn unnamed(g: u8, h: u16, t: u16, b: &[u8]) -> Option<ExifTag> {
    let g = group(g);
    Some(match t {
        1 => ExifTag::UnknownINT8U(u8_::d(b), h, g), 2 => { if std::str::from_utf8(b).is_err() { return None; } ExifTag::UnknownSTRING(s_::d(b), h, g) }
        3 => ExifTag::UnknownINT16U(u16_::d(b), h, g), 4 => ExifTag::UnknownINT32U(u32_::d(b), h, g), 5 => ExifTag::UnknownRATIONAL64U(ur_::d(b), h, g), 6 => ExifTag::UnknownINT8S(i8_::d(b), h, g),
        7 => ExifTag::UnknownUNDEF(u8_::d(b), h, g), 8 => ExifTag::UnknownINT16S(i16_::d(b), h, g), 9 => ExifTag::UnknownINT32S(i32_::d(b), h, g), 10 => ExifTag::UnknownRATIONAL64S(ir_::d(b), h, g),
        11 => ExifTag::UnknownFLOAT(f32_::d(b), h, g), 12 => ExifTag::UnknownDOUBLE(f64_::d(b), h, g), _ => return None })
}
table! {
    (ImageWidth, 0, 0x0100, 4, u32_),
    (ImageHeight, 0, 0x0101, 4, u32_),
    (BitsPerSample, 0, 0x0102, 3, u16_),
    (Compression, 0, 0x0103, 3, u16_),
    (PhotometricInterpretation, 0, 0x0106, 3, u16_),
    (CellWidth, 0, 0x0108, 3, u16_),
    (CellHeight, 0, 0x0109, 3, u16_),
    (ImageDescription, 0, 0x010e, 2, s_),
    (Make, 0, 0x010f, 2, s_),
    (Model, 0, 0x0110, 2, s_),
    (Orientation, 0, 0x0112, 3, u16_),
    (SamplesPerPixel, 0, 0x0115, 3, u16_),
    (RowsPerStrip, 0, 0x0116, 4, u32_),
    (XResolution, 0, 0x011a, 5, ur_),
    (YResolution, 0, 0x011b, 5, ur_),
    (PlanarConfiguration, 0, 0x011c, 3, u16_),
    (ResolutionUnit, 0, 0x0128, 3, u16_),
    (TransferFunction, 0, 0x012d, 3, u16_),
    (Software, 0, 0x0131, 2, s_),
    (ModifyDate, 0, 0x0132, 2, s_),
    (Artist, 0, 0x013b, 2, s_),
    (WhitePoint, 0, 0x013e, 5, ur_),
    (PrimaryChromaticities, 0, 0x013f, 5, ur_),
    (ColorMap, 0, 0x0140, 3, u16_),
    (YCbCrCoefficients, 0, 0x0211, 5, ur_),
    (YCbCrSubSampling, 0, 0x0212, 3, u16_),
    (YCbCrPositioning, 0, 0x0213, 3, u16_),
    (ReferenceBlackWhite, 0, 0x0214, 5, ur_),
    (Copyright, 0, 0x8298, 2, s_),
    (ExposureTime, 1, 0x829a, 5, ur_),
    (FNumber, 1, 0x829d, 5, ur_),
    (ExposureProgram, 1, 0x8822, 3, u16_),
    (SpectralSensitivity, 1, 0x8824, 2, s_),
    (ISO, 1, 0x8827, 3, u16_),
    (SensitivityType, 1, 0x8830, 3, u16_),
    (StandardOutputSensitivity, 1, 0x8831, 4, u32_),
    (RecommendedExposureIndex, 1, 0x8832, 4, u32_),
    (ISOSpeed, 1, 0x8833, 4, u32_),
    (ISOSpeedLatitudeyyy, 1, 0x8834, 4, u32_),
    (ISOSpeedLatitudezzz, 1, 0x8835, 4, u32_),
    (ExifVersion, 1, 0x9000, 7, u8_),
    (DateTimeOriginal, 1, 0x9003, 2, s_),
    (CreateDate, 1, 0x9004, 2, s_),
    (OffsetTime, 1, 0x9010, 2, s_),
    (OffsetTimeOriginal, 1, 0x9011, 2, s_),
    (OffsetTimeDigitized, 1, 0x9012, 2, s_),
    (ComponentsConfiguration, 1, 0x9101, 7, u8_),
    (CompressedBitsPerPixel, 1, 0x9102, 5, ur_),
    (ShutterSpeedValue, 1, 0x9201, 10, ir_),
    (ApertureValue, 1, 0x9202, 5, ur_),
    (BrightnessValue, 1, 0x9203, 10, ir_),
    (ExposureCompensation, 1, 0x9204, 10, ir_),
    (MaxApertureValue, 1, 0x9205, 5, ur_),
    (SubjectDistance, 1, 0x9206, 5, ur_),
    (MeteringMode, 1, 0x9207, 3, u16_),
    (LightSource, 1, 0x9208, 3, u16_),
    (Flash, 1, 0x9209, 3, u16_),
    (FocalLength, 1, 0x920a, 5, ur_),
    (SubjectArea, 1, 0x9214, 3, u16_),
    (MakerNote, 1, 0x927c, 7, u8_),
    (UserComment, 1, 0x9286, 7, u8_),
    (SubSecTime, 1, 0x9290, 2, s_),
    (SubSecTimeOriginal, 1, 0x9291, 2, s_),
    (SubSecTimeDigitized, 1, 0x9292, 2, s_),
    (AmbientTemperature, 1, 0x9400, 10, ir_),
    (Humidity, 1, 0x9401, 5, ur_),
    (Pressure, 1, 0x9402, 5, ur_),
    (WaterDepth, 1, 0x9403, 10, ir_),
    (Acceleration, 1, 0x9404, 5, ur_),
    (CameraElevationAngle, 1, 0x9405, 10, ir_),
    (FlashpixVersion, 1, 0xa000, 7, u8_),
    (ColorSpace, 1, 0xa001, 3, u16_),
    (ExifImageWidth, 1, 0xa002, 4, u32_),
    (ExifImageHeight, 1, 0xa003, 4, u32_),
    (RelatedSoundFile, 1, 0xa004, 2, s_),
    (FlashEnergy, 1, 0xa20b, 5, ur_),
    (FocalPlaneXResolution, 1, 0xa20e, 5, ur_),
    (FocalPlaneYResolution, 1, 0xa20f, 5, ur_),
    (FocalPlaneResolutionUnit, 1, 0xa210, 3, u16_),
    (SubjectLocation, 1, 0xa214, 3, u16_),
    (ExposureIndex, 1, 0xa215, 5, ur_),
    (SensingMethod, 1, 0xa217, 3, u16_),
    (FileSource, 1, 0xa300, 7, u8_),
    (SceneType, 1, 0xa301, 7, u8_),
    (CFAPattern, 1, 0xa302, 7, u8_),
    (CustomRendered, 1, 0xa401, 3, u16_),
    (ExposureMode, 1, 0xa402, 3, u16_),
    (WhiteBalance, 1, 0xa403, 3, u16_),
    (DigitalZoomRatio, 1, 0xa404, 5, ur_),
    (FocalLengthIn35mmFormat, 1, 0xa405, 3, u16_),
    (SceneCaptureType, 1, 0xa406, 3, u16_),
    (GainControl, 1, 0xa407, 3, u16_),
    (Contrast, 1, 0xa408, 3, u16_),
    (Saturation, 1, 0xa409, 3, u16_),
    (Sharpness, 1, 0xa40a, 3, u16_),
    (SubjectDistanceRange, 1, 0xa40c, 3, u16_),
    (ImageUniqueID, 1, 0xa420, 2, s_),
    (OwnerName, 1, 0xa430, 2, s_),
    (SerialNumber, 1, 0xa431, 2, s_),
    (LensInfo, 1, 0xa432, 5, ur_),
    (LensMake, 1, 0xa433, 2, s_),
    (LensModel, 1, 0xa434, 2, s_),
    (LensSerialNumber, 1, 0xa435, 2, s_),
    (CompositeImage, 1, 0xa460, 3, u16_),
    (CompositeImageCount, 1, 0xa461, 3, u16_),
    (CompositeImageExposureTimes, 1, 0xa462, 7, u8_),
    (Gamma, 1, 0xa500, 5, ur_),
    (InteroperabilityIndex, 2, 0x0001, 2, s_),
    (InteroperabilityVersion, 2, 0x0002, 7, u8_),
    (GPSVersionID, 3, 0x0000, 1, u8_),
    (GPSLatitudeRef, 3, 0x0001, 2, s_),
    (GPSLatitude, 3, 0x0002, 5, ur_),
    (GPSLongitudeRef, 3, 0x0003, 2, s_),
    (GPSLongitude, 3, 0x0004, 5, ur_),
    (GPSAltitudeRef, 3, 0x0005, 1, u8_),
    (GPSAltitude, 3, 0x0006, 5, ur_),
    (GPSTimeStamp, 3, 0x0007, 5, ur_),
    (GPSSatellites, 3, 0x0008, 2, s_),
    (GPSStatus, 3, 0x0009, 2, s_),
    (GPSMeasureMode, 3, 0x000a, 2, s_),
    (GPSDOP, 3, 0x000b, 5, ur_),
    (GPSSpeedRef, 3, 0x000c, 2, s_),
    (GPSSpeed, 3, 0x000d, 5, ur_),
    (GPSTrackRef, 3, 0x000e, 2, s_),
    (GPSTrack, 3, 0x000f, 5, ur_),
    (GPSImgDirectionRef, 3, 0x0010, 2, s_),
    (GPSImgDirection, 3, 0x0011, 5, ur_),
    (GPSMapDatum, 3, 0x0012, 2, s_),
    (GPSDestLatitudeRef, 3, 0x0013, 2, s_),
    (GPSDestLatitude, 3, 0x0014, 5, ur_),
    (GPSDestLongitudeRef, 3, 0x0015, 2, s_),
    (GPSDestLongitude, 3, 0x0016, 5, ur_),
    (GPSDestBearingRef, 3, 0x0017, 2, s_),
    (GPSDestBearing, 3, 0x0018, 5, ur_),
    (GPSDestDistanceRef, 3, 0x0019, 2, s_),
    (GPSDestDistance, 3, 0x001a, 5, ur_),
    (GPSProcessingMethod, 3, 0x001b, 7, u8_),
    (GPSAreaInformation, 3, 0x001c, 7, u8_),
    (GPSDateStamp, 3, 0x001d, 2, s_),
    (GPSDifferential, 3, 0x001e, 3, u16_),
    (GPSHPositioningError, 3, 0x001f, 5, ur_),
}
