//! Tags of the EXIF/TIFF standards: (group, number, type, standard count or 0, name).
//! Groups: 0 image directory, 1 Exif, 2 interoperability, 3 GPS. Pointer tags and the tags documented as not writable are left out.
pub const TAGS: &[(u8, u16, u16, u32, &str)] = &[
    (0, 0x0100, 4, 1, "ImageWidth"),
    (0, 0x0101, 4, 1, "ImageHeight"),
    (0, 0x0102, 3, 3, "BitsPerSample"),
    (0, 0x0103, 3, 1, "Compression"),
    (0, 0x0106, 3, 1, "PhotometricInterpretation"),
    (0, 0x0108, 3, 1, "CellWidth"),
    (0, 0x0109, 3, 1, "CellHeight"),
    (0, 0x010e, 2, 0, "ImageDescription"),
    (0, 0x010f, 2, 0, "Make"),
    (0, 0x0110, 2, 0, "Model"),
    (0, 0x0112, 3, 1, "Orientation"),
    (0, 0x0115, 3, 1, "SamplesPerPixel"),
    (0, 0x0116, 4, 1, "RowsPerStrip"),
    (0, 0x011a, 5, 1, "XResolution"),
    (0, 0x011b, 5, 1, "YResolution"),
    (0, 0x011c, 3, 1, "PlanarConfiguration"),
    (0, 0x0128, 3, 1, "ResolutionUnit"),
    (0, 0x012d, 3, 3, "TransferFunction"),
    (0, 0x0131, 2, 0, "Software"),
    (0, 0x0132, 2, 20, "ModifyDate"),
    (0, 0x013b, 2, 0, "Artist"),
    (0, 0x013e, 5, 2, "WhitePoint"),
    (0, 0x013f, 5, 6, "PrimaryChromaticities"),
    (0, 0x0140, 3, 0, "ColorMap"),
    (0, 0x0211, 5, 3, "YCbCrCoefficients"),
    (0, 0x0212, 3, 2, "YCbCrSubSampling"),
    (0, 0x0213, 3, 1, "YCbCrPositioning"),
    (0, 0x0214, 5, 6, "ReferenceBlackWhite"),
    (0, 0x8298, 2, 0, "Copyright"),
    (1, 0x829a, 5, 1, "ExposureTime"),
    (1, 0x829d, 5, 1, "FNumber"),
    (1, 0x8822, 3, 1, "ExposureProgram"),
    (1, 0x8824, 2, 0, "SpectralSensitivity"),
    (1, 0x8827, 3, 0, "ISO"),
    (1, 0x8830, 3, 1, "SensitivityType"),
    (1, 0x8831, 4, 1, "StandardOutputSensitivity"),
    (1, 0x8832, 4, 1, "RecommendedExposureIndex"),
    (1, 0x8833, 4, 1, "ISOSpeed"),
    (1, 0x8834, 4, 1, "ISOSpeedLatitudeyyy"),
    (1, 0x8835, 4, 1, "ISOSpeedLatitudezzz"),
    (1, 0x9000, 7, 4, "ExifVersion"),
    (1, 0x9003, 2, 20, "DateTimeOriginal"),
    (1, 0x9004, 2, 20, "CreateDate"),
    (1, 0x9010, 2, 0, "OffsetTime"),
    (1, 0x9011, 2, 0, "OffsetTimeOriginal"),
    (1, 0x9012, 2, 0, "OffsetTimeDigitized"),
    (1, 0x9101, 7, 0, "ComponentsConfiguration"),
    (1, 0x9102, 5, 1, "CompressedBitsPerPixel"),
    (1, 0x9201, 10, 1, "ShutterSpeedValue"),
    (1, 0x9202, 5, 1, "ApertureValue"),
    (1, 0x9203, 10, 1, "BrightnessValue"),
    (1, 0x9204, 10, 1, "ExposureCompensation"),
    (1, 0x9205, 5, 1, "MaxApertureValue"),
    (1, 0x9206, 5, 1, "SubjectDistance"),
    (1, 0x9207, 3, 1, "MeteringMode"),
    (1, 0x9208, 3, 1, "LightSource"),
    (1, 0x9209, 3, 1, "Flash"),
    (1, 0x920a, 5, 1, "FocalLength"),
    (1, 0x9214, 3, 4, "SubjectArea"),
    (1, 0x927c, 7, 0, "MakerNote"),
    (1, 0x9286, 7, 0, "UserComment"),
    (1, 0x9290, 2, 0, "SubSecTime"),
    (1, 0x9291, 2, 0, "SubSecTimeOriginal"),
    (1, 0x9292, 2, 0, "SubSecTimeDigitized"),
    (1, 0x9400, 10, 1, "AmbientTemperature"),
    (1, 0x9401, 5, 1, "Humidity"),
    (1, 0x9402, 5, 1, "Pressure"),
    (1, 0x9403, 10, 1, "WaterDepth"),
    (1, 0x9404, 5, 1, "Acceleration"),
    (1, 0x9405, 10, 1, "CameraElevationAngle"),
    (1, 0xa000, 7, 4, "FlashpixVersion"),
    (1, 0xa001, 3, 1, "ColorSpace"),
    (1, 0xa002, 4, 1, "ExifImageWidth"),
    (1, 0xa003, 4, 1, "ExifImageHeight"),
    (1, 0xa004, 2, 0, "RelatedSoundFile"),
    (1, 0xa20b, 5, 1, "FlashEnergy"),
    (1, 0xa20e, 5, 1, "FocalPlaneXResolution"),
    (1, 0xa20f, 5, 1, "FocalPlaneYResolution"),
    (1, 0xa210, 3, 1, "FocalPlaneResolutionUnit"),
    (1, 0xa214, 3, 1, "SubjectLocation"),
    (1, 0xa215, 5, 1, "ExposureIndex"),
    (1, 0xa217, 3, 1, "SensingMethod"),
    (1, 0xa300, 7, 0, "FileSource"),
    (1, 0xa301, 7, 0, "SceneType"),
    (1, 0xa302, 7, 0, "CFAPattern"),
    (1, 0xa401, 3, 1, "CustomRendered"),
    (1, 0xa402, 3, 1, "ExposureMode"),
    (1, 0xa403, 3, 1, "WhiteBalance"),
    (1, 0xa404, 5, 1, "DigitalZoomRatio"),
    (1, 0xa405, 3, 1, "FocalLengthIn35mmFormat"),
    (1, 0xa406, 3, 1, "SceneCaptureType"),
    (1, 0xa407, 3, 1, "GainControl"),
    (1, 0xa408, 3, 1, "Contrast"),
    (1, 0xa409, 3, 1, "Saturation"),
    (1, 0xa40a, 3, 1, "Sharpness"),
    (1, 0xa40c, 3, 1, "SubjectDistanceRange"),
    (1, 0xa420, 2, 0, "ImageUniqueID"),
    (1, 0xa430, 2, 0, "OwnerName"),
    (1, 0xa431, 2, 0, "SerialNumber"),
    (1, 0xa432, 5, 4, "LensInfo"),
    (1, 0xa433, 2, 0, "LensMake"),
    (1, 0xa434, 2, 0, "LensModel"),
    (1, 0xa435, 2, 0, "LensSerialNumber"),
    (1, 0xa460, 3, 1, "CompositeImage"),
    (1, 0xa461, 3, 2, "CompositeImageCount"),
    (1, 0xa462, 7, 0, "CompositeImageExposureTimes"),
    (1, 0xa500, 5, 1, "Gamma"),
    (2, 0x0001, 2, 4, "InteroperabilityIndex"),
    (2, 0x0002, 7, 0, "InteroperabilityVersion"),
    (3, 0x0000, 1, 4, "GPSVersionID"),
    (3, 0x0001, 2, 2, "GPSLatitudeRef"),
    (3, 0x0002, 5, 3, "GPSLatitude"),
    (3, 0x0003, 2, 2, "GPSLongitudeRef"),
    (3, 0x0004, 5, 3, "GPSLongitude"),
    (3, 0x0005, 1, 1, "GPSAltitudeRef"),
    (3, 0x0006, 5, 1, "GPSAltitude"),
    (3, 0x0007, 5, 3, "GPSTimeStamp"),
    (3, 0x0008, 2, 0, "GPSSatellites"),
    (3, 0x0009, 2, 2, "GPSStatus"),
    (3, 0x000a, 2, 2, "GPSMeasureMode"),
    (3, 0x000b, 5, 1, "GPSDOP"),
    (3, 0x000c, 2, 2, "GPSSpeedRef"),
    (3, 0x000d, 5, 1, "GPSSpeed"),
    (3, 0x000e, 2, 2, "GPSTrackRef"),
    (3, 0x000f, 5, 1, "GPSTrack"),
    (3, 0x0010, 2, 2, "GPSImgDirectionRef"),
    (3, 0x0011, 5, 1, "GPSImgDirection"),
    (3, 0x0012, 2, 0, "GPSMapDatum"),
    (3, 0x0013, 2, 2, "GPSDestLatitudeRef"),
    (3, 0x0014, 5, 3, "GPSDestLatitude"),
    (3, 0x0015, 2, 2, "GPSDestLongitudeRef"),
    (3, 0x0016, 5, 3, "GPSDestLongitude"),
    (3, 0x0017, 2, 2, "GPSDestBearingRef"),
    (3, 0x0018, 5, 1, "GPSDestBearing"),
    (3, 0x0019, 2, 2, "GPSDestDistanceRef"),
    (3, 0x001a, 5, 1, "GPSDestDistance"),
    (3, 0x001b, 7, 0, "GPSProcessingMethod"),
    (3, 0x001c, 7, 0, "GPSAreaInformation"),
    (3, 0x001d, 2, 11, "GPSDateStamp"),
    (3, 0x001e, 3, 1, "GPSDifferential"),
    (3, 0x001f, 5, 1, "GPSHPositioningError"),
];
