//! C18 — accessors, conversions, text and serialised forms agree and lose nothing.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use chrono::{FixedOffset, NaiveDate};
use nom_exif::*;
use std::str::FromStr;
use std::sync::Arc;

const TAGS: &[(&str, u16)] = &[
    ("Make", 0x010f), ("Model", 0x0110), ("Orientation", 0x0112), ("ImageWidth", 0x0100), ("ImageHeight", 0x0101), ("ISOSpeedRatings", 0x8827),
    ("ShutterSpeedValue", 0x9201), ("ExposureTime", 0x829a), ("FNumber", 0x829d), ("ExifImageWidth", 0xa002), ("ExifImageHeight", 0xa003),
    ("DateTimeOriginal", 0x9003), ("CreateDate", 0x9004), ("ModifyDate", 0x0132), ("OffsetTime", 0x9010), ("OffsetTimeOriginal", 0x9011),
    ("OffsetTimeDigitized", 0x9012), ("GPSLatitudeRef", 0x0001), ("GPSLatitude", 0x0002), ("GPSLongitudeRef", 0x0003), ("GPSLongitude", 0x0004),
    ("GPSAltitudeRef", 0x0005), ("GPSAltitude", 0x0006), ("GPSVersionID", 0x0000), ("ExifOffset", 0x8769), ("GPSInfo", 0x8825),
    ("ImageDescription", 0x010e), ("XResolution", 0x011a), ("YResolution", 0x011b), ("ResolutionUnit", 0x0128), ("Software", 0x0131),
    ("HostComputer", 0x013c), ("WhitePoint", 0x013e), ("PrimaryChromaticities", 0x013f), ("YCbCrCoefficients", 0x0211),
    ("ReferenceBlackWhite", 0x0214), ("Copyright", 0x8298), ("ExposureProgram", 0x8822), ("SpectralSensitivity", 0x8824), ("OECF", 0x8828),
    ("SensitivityType", 0x8830), ("ExifVersion", 0x9000), ("ApertureValue", 0x9202), ("BrightnessValue", 0x9203), ("ExposureBiasValue", 0x9204),
    ("MaxApertureValue", 0x9205), ("SubjectDistance", 0x9206), ("MeteringMode", 0x9207), ("LightSource", 0x9208), ("Flash", 0x9209),
    ("FocalLength", 0x920a), ("SubjectArea", 0x9214), ("MakerNote", 0x927c), ("UserComment", 0x9286), ("FlashPixVersion", 0xa000),
    ("ColorSpace", 0xa001), ("RelatedSoundFile", 0xa004), ("FlashEnergy", 0xa20b), ("FocalPlaneXResolution", 0xa20e),
    ("FocalPlaneYResolution", 0xa20f), ("FocalPlaneResolutionUnit", 0xa210), ("SubjectLocation", 0xa214), ("ExposureIndex", 0xa215),
    ("SensingMethod", 0xa217), ("FileSource", 0xa300), ("SceneType", 0xa301), ("CFAPattern", 0xa302), ("CustomRendered", 0xa401),
    ("ExposureMode", 0xa402), ("WhiteBalanceMode", 0xa403), ("DigitalZoomRatio", 0xa404), ("FocalLengthIn35mmFilm", 0xa405),
    ("SceneCaptureType", 0xa406), ("GainControl", 0xa407), ("Contrast", 0xa408), ("Saturation", 0xa409), ("Sharpness", 0xa40a),
    ("DeviceSettingDescription", 0xa40b), ("SubjectDistanceRange", 0xa40c), ("ImageUniqueID", 0xa420), ("LensSpecification", 0xa432),
    ("LensMake", 0xa433), ("LensModel", 0xa434), ("Gamma", 0xa500), ("GPSTimeStamp", 0x0007), ("GPSSatellites", 0x0008), ("GPSStatus", 0x0009),
    ("GPSMeasureMode", 0x000a), ("GPSDOP", 0x000b), ("GPSSpeedRef", 0x000c), ("GPSSpeed", 0x000d), ("GPSTrackRef", 0x000e), ("GPSTrack", 0x000f),
    ("GPSImgDirectionRef", 0x0010), ("GPSImgDirection", 0x0011), ("GPSMapDatum", 0x0012), ("GPSDestLatitudeRef", 0x0013),
    ("GPSDestLatitude", 0x0014), ("GPSDestLongitudeRef", 0x0015), ("GPSDestLongitude", 0x0016), ("GPSDestBearingRef", 0x0017),
    ("GPSDestBearing", 0x0018), ("GPSDestDistanceRef", 0x0019), ("GPSDestDistance", 0x001a), ("GPSProcessingMethod", 0x001b),
    ("GPSAreaInformation", 0x001c), ("GPSDateStamp", 0x001d), ("GPSDifferential", 0x001e), ("YCbCrPositioning", 0x0213),
    ("RecommendedExposureIndex", 0x8832), ("SubSecTimeDigitized", 0x9292), ("SubSecTimeOriginal", 0x9291), ("SubSecTime", 0x9290),
    ("InteropOffset", 0xa005), ("ComponentsConfiguration", 0x9101), ("ThumbnailOffset", 0x0201), ("ThumbnailLength", 0x0202),
    ("Compression", 0x0103), ("BitsPerSample", 0x0102), ("PhotometricInterpretation", 0x0106), ("SamplesPerPixel", 0x0115), ("RowsPerStrip", 0x0116),
    ("PlanarConfiguration", 0x011c),
];
const TRACK_TAGS: &[&str] = &["Make", "Model", "Software", "CreateDate", "DurationMs", "Width", "Height", "GpsIso6709", "Author"];

/// a value is identified by this text: floats by their bits
fn ident(v: &EntryValue) -> String {
    match v {
        EntryValue::F32(x) => format!("F32 {:08x}", x.to_bits()),
        EntryValue::F64(x) => format!("F64 {:016x}", x.to_bits()),
        v => format!("{v:?}"),
    }
}

/// every accessor's answer
fn answers(v: &EntryValue) -> Vec<(&'static str, Option<String>)> {
    fn d<T: std::fmt::Debug>(x: Option<T>) -> Option<String> {
        x.map(|x| format!("{x:?}"))
    }
    vec![
        ("as_str", d(v.as_str())),
        ("as_datetime", d(v.as_datetime())),
        ("as_u8", d(v.as_u8())),
        ("as_u16", d(v.as_u16())),
        ("as_u32", d(v.as_u32())),
        ("as_u64", d(v.as_u64())),
        ("as_i8", d(v.as_i8())),
        ("as_i16", d(v.as_i16())),
        ("as_i32", d(v.as_i32())),
        ("as_i64", d(v.as_i64())),
        ("as_f64", d(v.as_f64().map(f64::to_bits))),
        ("as_urational", d(v.as_urational())),
        ("as_irational", d(v.as_irational())),
        ("as_urational_slice", d(v.as_urational_slice())),
        ("as_irational_slice", d(v.as_irational_slice())),
        ("as_u8_slice", d(v.as_u8_slice())),
        ("as_u16_slice", d(v.as_u16_slice())),
        ("as_u32_slice", d(v.as_u32_slice())),
        ("as_undefined", d(v.as_undefined())),
    ]
}
/// the accessor that belongs to the value, with its answer
fn expected(v: &EntryValue) -> Option<(&'static str, String)> {
    use EntryValue::*;
    fn d<T: std::fmt::Debug>(n: &'static str, x: T) -> Option<(&'static str, String)> {
        Some((n, format!("{x:?}")))
    }
    match v {
        Text(x) => d("as_str", x),
        DateTime(x) => d("as_datetime", ExifDateTime::Aware(*x)),
        NaiveDateTime(x) => d("as_datetime", ExifDateTime::Naive(*x)),
        U8(x) => d("as_u8", x),
        U16(x) => d("as_u16", x),
        U32(x) => d("as_u32", x),
        U64(x) => d("as_u64", x),
        I8(x) => d("as_i8", x),
        I16(x) => d("as_i16", x),
        I32(x) => d("as_i32", x),
        I64(x) => d("as_i64", x),
        F32(_) => None,
        F64(x) => d("as_f64", x.to_bits()),
        URational(x) => d("as_urational", x),
        IRational(x) => d("as_irational", x),
        URationalArray(x) => d("as_urational_slice", x),
        IRationalArray(x) => d("as_irational_slice", x),
        U8Array(x) => d("as_u8_slice", x),
        U16Array(x) => d("as_u16_slice", x),
        U32Array(x) => d("as_u32_slice", x),
        Undefined(x) => d("as_undefined", x),
        _ => panic!("harness: new kind of value"),
    }
}
/// the integer a value denotes
fn integer(v: &EntryValue) -> Option<i128> {
    use EntryValue::*;
    Some(match v {
        U8(x) => *x as i128,
        U16(x) => *x as i128,
        U32(x) => *x as i128,
        U64(x) => *x as i128,
        I8(x) => *x as i128,
        I16(x) => *x as i128,
        I32(x) => *x as i128,
        I64(x) => *x as i128,
        _ => return None,
    })
}
/// is `f` the double nearest to the integer `x`?
fn nearest(f: f64, x: i128) -> bool {
    let err = |g: f64| (g as i128 - x).unsigned_abs();
    f.is_finite() && f.fract() == 0.0 && err(f) <= err(f.next_up()) && err(f) <= err(f.next_down())
}

fn check_accessors(v: &EntryValue) -> std::result::Result<(), String> {
    let want = expected(v);
    for (n, got) in answers(v) {
        let w = want.as_ref().filter(|w| w.0 == n).map(|w| w.1.clone());
        if got != w {
            return Err(format!("{n} gives {got:?}, expected {w:?}"));
        }
    }
    let i = v.try_as_integer();
    let wi = integer(v).and_then(|x| i64::try_from(x).ok());
    if i != wi {
        return Err(format!("try_as_integer gives {i:?}, expected {wi:?}"));
    }
    let f = v.try_as_float();
    let ok = match v {
        EntryValue::F32(x) => f.map(f64::to_bits) == Some((*x as f64).to_bits()),
        EntryValue::F64(x) => f.map(f64::to_bits) == Some(x.to_bits()),
        EntryValue::URational(r) => ratio(f, r.numerator() as i64, r.denominator() as i64),
        EntryValue::IRational(r) => ratio(f, r.numerator() as i64, r.denominator() as i64),
        v => match integer(v) {
            None => f.is_none(),
            // beyond 64 bits signed the widening may refuse
            Some(x) if x > i64::MAX as i128 => f.map_or(true, |f| nearest(f, x)),
            Some(x) => f.is_some_and(|f| nearest(f, x)),
        },
    };
    if !ok {
        return Err(format!("try_as_float gives {f:?}"));
    }
    Ok(())
}
fn ratio(f: Option<f64>, n: i64, d: i64) -> bool {
    match f {
        None => d == 0,
        Some(f) => d != 0 && f.to_bits() == (n as f64 / d as f64).to_bits(),
    }
}

fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
/// "n/d (x.xxxx)" back to the two numbers
fn unratio(s: &str) -> Option<(i64, i64)> {
    let (nd, rest) = s.split_once(" (")?;
    rest.strip_suffix(')')?;
    let (n, d) = nd.split_once('/')?;
    Some((n.parse().ok()?, d.parse().ok()?))
}
fn unlist<'a>(s: &'a str, name: &str) -> Option<Vec<&'a str>> {
    let b = s.strip_prefix(name)?.strip_prefix('[')?.strip_suffix(']')?;
    Some(if b.is_empty() { vec![] } else { b.split(", ").collect() })
}
fn unhexnum(s: &str) -> Option<u64> {
    u64::from_str_radix(s.strip_prefix("0x")?, 16).ok()
}

/// the value read back from its text, where the text has a documented form
fn from_text(v: &EntryValue, s: &str) -> Option<EntryValue> {
    use EntryValue::*;
    let ur = |x: (i64, i64)| Some(nom_exif::URational::new(x.0.try_into().ok()?, x.1.try_into().ok()?));
    let ir = |x: (i64, i64)| Some(nom_exif::IRational::new(x.0.try_into().ok()?, x.1.try_into().ok()?));
    Some(match v {
        Text(_) => Text(s.into()),
        U8(_) => U8(s.parse().ok()?),
        U16(_) => U16(s.parse().ok()?),
        U32(_) => U32(s.parse().ok()?),
        U64(_) => U64(s.parse().ok()?),
        I8(_) => I8(s.parse().ok()?),
        I16(_) => I16(s.parse().ok()?),
        I32(_) => I32(s.parse().ok()?),
        I64(_) => I64(s.parse().ok()?),
        F32(_) => F32(s.parse().ok()?),
        F64(_) => F64(s.parse().ok()?),
        URational(_) => URational(ur(unratio(s)?)?),
        IRational(_) => IRational(ir(unratio(s)?)?),
        URationalArray(_) => URationalArray(unlist(s, "URationalArray")?.into_iter().map(|x| ur(unratio(x)?)).collect::<Option<_>>()?),
        IRationalArray(_) => IRationalArray(unlist(s, "IRationalArray")?.into_iter().map(|x| ir(unratio(x)?)).collect::<Option<_>>()?),
        U8Array(_) => U8Array(unlist(s, "U8Array")?.into_iter().map(|x| u8::try_from(unhexnum(x)?).ok()).collect::<Option<_>>()?),
        U16Array(_) => U16Array(unlist(s, "U16Array")?.into_iter().map(|x| u16::try_from(unhexnum(x)?).ok()).collect::<Option<_>>()?),
        U32Array(_) => U32Array(unlist(s, "U32Array")?.into_iter().map(|x| u32::try_from(unhexnum(x)?).ok()).collect::<Option<_>>()?),
        Undefined(_) => Undefined(match s.strip_prefix("0x") {
            Some(h) => unhex(h)?,
            None => s.strip_prefix('"')?.strip_suffix('"')?.as_bytes().to_vec(),
        }),
        DateTime(_) => DateTime(chrono::DateTime::parse_from_rfc3339(s).ok()?),
        NaiveDateTime(_) => NaiveDateTime(chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%d %H:%M:%S%.f").ok()?),
        _ => return None,
    })
}
/// the value read back from its JSON form; numbers from their text, so that
/// nothing is lost on the way
fn from_json(v: &EntryValue, s: &str) -> Option<EntryValue> {
    use EntryValue::*;
    use serde_json::Value;
    let j: Value = serde_json::from_str(s).ok()?;
    let num = |x: &Value| x.as_i64();
    let pair = |x: &Value| -> Option<(i64, i64)> {
        let o = x.as_object()?;
        (o.len() == 2).then_some(())?;
        Some((num(o.get("numerator")?)?, num(o.get("denominator")?)?))
    };
    let ur = |x: (i64, i64)| Some(nom_exif::URational::new(x.0.try_into().ok()?, x.1.try_into().ok()?));
    let ir = |x: (i64, i64)| Some(nom_exif::IRational::new(x.0.try_into().ok()?, x.1.try_into().ok()?));
    Some(match v {
        Text(_) => Text(j.as_str()?.into()),
        U8(_) | U16(_) | U32(_) | U64(_) | I8(_) | I16(_) | I32(_) | I64(_) | F32(_) | F64(_) => {
            j.is_number().then_some(())?;
            from_text(v, s)?
        }
        URational(_) => URational(ur(pair(&j)?)?),
        IRational(_) => IRational(ir(pair(&j)?)?),
        URationalArray(_) => URationalArray(j.as_array()?.iter().map(|x| ur(pair(x)?)).collect::<Option<_>>()?),
        IRationalArray(_) => IRationalArray(j.as_array()?.iter().map(|x| ir(pair(x)?)).collect::<Option<_>>()?),
        U8Array(_) => U8Array(j.as_array()?.iter().map(|x| num(x)?.try_into().ok()).collect::<Option<_>>()?),
        U16Array(_) => U16Array(j.as_array()?.iter().map(|x| num(x)?.try_into().ok()).collect::<Option<_>>()?),
        U32Array(_) => U32Array(j.as_array()?.iter().map(|x| num(x)?.try_into().ok()).collect::<Option<_>>()?),
        Undefined(_) => Undefined(unhex(j.as_str()?)?),
        DateTime(_) | NaiveDateTime(_) => from_text(v, j.as_str()?)?,
        _ => return None,
    })
}

fn check_value(v: &EntryValue) -> CaseResult {
    let id = ident(v);
    let key = trunc(&format!("value:{id}"), 200);
    if let Err(m) = check_accessors(v) {
        return viol(key, format!("{}: {m}", trunc(&id, 200)));
    }
    let text = v.to_string();
    let nan = matches!(v, EntryValue::F32(x) if x.is_nan()) || matches!(v, EntryValue::F64(x) if x.is_nan());
    if !nan {
        let back = from_text(v, &text);
        if back.as_ref().map(ident) != Some(id.clone()) {
            return viol(key, format!("{} is shown as {:?}, which reads back as {:?}", trunc(&id, 200), trunc(&text, 200), back));
        }
    }
    let finite = match v {
        EntryValue::F32(x) => x.is_finite(),
        EntryValue::F64(x) => x.is_finite(),
        _ => true,
    };
    match serde_json::to_string(v) {
        Err(e) => return viol(key, format!("{} cannot be serialised: {e}", trunc(&id, 200))),
        Ok(s) if finite => {
            let back = from_json(v, &s);
            if back.as_ref().map(ident) != Some(id.clone()) {
                return viol(key, format!("{} is serialised as {:?}, which reads back as {:?}", trunc(&id, 200), trunc(&s, 200), back));
            }
        }
        Ok(_) => {}
    }
    Ok(Stats::one(true, fp(&text)))
}

// ---- alphabets

const U32S: &[u32] = &[0, 1, 2, 3, 5, 9, 10, 15, 16, 17, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 10000, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];
const I32S: &[i32] = &[0, 1, -1, 2, -2, 3, 7, -10, 16, 100, -100, 127, -128, 255, -256, 32767, -32768, 65536, i32::MAX, i32::MIN, i32::MIN + 1];
fn bits64(i: u64) -> u64 {
    // 2^k, 2^k-1, 2^k+1, and their neighbours around the precision of a double
    let k = (i / 8) as u32;
    let p = 1u64 << k;
    match i % 8 {
        0 => p,
        1 => p - 1,
        2 => p.wrapping_add(1),
        3 => !p,
        4 => p | p >> 53,
        5 => p | p >> 53 | p >> 54,
        6 => p | (p >> 54) | 1,
        _ => p.wrapping_mul(3).wrapping_sub(1),
    }
}

fn integers(t: Tier) -> Space {
    // 8-bit: all; 16-bit: all; 32-bit: bit patterns; 64-bit: bit patterns
    let step = t.pick(64u64, 1);
    let n32 = 65536 / step * 16;
    let n = 512 + 2 * 65536 + 2 * n32 + 2 * 512;
    let mk = move |mut i: u64| -> EntryValue {
        for (len, k) in [(256, 0), (256, 1), (65536, 2), (65536, 3), (n32, 4), (n32, 5), (512, 6), (512, 7)] {
            if i < len {
                let p32 = || {
                    let hi = (i / 16 * step) as u32;
                    let lo = [0, 1, 0xff, 0x100, 0x1234, 0x7fff, 0x8000, 0xffff, 2, 0xfffe, 0x0fff, 0x5555, 0xaaaa, 0xff00, 10, 0x8001][(i % 16) as usize];
                    hi << 16 | lo
                };
                return match k {
                    0 => (i as u8).into(),
                    1 => (i as u8 as i8).into(),
                    2 => (i as u16).into(),
                    3 => (i as u16 as i16).into(),
                    4 => p32().into(),
                    5 => (p32() as i32).into(),
                    6 => bits64(i).into(),
                    _ => (bits64(i) as i64).into(),
                };
            }
            i -= len;
        }
        unreachable!()
    };
    Space::new(
        "integers",
        "all 8- and 16-bit integers, 32-bit integers by upper half x 16 lower halves, 64-bit integers around every power of two: accessors, widening, text and JSON read back",
        n,
        move |i| check_value(&mk(i)),
        move |i| format!("{:?}", mk(i)),
    )
}

fn floats(t: Tier) -> Space {
    let lows: &'static [u64] = t.pick(&[0, 1, 0xffff_ffff_ffff, 0x5555_5555_5555], &[0, 1, 2, 0xffff_ffff_ffff, 0x5555_5555_5555, 0xaaaa_aaaa_aaaa, 0x8000_0000_0000, 0x1234_5678_9abc]);
    let l = lows.len() as u64;
    let mk = move |i: u64| -> EntryValue {
        let mut m = Mix(i);
        let lo = *m.of(lows);
        let w = m.b();
        let hi = m.0;
        if w {
            f64::from_bits(hi << 48 | lo).into()
        } else {
            f32::from_bits((hi << 16 | lo & 0xffff) as u32).into()
        }
    };
    Space::new(
        "floats",
        format!("single and double floating-point numbers: all 65536 upper halves x {l} lower parts (NaN has no text to read back; JSON has no infinities)"),
        65536 * 2 * l,
        move |i| check_value(&mk(i)),
        move |i| ident(&mk(i)),
    )
}

fn rationals() -> Space {
    let (u, s) = (U32S.len() as u64, I32S.len() as u64);
    let (nu, ns) = (u * u, s * s);
    let ur = move |i: u64| URational::new(U32S[(i % u) as usize], U32S[(i / u) as usize]);
    let ir = move |i: u64| IRational::new(I32S[(i % s) as usize], I32S[(i / s) as usize]);
    // single rationals, pairs in arrays with a stride through the grid, triples
    let mk = move |mut i: u64| -> EntryValue {
        if i < nu {
            return EntryValue::URational(ur(i));
        }
        i -= nu;
        if i < ns {
            return EntryValue::IRational(ir(i));
        }
        i -= ns;
        let len = (i % 5) as usize;
        i /= 5;
        if i < nu {
            return EntryValue::URationalArray((0..len as u64).map(|k| ur((i + k * 37) % nu)).collect());
        }
        i -= nu;
        EntryValue::IRationalArray((0..len as u64).map(|k| ir((i + k * 37) % ns)).collect())
    };
    Space::new(
        "rationals",
        "numerators and denominators over 26 unsigned / 21 signed boundary numbers, single and in arrays of 0..4",
        nu + ns + 5 * (nu + ns),
        move |i| {
            let v = mk(i);
            if let EntryValue::IRational(r) = &v {
                let c = URational::try_from(*r);
                let neg = r.numerator() < 0 || r.denominator() < 0;
                let ok = match &c {
                    Err(ConvertError::NegativeRational) => neg,
                    Ok(u) => !neg && u.numerator() as i64 == r.numerator() as i64 && u.denominator() as i64 == r.denominator() as i64,
                    Err(_) => false,
                };
                if !ok {
                    return viol(format!("irational:{r:?}"), format!("{r:?} converts to {c:?}"));
                }
                let back: IRational = serde_json::from_str(&serde_json::to_string(r).unwrap_or_default()).unwrap_or_default();
                if back != *r {
                    return viol(format!("irational-json:{r:?}"), format!("{r:?} comes back as {back:?}"));
                }
            }
            if let EntryValue::URational(r) = &v {
                let back: URational = serde_json::from_str(&serde_json::to_string(r).unwrap_or_default()).unwrap_or_default();
                if back != *r || !ratio(r.to_f64(), r.numerator() as i64, r.denominator() as i64) {
                    return viol(format!("urational-json:{r:?}"), format!("{r:?} comes back as {back:?}"));
                }
            }
            check_value(&v)
        },
        move |i| format!("{:?}", mk(i)),
    )
}

fn bytes_and_texts(t: Tier) -> Space {
    // all byte strings up to length 2 as undefined and as U8 array; longer ones and
    // the other arrays over small alphabets; texts over characters that need care
    let l = t.pick(5u32, 7);
    const A: &[u8] = &[0, b'0', b'x', b'"', b' ', 0x7e, 0x7f, 0x80, 0xff];
    let chars: &'static [char] = &['a', '"', '\\', '\n', '\0', '\u{7f}', 'é', '中', '😀', ' '];
    let lc = t.pick(4u32, 5);
    let n1: u64 = 1 + 256 + 65536;
    let a = A.len() as u64;
    let n2 = a.pow(l);
    let c = chars.len() as u64;
    let n3 = c.pow(lc);
    let u = U32S.len() as u64;
    let n4 = u * u * u * 4;
    let mk = move |mut i: u64| -> EntryValue {
        if i < 2 * n1 {
            let arr = i % 2 == 1;
            i /= 2;
            let b: Vec<u8> = match i {
                0 => vec![],
                1..=256 => vec![(i - 1) as u8],
                _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
            };
            return if arr { EntryValue::U8Array(b) } else { EntryValue::Undefined(b) };
        }
        i -= 2 * n1;
        if i < n2 {
            return EntryValue::Undefined((0..l).map(|k| A[(i / a.pow(k) % a) as usize]).collect());
        }
        i -= n2;
        if i < n3 * lc as u64 {
            let len = 1 + (i / n3) as u32;
            let s: String = (0..len).map(|k| chars[(i / c.pow(k) % c) as usize]).collect();
            return match i % 3 {
                0 => EntryValue::Text(s),
                1 => s.as_str().into(),
                _ => s.into(),
            };
        }
        i -= n3 * lc as u64;
        let len = (i % 4) as u32;
        i /= 4;
        let xs: Vec<u32> = (0..len).map(|k| U32S[(i / u.pow(k.min(2)) % u) as usize]).collect();
        if i % 2 == 0 {
            EntryValue::U32Array(xs)
        } else {
            EntryValue::U16Array(xs.into_iter().map(|x| x as u16).collect())
        }
    };
    Space::new(
        "bytes-texts-arrays",
        format!("all byte strings of length 0..=2 and of length {l} over 9 bytes as undefined data, U8/U16/U32 arrays of 0..=3 boundary numbers, texts of 1..={lc} characters over 10 that need care"),
        2 * n1 + n2 + n3 * lc as u64 + n4,
        move |i| {
            let v = mk(i);
            // texts are made by conversion, too
            if i >= 2 * n1 + n2 && i < 2 * n1 + n2 + n3 * lc as u64 {
                let j = i - 2 * n1 - n2;
                let s: String = (0..1 + (j / n3) as u32).map(|k| chars[(j % n3 / c.pow(k) % c) as usize]).collect();
                if v.as_str() != Some(s.as_str()) {
                    return viol(format!("text:{s:?}"), format!("{s:?} becomes {v:?}"));
                }
            }
            check_value(&v)
        },
        move |i| format!("{:?}", mk(i)),
    )
}

fn dates(t: Tier) -> Space {
    let days: &'static [(i32, u32, u32)] = &[(1, 1, 1), (1904, 1, 1), (1970, 1, 1), (1999, 12, 31), (2000, 2, 29), (2024, 2, 29), (2023, 7, 9), (2038, 1, 19), (9999, 12, 31)];
    let secs: &'static [u32] = &[0, 1, 3599, 3600, 43200, 73593, 86398, 86399];
    let step = t.pick(15u64, 1);
    let offs = 2 * (1439 / step) + 1; // -23:59 ..= 23:59
    let fracs: &'static [u32] = t.pick(&[0, 1, 250_000_000, 999_999_999], &[0, 1, 10, 1_000, 1_001, 250_000_000, 1_000_000, 120_000, 999_999_999]);
    let n = days.len() as u64 * secs.len() as u64 * fracs.len() as u64 * (offs + 1);
    let mk = move |i: u64| -> Option<EntryValue> {
        let mut m = Mix(i);
        let (y, mo, d) = *m.of(days);
        let s = *m.of(secs);
        let nd = NaiveDate::from_ymd_opt(y, mo, d)?.and_hms_nano_opt(s / 3600, s / 60 % 60, s % 60, *m.of(fracs))?;
        let o = m.0;
        if o == 0 {
            return Some((nd, None).into());
        }
        let off = FixedOffset::east_opt(((o - 1) as i32 - (1439 / step) as i32) * step as i32 * 60)?;
        // the very ends of the calendar leave the four-digit years
        if (y == 1 || y == 9999) && off.local_minus_utc() != 0 {
            return None;
        }
        Some((nd, Some(off)).into())
    };
    Space::new(
        "dates",
        format!("9 days x 8 times of day x fractions of a second down to the nanosecond, without an offset and with every offset from -23:59 to +23:59 in steps of {step} minutes"),
        n,
        move |i| match mk(i) {
            None => Ok(Stats::default()),
            Some(v) => {
                let st = check_value(&v)?;
                let dt = v.as_datetime();
                let ok = match (&v, dt) {
                    (EntryValue::DateTime(x), Some(ExifDateTime::Aware(y))) => *x == y && x.offset() == y.offset(),
                    (EntryValue::NaiveDateTime(x), Some(ExifDateTime::Naive(y))) => *x == y,
                    _ => false,
                };
                if !ok {
                    return viol(format!("date:{v:?}"), format!("{v:?} gives {dt:?}"));
                }
                Ok(st)
            }
        },
        move |i| format!("{:?}", mk(i)),
    )
}

/// Different values of one type have different texts and JSON forms.
fn distinct() -> Space {
    let mut groups: Vec<Vec<EntryValue>> = vec![];
    let g = |v: Vec<EntryValue>| v;
    groups.push(g((0..=255u8).map(EntryValue::U8).collect()));
    groups.push(g((0..=255u8).map(|x| EntryValue::I8(x as i8)).collect()));
    groups.push(g(U32S.iter().map(|x| EntryValue::U32(*x)).collect()));
    groups.push(g(I32S.iter().map(|x| EntryValue::I32(*x)).collect()));
    groups.push(g(U32S.iter().map(|x| EntryValue::U16(*x as u16)).collect()));
    groups.push(g(I32S.iter().map(|x| EntryValue::I16(*x as i16)).collect()));
    groups.push(g((0..512).map(|i| EntryValue::U64(bits64(i))).collect()));
    groups.push(g((0..512).map(|i| EntryValue::I64(bits64(i) as i64)).collect()));
    groups.push(g((0..2048u32).map(|i| EntryValue::F32(f32::from_bits(i.wrapping_mul(0x0020_0801)))).filter(|v| !matches!(v, EntryValue::F32(x) if !x.is_finite())).collect()));
    groups.push(g((0..2048u64).map(|i| EntryValue::F64(f64::from_bits(i.wrapping_mul(0x0020_0000_0008_0001)))).filter(|v| !matches!(v, EntryValue::F64(x) if !x.is_finite())).collect()));
    let mut r = vec![];
    let mut ra = vec![EntryValue::URationalArray(vec![])];
    for n in U32S {
        for d in &U32S[..12] {
            r.push(EntryValue::URational(URational::new(*n, *d)));
            ra.push(EntryValue::URationalArray(vec![URational::new(*n, *d)]));
            ra.push(EntryValue::URationalArray(vec![URational::new(1, 2), URational::new(*n, *d)]));
        }
    }
    groups.push(r);
    groups.push(ra);
    let mut r = vec![];
    let mut ra = vec![EntryValue::IRationalArray(vec![])];
    for n in I32S {
        for d in I32S {
            r.push(EntryValue::IRational(IRational::new(*n, *d)));
            ra.push(EntryValue::IRationalArray(vec![IRational::new(*n, *d), IRational::new(*d, 1)]));
        }
    }
    groups.push(r);
    groups.push(ra);
    let arrs: Vec<Vec<u32>> = {
        let x = [0u32, 1, 0x10, 0x11, 0x100, 0xff, 0xffff, 0x0101];
        let mut o = vec![vec![]];
        for a in x {
            o.push(vec![a]);
            for b in x {
                o.push(vec![a, b]);
                for c in x {
                    o.push(vec![a, b, c]);
                }
            }
        }
        // long ones that differ in the last element only
        for n in [9usize, 10, 11, 32, 33, 64, 100, 1000, 5000] {
            for last in [0, 1, 2] {
                let mut v = vec![7; n];
                v[n - 1] = last;
                o.push(v);
            }
        }
        o
    };
    groups.push(arrs.iter().map(|a| EntryValue::U32Array(a.clone())).collect());
    groups.push(arrs.iter().map(|a| EntryValue::U16Array(a.iter().map(|x| *x as u16).collect())).collect());
    groups.push(arrs.iter().map(|a| EntryValue::U8Array(a.iter().map(|x| *x as u8).collect())).collect());
    groups.push(arrs.iter().map(|a| EntryValue::Undefined(a.iter().map(|x| *x as u8).collect())).collect());
    groups.push(arrs.iter().map(|a| EntryValue::Undefined(a.iter().map(|x| b"0123xX\" "[*x as usize % 8]).collect())).collect());
    groups.push(arrs.iter().map(|a| EntryValue::Text(a.iter().map(|x| char::from_u32(x % 0x1ff + 32).unwrap_or('?')).collect())).collect());
    let n: u64 = groups.len() as u64;
    let groups = Arc::new(groups);
    let g2 = groups.clone();
    Space::new(
        "distinct",
        "all pairs of values of one type out of up to some 2000 boundary values each: different values have different texts and different JSON forms",
        n,
        move |i| {
            let mut seen: std::collections::HashMap<String, String> = Default::default();
            let mut st = Stats::default();
            for v in &groups[i as usize] {
                let id = ident(v);
                for s in [format!("text {v}"), format!("json {}", serde_json::to_string(v).unwrap_or_default())] {
                    st.note(true, fp(&s));
                    if let Some(o) = seen.insert(s.clone(), id.clone()) {
                        if o != id {
                            return viol(format!("distinct:{i}"), format!("{} and {} are both {}", trunc(&o, 150), trunc(&id, 150), trunc(&s, 150)));
                        }
                    }
                }
            }
            Ok(st)
        },
        move |i| format!("{} values like {:?}", g2[i as usize].len(), g2[i as usize].first()),
    )
}

fn tag_codes() -> Space {
    Space::new(
        "tag-codes",
        "all 65536 tag codes: code to tag to code, recognised exactly when the table of recognised tags lists it, name to tag to name, text, JSON and back",
        65536,
        |i| {
            let c = i as u16;
            let key = format!("tag:{c:#06x}");
            let known = TAGS.iter().find(|t| t.1 == c).map(|t| t.0);
            let tc = TagOrCode::from(c);
            if tc.code() != c {
                return viol(key, format!("code {c:#06x} becomes {tc:?} with code {:#06x}", tc.code()));
            }
            let tag = ExifTag::from_code(c);
            if tc.tag() != tag || tag.map(|t| t.to_string()).as_deref() != known {
                return viol(key, format!("code {c:#06x} is {tag:?} / {tc:?}, expected {known:?}"));
            }
            let want = known.map(String::from).unwrap_or_else(|| format!("Unknown(0x{c:04x})"));
            if tc.to_string() != want {
                return viol(key, format!("code {c:#06x} is shown as {tc}"));
            }
            if let Some(t) = tag {
                let back = ExifTag::from_str(t.name()).ok();
                if t.code() != c || back != Some(t) || t.name() != t.to_string() {
                    return viol(key, format!("{t:?} has code {:#06x}, name {}, which parses as {back:?}", t.code(), t.name()));
                }
                let js = serde_json::to_string(&t).unwrap_or_default();
                if serde_json::from_str::<ExifTag>(&js).ok() != Some(t) {
                    return viol(key, format!("{t:?} does not come back from {js}"));
                }
            }
            let js = serde_json::to_string(&tc).unwrap_or_default();
            match serde_json::from_str::<TagOrCode>(&js) {
                Ok(b) if b == tc && b.code() == c => Ok(Stats::one(tag.is_some(), fp(&js))),
                b => viol(key, format!("{tc:?} comes back from {js} as {b:?}")),
            }
        },
        |i| format!("code {i:#06x}"),
    )
}

/// the variations of a name that must not be taken for it
fn misspelt(n: &str) -> Vec<String> {
    let mut v = vec![n.to_lowercase(), n.to_uppercase(), format!(" {n}"), format!("{n} "), format!("{n}\0"), format!("Exif.{n}"), format!("{n}{n}")];
    for i in 0..n.len() {
        let (a, b) = n.split_at(i);
        v.push(format!("{a}{}", &b[1..]));
        v.push(format!("{a}x{b}"));
        v.push(format!("{a}{}{}", if b.starts_with('e') { 'a' } else { 'e' }, &b[1..]));
        v.push(a.to_string());
    }
    v
}
fn names() -> Space {
    let all: Vec<(bool, String)> = TAGS.iter().map(|t| (false, t.0.to_string())).chain(TRACK_TAGS.iter().map(|t| (true, t.to_string()))).collect();
    let all = Arc::new(all);
    let a2 = all.clone();
    Space::new(
        "names",
        "all names of Exif and track tags and every one-character deletion, insertion, substitution, truncation and change of case of each: exactly the names parse",
        all.len() as u64,
        move |i| {
            let (track, n) = &all[i as usize];
            let mut st = Stats::default();
            let key = format!("name:{track}:{n}");
            for (k, s) in std::iter::once(n.clone()).chain(misspelt(n)).enumerate() {
                let known = if *track { TRACK_TAGS.contains(&s.as_str()) } else { TAGS.iter().any(|t| t.0 == s) };
                let got = if *track {
                    TrackInfoTag::from_str(&s).map(|t| (t.to_string(), t.name().to_string(), format!("{t:?}")))
                } else {
                    ExifTag::from_str(&s).map(|t| (t.to_string(), t.name().to_string(), format!("{t:?}")))
                };
                let ok = match &got {
                    Ok((d, m, _)) => known && *d == s && *m == s,
                    Err(ConvertError::UnknownTagName(e)) => !known && *e == s,
                    Err(_) => false,
                };
                if !ok {
                    return viol(key, format!("{s:?} parses as {got:?}"));
                }
                st.note(k == 0, fp(&s));
            }
            // the name is that of the tag with the code of the table
            if !track {
                let code = TAGS.iter().find(|t| t.0 == n).unwrap().1;
                match ExifTag::from_str(n) {
                    Ok(t) if t.code() == code && ExifTag::from_code(code) == Some(t) => {}
                    o => return viol(key, format!("{n} parses as {o:?}, the code of that name is {code:#06x}")),
                }
            }
            Ok(st)
        },
        move |i| format!("{:?}", a2[i as usize]),
    )
}

fn letters() -> Space {
    Space::new(
        "letters",
        "all 0x110000 code points as hemisphere and speed-unit letters, in blocks of 256: exactly the documented letters, and back; directory indices",
        0x1100,
        |i| {
            let mut st = Stats::default();
            for u in (i as u32 * 256)..(i as u32 * 256 + 256) {
                let Some(c) = char::from_u32(u) else { continue };
                let up = c.to_ascii_uppercase();
                let key = format!("letter:{u:#x}");
                let la = LatRef::from_char(c).map(|x| (x.as_char(), x.sign()));
                let wl = match up {
                    'N' => Some(('N', 1.0)),
                    'S' => Some(('S', -1.0)),
                    _ => None,
                };
                let lo = LonRef::from_char(c).map(|x| (x.as_char(), x.sign()));
                let wo = match up {
                    'E' => Some(('E', 1.0)),
                    'W' => Some(('W', -1.0)),
                    _ => None,
                };
                let sp = SpeedUnit::from_char(c).map(|x| (x.as_char(), x));
                let ws = match up {
                    'K' => Some(('K', SpeedUnit::KmPerHour)),
                    'M' => Some(('M', SpeedUnit::MilesPerHour)),
                    'N' => Some(('N', SpeedUnit::Knots)),
                    _ => None,
                };
                if la != wl || lo != wo || sp != ws {
                    return viol(key, format!("{c:?}: {la:?} {lo:?} {sp:?}"));
                }
                st.note(wl.is_some() || wo.is_some() || ws.is_some(), fp(&(la.map(|x| x.0), lo.map(|x| x.0), sp.map(|x| x.0))));
            }
            let ix = IfdIndex::new(i as usize * 7919);
            let back: Option<IfdIndex> = serde_json::to_string(&ix).ok().and_then(|s| serde_json::from_str(&s).ok());
            if back != Some(ix) || ix.as_usize() != i as usize * 7919 || ix.to_string() != format!("ifd{}", i * 7919) {
                return viol(format!("ifd:{i}"), format!("{ix:?} {ix} comes back as {back:?}"));
            }
            Ok(st)
        },
        |i| format!("code points {:#x}..", i * 256),
    )
}

fn degrees(t: Tier) -> Space {
    // every `step`-th hundredth of an arc second of the half circle, with the values just
    // below and above it and half way to the next
    let step = t.pick(100u64, 1);
    let total = 180 * 3600 * 100 / step + 1;
    let block = 3600u64;
    let tol = 0.005 / 3600.0 + 1e-10;
    let one = move |x: f64| -> std::result::Result<(), String> {
        let d = match LatLng::try_from_decimal_degrees(x) {
            Ok(d) => d,
            Err(_) if x.abs() > 180.0 => return Ok(()),
            Err(e) => return Err(format!("{x:?} is refused: {e}")),
        };
        if x.abs() > 180.0 {
            return Err(format!("{x:?} is accepted"));
        }
        let back = d.to_decimal_degrees().ok_or("no value")?;
        if (back - x.abs()).abs() > tol {
            return Err(format!("{x:?} becomes {d:?}, which is {back:?}"));
        }
        let (deg, min, sec) = (d.degrees.to_f64(), d.minutes.to_f64(), d.seconds.to_f64());
        if deg > Some(180.0) || min >= Some(60.0) || sec > Some(60.0) {
            return Err(format!("{x:?} becomes {d:?}"));
        }
        Ok(())
    };
    Space::new(
        "degrees",
        format!("every {step}-th hundredth of an arc second from 0 to 180 degrees, its two neighbouring doubles and the point half a hundredth on, both signs: within half a hundredth of an arc second"),
        total.div_ceil(block) + 1,
        move |i| {
            let mut st = Stats::default();
            if i == total.div_ceil(block) {
                for x in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 180.0f64.next_up(), -180.0f64.next_up(), 181.0, 1e300, -1e300, f64::MAX] {
                    match LatLng::try_from_decimal_degrees(x) {
                        Err(ConvertError::InvalidDecimalDegrees(y)) if x.to_bits() == y.to_bits() => st.note(true, fp(&x.to_bits())),
                        o => return viol(format!("degrees:{x}"), format!("{x:?} gives {o:?}")),
                    }
                }
                return Ok(st);
            }
            for k in i * block..((i + 1) * block).min(total) {
                let x = (k * step) as f64 / 360000.0;
                for y in [x, x.next_up(), x.next_down(), x + 0.00499 / 3600.0, x + 0.005 / 3600.0] {
                    for z in [y, -y] {
                        if let Err(m) = one(z) {
                            return viol(format!("degrees:{z:?}"), m);
                        }
                        st.execs += 1;
                        st.steps += 1;
                    }
                }
            }
            st.nontrivial = st.execs;
            st.fps.push(i);
            Ok(st)
        },
        move |i| format!("from {} hundredths of an arc second", i * block * step),
    )
}

/// LatLng from slices of rationals; altitude arithmetic
fn coordinates() -> Space {
    let al: &'static [(i32, i32)] = &[(0, 1), (43, 1), (28, 1), (1761, 100), (-1, 1), (5, -1), (7, 0), (i32::MAX, 3), (i32::MIN, 1)];
    let a = al.len() as u64;
    let n: u64 = (0..=4u32).map(|l| a.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= a.pow(l) {
            i -= a.pow(l);
            l += 1;
        }
        (0..l).map(|k| al[(i / a.pow(k) % a) as usize]).collect::<Vec<_>>()
    };
    Space::new(
        "coordinates",
        "all lists of 0..=4 rationals over 9 boundary ones as coordinate (signed and unsigned), and each as altitude: taken unchanged, or refused when short or negative",
        n,
        move |i| {
            let v = dec(i);
            let key = format!("coord:{v:?}");
            let ir: Vec<IRational> = v.iter().map(|x| IRational::new(x.0, x.1)).collect();
            let ur: Vec<URational> = v.iter().map(|x| URational::new(x.0 as u32, x.1 as u32)).collect();
            let want = |neg: bool| -> Option<LatLng> {
                if v.len() < 3 || (neg && v[..3].iter().any(|x| x.0 < 0 || x.1 < 0)) {
                    return None;
                }
                Some(LatLng::new(ur[0], ur[1], ur[2]))
            };
            let got = [LatLng::try_from(&ur[..]).ok(), LatLng::try_from(&ur).ok(), LatLng::try_from(&ir[..]).ok(), LatLng::try_from(&ir).ok()];
            let w = [want(false), want(false), want(true), want(true)];
            if got != w {
                return viol(key, format!("{v:?} becomes {got:?}, expected {w:?}"));
            }
            if let Some(d) = w[0] {
                let zero = ur[..3].iter().any(|x| x.denominator() == 0);
                let dd = d.to_decimal_degrees();
                let q = |k: usize| ur[k].numerator() as f64 / ur[k].denominator() as f64;
                let ok = match dd {
                    None => zero,
                    Some(x) => !zero && (x - (q(0) + q(1) / 60.0 + q(2) / 3600.0)).abs() <= 1e-12 * x.abs().max(1.0),
                };
                if !ok {
                    return viol(key, format!("{d:?} is {dd:?}"));
                }
                for (lr, s) in [(LatRef::North, 1.0), (LatRef::South, -1.0)] {
                    for (gr, s2) in [(LonRef::East, 1.0), (LonRef::West, -1.0)] {
                        let g = GPSInfo { latitude_ref: lr, latitude: d, longitude_ref: gr, longitude: d, altitude: Altitude::Unknown, speed: None };
                        if g.latitude_decimal() != dd.map(|x| x * s) || g.longitude_decimal() != dd.map(|x| x * s2) || g.altitude_meters().is_some() {
                            return viol(key, format!("{g:?} is {:?} {:?}", g.latitude_decimal(), g.longitude_decimal()));
                        }
                    }
                }
            }
            for r in &ur {
                let m = r.to_f64();
                for (al, s) in [(Altitude::AboveSeaLevel(*r), 1.0), (Altitude::BelowSeaLevel(*r), -1.0)] {
                    let g = GPSInfo { altitude: al, ..Default::default() };
                    if al.meters() != m.map(|x| x * s) || al.magnitude() != Some(*r) || g.altitude_meters() != al.meters() {
                        return viol(key, format!("{al:?} is {:?} m, magnitude {:?}", al.meters(), al.magnitude()));
                    }
                }
            }
            Ok(Stats::one(!v.is_empty(), fp(&v)))
        },
        move |i| format!("{:?}", dec(i)),
    )
}

/// text chunks: look-up, listing and JSON
fn text_chunks(t: Tier) -> Space {
    let l = t.pick(4u32, 5);
    const K: &[&str] = &["a", "A", "ab", ""];
    const V: &[&str] = &["", "x", "\u{e9}"];
    let a = (K.len() * V.len()) as u64;
    let n: u64 = (0..=l).map(|k| a.pow(k)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= a.pow(l) {
            i -= a.pow(l);
            l += 1;
        }
        (0..l)
            .map(|k| {
                let c = (i / a.pow(k) % a) as usize;
                (K[c % K.len()], V[c / K.len()])
            })
            .collect::<Vec<_>>()
    };
    Space::new(
        "text-chunks",
        format!("all sequences of up to {l} text chunks over 4 keys x 3 values: listing in file order, first value and all values of a key, and the JSON form back"),
        n,
        move |i| {
            let v = dec(i);
            let key = format!("text:{v:?}");
            let mut chunks = vec![];
            for (k, x) in &v {
                let lat: Vec<u8> = x.chars().map(|c| c as u8).collect();
                chunks.push(text_chunk(k, &lat));
            }
            chunks.push(text_chunk("Raw profile type exif", &raw_profile("exif", &tiny_dir_tiff())));
            let data = png(&chunks);
            let m = match MediaParser::new().parse_image_metadata(match MediaSource::from_memory(data) {
                Ok(s) => s,
                Err(e) => return viol(key, format!("{v:?}: {e}")),
            }) {
                Ok(m) => m,
                Err(e) => return viol(key, format!("{v:?}: {e}")),
            };
            let Some(f) = m.format else { return viol(key, format!("{v:?}: no text")) };
            let js = serde_json::to_string(&f).unwrap_or_default();
            let back: std::result::Result<ImageFormatMetadata, _> = serde_json::from_str(&js);
            let Ok(back) = back else { return viol(key, format!("{js} does not come back")) };
            for (who, f) in [("original", &f), ("deserialised", &back)] {
                let ImageFormatMetadata::Png(p) = f else { return viol(key, "not a PNG".to_string()) };
                let mut all: Vec<(String, String)> = p.iter().map(|(a, b)| (a.into(), b.into())).collect();
                if p.len() != all.len() || p.is_empty() != all.is_empty() {
                    return viol(key, format!("{who}: length {} of {}", p.len(), all.len()));
                }
                let last = all.pop();
                if last.as_ref().map(|x| x.0.as_str()) != Some("Raw profile type exif") || !all.iter().map(|x| (x.0.as_str(), x.1.as_str())).eq(v.iter().copied()) {
                    return viol(key, format!("{who}: {all:?} {last:?}, expected {v:?}"));
                }
                for k in K.iter().chain(&["zz", "Raw profile type exif"]) {
                    let w: Vec<&str> = v.iter().filter(|x| x.0 == *k).map(|x| x.1).chain(last.iter().filter(|x| x.0 == *k).map(|x| x.1.as_str())).collect();
                    let g: Vec<&str> = p.get_all(k).collect();
                    if g != w || p.get(k) != w.first().copied() {
                        return viol(key, format!("{who}: key {k:?} gives {:?} and {g:?}, expected {w:?}", p.get(k)));
                    }
                }
            }
            Ok(Stats::one(!v.is_empty(), fp(&js)))
        },
        move |i| format!("{:?}", dec(i)),
    )
}
fn tiny_dir_tiff() -> Vec<u8> {
    tiff(&tiny_dir(), &Lay::new(false)).bytes
}

/// Values that come out of files: the accessors, texts and JSON forms of every
/// value format, count and tag a file can hold.
fn parsed(t: Tier) -> Space {
    let counts: &'static [usize] = t.pick(&[1, 2, 3, 4, 5, 9, 40], &[1, 2, 3, 4, 5, 8, 9, 10, 40, 100, 1000, 5000]);
    let n = 12 * counts.len() as u64 * 12 * 2;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        (m.d(12), *m.of(counts), m.d(12), m.b())
    };
    Space::new(
        "parsed",
        "12 formats x counts x 12 boundary patterns x byte order as parsed from a file",
        n,
        move |i| {
            let (f, c, k, be) = dec(i);
            let t = tiff(&dir(vec![en(0x010e, super::c07::val(f, c, k)), en(0xfff0, super::c07::val(f, c, k))]), &Lay { tail: 200, ..Lay::new(be) });
            let it = match MediaSource::from_memory(t.bytes).and_then(|s| MediaParser::new().parse_exif(s)) {
                Ok(it) => it,
                Err(e) => return viol(format!("parsed:{i}"), format!("{e}")),
            };
            let mut st = Stats::default();
            for e in it {
                if let Some(v) = e.value() {
                    st.add(check_value(v)?);
                }
            }
            Ok(st)
        },
        move |i| format!("{:?}", dec(i)),
    )
}

pub fn spaces(t: Tier) -> Spec {
    (
        "exploration",
        vec![integers(t), floats(t), rationals(), bytes_and_texts(t), dates(t), distinct(), parsed(t), tag_codes(), names(), letters(), degrees(t), coordinates(), text_chunks(t)],
        vec![
            "a not-a-number or infinite floating-point value has no JSON form that tells it from others",
        ],
    )
}
