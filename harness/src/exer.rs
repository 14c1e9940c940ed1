//! Everything a caller can do with a result. Each function returns a fingerprint
//! so that the work cannot be optimised away.
use crate::engine::fp;
use nom_exif::*;

pub fn value(v: &EntryValue) -> u64 {
    let mut h = fp(&format!("{v:?}")) ^ fp(&v.to_string());
    h ^= fp(&serde_json::to_string(v).unwrap_or_default());
    h ^= fp(&(
        v.as_str().map(|s| s.len()),
        v.as_u8(),
        v.as_i8(),
        v.as_u16(),
        v.as_i16(),
        v.as_u32(),
        v.as_i32(),
        v.as_u64(),
        v.as_i64(),
    ));
    h ^= fp(&(v.as_f64().map(f64::to_bits), v.try_as_integer(), v.try_as_float().map(f64::to_bits)));
    h ^= fp(&(
        v.as_u8_slice().map(|s| s.len()),
        v.as_u16_slice().map(|s| s.len()),
        v.as_u32_slice().map(|s| s.len()),
        v.as_undefined().map(|s| s.len()),
        v.as_urational_slice().map(|s| s.len()),
        v.as_irational_slice().map(|s| s.len()),
    ));
    if let Some(r) = v.as_urational() {
        h ^= fp(&(r.to_f64().map(f64::to_bits), format!("{r:?}"), serde_json::to_string(&r).ok()));
    }
    if let Some(r) = v.as_irational() {
        h ^= fp(&(r.to_f64().map(f64::to_bits), URational::try_from(r).is_ok(), serde_json::to_string(&r).ok()));
    }
    if let Some(r) = v.as_urational_slice() {
        h ^= fp(&LatLng::try_from(r).is_ok());
    }
    if let Some(r) = v.as_irational_slice() {
        h ^= fp(&LatLng::try_from(r).is_ok());
    }
    if let Some(d) = v.as_datetime() {
        h ^= datetime(d);
    }
    h
}
pub fn datetime(d: ExifDateTime) -> u64 {
    let mut h = fp(&format!("{d:?} {:?}", d.aware()));
    h ^= fp(&d.into_naive().to_string());
    for s in [0, 1, -1, 8 * 3600, 86_399, -86_399] {
        if let Some(o) = chrono::FixedOffset::east_opt(s) {
            h ^= fp(&format!("{:?}", d.or_offset(o)));
        }
    }
    h
}
pub fn gps(g: &GPSInfo) -> u64 {
    let t = g.to_iso6709();
    fp(&(
        format!("{g:?}"),
        g.latitude_decimal().map(f64::to_bits),
        g.longitude_decimal().map(f64::to_bits),
        g.altitude_meters().map(f64::to_bits),
        t.parse::<GPSInfo>().is_ok(),
        t,
        g.altitude.magnitude().map(|r| r.to_f64().map(f64::to_bits)),
        g.speed.map(|s| (s.unit.as_char(), s.value.to_f64().map(f64::to_bits))),
    ))
}
pub fn error(e: &Error) -> u64 {
    let mut h = fp(&format!("{e} {e:?}"));
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = s {
        h ^= fp(&x.to_string());
        s = x.source();
    }
    h
}
pub fn exif(e: &Exif) -> u64 {
    let mut h = fp(&format!("{e:?}"));
    for x in e.iter() {
        h ^= value(x.value) ^ fp(&format!("{} {:?} {}", x.ifd, x.tag, x.tag));
        h ^= fp(&e.get_by_code(x.ifd, x.tag.code()).is_some());
        if let Some(t) = x.tag.tag() {
            h ^= fp(&(e.get(t).is_some(), e.get_in(x.ifd, t).is_some()));
        }
    }
    for (i, t, er) in e.errors() {
        h ^= fp(&format!("{i} {t} {er} {er:?}"));
    }
    if let Some(g) = e.gps_info() {
        h ^= gps(g);
    }
    h ^ fp(&e.has_embedded_track())
}
/// returns (number of entries, fingerprint)
pub fn iter(mut it: ExifIter) -> (u64, u64) {
    let mut h = fp(&format!("{it:?}")) ^ fp(&it.has_embedded_track());
    match it.parse_gps() {
        Ok(Some(g)) => h ^= gps(&g),
        Ok(None) => {}
        Err(e) => h ^= error(&e),
    }
    let part = {
        let mut c = it.clone();
        c.next();
        c.clone_rewound()
    };
    let mut n = 0u64;
    for e in it.by_ref() {
        n += 1;
        if n > crate::outcome::MAX_ENTRIES as u64 {
            panic!("iterator yields without end");
        }
        h ^= fp(&format!("{} {} {e:?}", e.ifd(), e.tag()));
        match e.result() {
            Ok(v) => h ^= value(v),
            Err(er) => h ^= fp(&format!("{er} {er:?}")),
        }
        h ^= fp(&e.into_result().is_ok());
    }
    h ^= fp(&it.next().is_none());
    it.rewind();
    let mut m = 0u64;
    for _ in it.by_ref() {
        m += 1;
        if m > n {
            break;
        }
    }
    h ^= exif(&Exif::from(part));
    it.rewind();
    h ^= exif(&Exif::from(it));
    (n, h)
}
#[allow(deprecated)]
pub fn track(t: &TrackInfo) -> u64 {
    let mut h = fp(&format!("{t:?}"));
    for (k, v) in t.iter() {
        h ^= value(v) ^ fp(&(k.to_string(), t.get(k).is_some()));
    }
    if let Some(g) = t.gps_info() {
        h ^= gps(g);
    }
    h ^ fp(&t.has_embedded_media())
}
pub fn format(f: &ImageFormatMetadata) -> u64 {
    let mut h = fp(&format!("{f:?}"));
    if let ImageFormatMetadata::Png(p) = f {
        for (k, v) in p.iter() {
            h ^= fp(&(k, v, p.get(k).is_some(), p.get_all(k).count()));
        }
        h ^= fp(&(p.len(), p.is_empty()));
    }
    h
}
