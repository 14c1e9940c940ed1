//! C21 — the collected EXIF view contains exactly what iteration yields.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::*;
use std::sync::Arc;

/// what one entry of the iterator says, without going through `Exif`
type E1 = (usize, u16, std::result::Result<EntryValue, String>);
fn list(it: ExifIter) -> Vec<E1> {
    it.map(|e| {
        let (i, c) = (e.ifd().as_usize(), e.tag().code());
        let r = match e.value() {
            Some(v) => Ok(v.clone()),
            None => Err(format!("{:?}", e.error())),
        };
        (i, c, r)
    })
    .collect()
}
fn same_value(a: &EntryValue, b: &EntryValue) -> bool {
    // NaN floats are equal to themselves here
    a == b || format!("{a:?}") == format!("{b:?}")
}

const PROBES: [u16; 14] = [
    0x0001, 0x0002, 0x0100, 0x010f, 0x0110, 0x0132, 0x829a, 0x8769, 0x8825, 0x9003, 0x9286, 0xc0de, 0x0000, 0xffff,
];

/// The whole property for one iterator (consumed) and its collection.
fn check_collect(key: &str, it: ExifIter) -> CaseResult {
    let flag = it.has_embedded_track();
    let gps = it.parse_gps().ok().flatten();
    let want = list(it.clone());
    let e: Exif = it.into();
    check_exif(key, &e, &want, gps, flag)
}
fn check_exif(key: &str, e: &Exif, want: &[E1], gps: Option<GPSInfo>, flag: bool) -> CaseResult {
    let bad = |m: String| viol(key, m);
    let oks: Vec<(usize, u16, &EntryValue)> = want.iter().filter_map(|(i, c, r)| r.as_ref().ok().map(|v| (*i, *c, v))).collect();
    let errs: Vec<(usize, u16, &str)> = want.iter().filter_map(|(i, c, r)| r.as_ref().err().map(|v| (*i, *c, v.as_str()))).collect();
    // listing
    let got: Vec<(usize, u16, &EntryValue, TagOrCode)> = e.iter().map(|x| (x.ifd.as_usize(), x.tag.code(), x.value, x.tag)).collect();
    if got.len() != oks.len() {
        return bad(format!("{} entries listed, {} iterated", got.len(), oks.len()));
    }
    for (i, c, v) in &oks {
        let n = got.iter().filter(|g| g.0 == *i && g.1 == *c && same_value(g.2, v)).count();
        let m = oks.iter().filter(|g| g.0 == *i && g.1 == *c && same_value(g.2, v)).count();
        if n != m {
            return bad(format!("directory {i} tag {c:#06x} = {v:?}: listed {n} times"));
        }
    }
    for g in &got {
        let known = ExifTag::from_code(g.1);
        if g.3.tag() != known || (known.is_none() && g.3 != TagOrCode::Unknown(g.1)) {
            return bad(format!("code {:#06x} is listed as {:?}", g.1, g.3));
        }
    }
    // errors, in order
    let ge: Vec<(usize, u16, String)> = e.errors().iter().map(|(i, t, x)| (i.as_usize(), t.code(), format!("{:?}", Some(x)))).collect();
    if ge.len() != errs.len() || ge.iter().zip(&errs).any(|(a, b)| a.0 != b.0 || a.1 != b.1 || a.2 != b.2) {
        return bad(format!("errors {} vs iterated {}", trunc(&format!("{ge:?}"), 300), trunc(&format!("{errs:?}"), 300)));
    }
    // look-ups, present and absent
    let last = oks.iter().map(|x| x.0).max().unwrap_or(0);
    let mut codes: Vec<u16> = oks.iter().map(|x| x.1).chain(PROBES).collect();
    codes.sort_unstable();
    codes.dedup();
    for ifd in (0..=last + 1).chain([7, 255, 65_535, usize::MAX]) {
        for &c in &codes {
            let w = oks.iter().find(|x| x.0 == ifd && x.1 == c).map(|x| x.2);
            let idx = IfdIndex::new(ifd);
            let g = e.get_by_code(idx, c);
            let eq = |a: Option<&EntryValue>| match (a, w) {
                (Some(a), Some(b)) => same_value(a, b),
                (None, None) => true,
                _ => false,
            };
            if !eq(g) {
                return bad(format!("get_by_code({ifd}, {c:#06x}) = {g:?}, iterated {w:?}"));
            }
            if let Some(t) = ExifTag::from_code(c) {
                if !eq(e.get_in(idx, t)) {
                    return bad(format!("get_in({ifd}, {t:?}) = {:?}, iterated {w:?}", e.get_in(idx, t)));
                }
                if ifd == 0 && !eq(e.get(t)) {
                    return bad(format!("get({t:?}) = {:?}, main directory {w:?}", e.get(t)));
                }
            }
        }
    }
    if e.gps_info() != gps.as_ref() {
        return bad(format!("gps {:?} vs {gps:?}", e.gps_info()));
    }
    #[allow(deprecated)]
    if e.has_embedded_track() != flag || e.has_embedded_media() != flag {
        return bad(format!("embedded track flag {} vs {flag}", e.has_embedded_track()));
    }
    // a copy is the same
    if &e.clone() != e && !format!("{e:?}").contains("NaN") {
        return bad("clone differs".into());
    }
    Ok(Stats::one(!oks.is_empty(), fp(&format!("{want:?}"))))
}
fn iter_of(data: &Data, src: Src) -> Option<ExifIter> {
    match parse_raw(&mut MediaParser::new(), data, src, Api::Exif) {
        Raw::Exif(i) => Some(i),
        _ => None,
    }
}

/// one directory's content
fn fill(pat: usize, which: usize) -> Vec<En> {
    let tagv = |t: u16, k: usize| match k % 4 {
        0 => en(t, Val::U16(vec![(which * 100 + k) as u16])),
        1 => en(t, Val::s(&format!("dir {which} value {k}"))),
        2 => en(t, Val::URat(vec![(which as u32, 3)])),
        _ => en(t, Val::Undef(vec![which as u8, 1, 2, 3, 4, 5])),
    };
    match pat {
        0 => vec![],
        1 => vec![tagv(0x010f, 1), tagv(0xc0de, 0)],
        2 => vec![tagv(0x829a, 2)],
        // duplicates within the directory, also of an unknown code
        3 => vec![tagv(0x010f, 1), tagv(0xc0de, 3), tagv(0x010f, 0), tagv(0xc0de, 1)],
        // damaged ones
        4 => vec![raw(0x0110, 2, 99, 0x00ff_ff00), tagv(0x0132, 1), raw(0xc0de, 77, 1, 0), tagv(0x0110, 1)],
        5 => vec![tagv(0x0001, 0), tagv(0x0002, 2), tagv(0x9286, 3), tagv(0xffff, 0)],
        6 => vec![tagv(0x9003, 1), en(0x010f, Val::F64(vec![f64::NAN])), tagv(0x0110, 0)],
        _ => vec![tagv(0x0110, 1), tagv(0x010f, 2), tagv(0x829a, 0), tagv(0xc0de, 2), tagv(0x0100, 0), raw(0x0111, 4, 5, 0x7fff_fff0)],
    }
}

fn trees(t: Tier) -> Space {
    let p = t.pick(6u64, 8);
    let n = p * p * p * p * p * 3;
    let case = move |i: u64| {
        let mut m = Mix(i);
        ([m.d(p), m.d(p), m.d(p), m.d(p), m.d(p)], m.d(3))
    };
    Space::new(
        "trees",
        "main, Exif, GPS, thumbnail and third directory, each with one of 6 (thorough 8) contents (empty, known and unknown codes shared between directories, duplicates, damaged entries with and without a good twin, NaN), Exif directory first, last or under the thumbnail directory as well: listing, look-ups of present and absent tags in present and absent directories, errors, GPS, flag",
        n,
        move |i| {
            let (ps, place) = case(i);
            let mut main = fill(ps[0], 0);
            let ex = sub(EXIF_PTR, dir(fill(ps[1], 1)));
            match place {
                0 => main.insert(0, ex),
                _ => main.push(ex),
            }
            let mut g = sample_gps();
            g.ents.extend(fill(ps[2], 2));
            main.push(sub(GPS_PTR, g));
            let mut th = fill(ps[3], 3);
            if place == 2 {
                th.push(sub(EXIF_PTR, dir(fill(ps[1], 4))));
            }
            let d = dir(main).with_next(dir(th).with_next(dir(fill(ps[4], 5))));
            let tf = tiff(&d, &Lay { tail: 150, ..Lay::new(i % 2 == 0) }).bytes;
            let data: Data = Arc::new(tf);
            let Some(it) = iter_of(&data, Src::Mem) else {
                return viol("trees:parse", format!("{:?} not parsed", case(i)));
            };
            check_collect(&format!("trees:{ps:?}:{place}"), it)
        },
        move |i| format!("{:?}", case(i)),
    )
}

/// Every sequence of good and damaged entries of a few codes.
fn runs(t: Tier) -> Space {
    const K: u64 = 8;
    let len = t.pick(4usize, 6);
    fn sym(k: usize, at: usize) -> En {
        match k {
            0 => en(0x010f, Val::s(&format!("text {at}"))),
            1 => en(0x010f, Val::U16(vec![at as u16 + 1])),
            2 => raw(0x010f, 2, 99, 0x00ff_ff00),
            3 => raw(0x010f, 77, 1, at as u32),
            4 => en(0xc0de, Val::U32(vec![at as u32 + 70_000])),
            5 => raw(0xc0de, 5, 9, 0x7fff_ff00),
            6 => raw(0x0110, 2, 99, 0x00ff_ff00),
            _ => en(0x0110, Val::s("model")),
        }
    }
    let case = move |i: u64| {
        let mut m = Mix(i);
        let place = m.d(3);
        (place, (0..len).map(|_| m.d(K)).collect::<Vec<usize>>())
    };
    let c2 = case;
    Space::new(
        "runs",
        format!("every sequence of {len} entries out of 8 (two good values and two kinds of damage of one tag, a good and a damaged entry of another, a good and a damaged one of an unknown code), all in the main directory, all in the Exif directory, or by turns in the main, Exif and thumbnail directory"),
        3 * K.pow(len as u32),
        move |i| {
            let (place, seq) = case(i);
            let mut ds: [Vec<En>; 3] = Default::default();
            for (at, k) in seq.iter().enumerate() {
                ds[[0, 1, at % 3][place]].push(sym(*k, at));
            }
            let [mut a, b, c] = ds;
            a.push(sub(EXIF_PTR, dir(b)));
            let d = dir(a).with_next(dir(c));
            let data: Data = Arc::new(tiff(&d, &Lay { tail: 150, ..Lay::new(i % 2 == 0) }).bytes);
            match iter_of(&data, Src::Mem) {
                Some(it) => check_collect(&format!("runs:{place}:{seq:?}"), it),
                None => viol("runs:parse", format!("{seq:?} not parsed")),
            }
        },
        move |i| format!("{:?}", c2(i)),
    )
}

fn histories(t: Tier) -> Space {
    let mut files: Vec<(String, Vec<u8>)> = super::c06::files();
    for s in t.pick(small(), all()) {
        if s.image && s.has {
            files.push((s.name, s.data));
        }
    }
    files.push(("motion".into(), motion_photo(&tiff_le(), &[jfif()], 50, &mp4(&moov_full(), 0, 64, false))));
    let n = files.len() as u64;
    let (f1, f2) = (Arc::new(files.clone()), Arc::new(files));
    const MAXK: u64 = 48;
    Space::new(
        "histories",
        "every corpus file and the multi-block and self-referring files of C06 x 0 to 47 entries consumed before x 5 ways on (convert the rest; convert a clone, which starts over; a rewound clone; rewind and convert; convert a clone, then go on with the original): the collection has exactly the entries that iterating would have yielded",
        n * MAXK * 5,
        move |i| {
            let mut m = Mix(i);
            let way = m.d(5);
            let k = m.d(MAXK);
            let (name, d) = &f1[m.d(n)];
            let data: Data = Arc::new(d.clone());
            let key = format!("histories:{name}:{k}:{way}");
            let Some(mut it) = iter_of(&data, [Src::Mem, Src::Seek, Src::NoSeek][k % 3]) else {
                // several of C06's files are deliberately empty
                return Ok(Stats::default());
            };
            let full = list(it.clone_rewound());
            for _ in 0..k {
                if it.next().is_none() {
                    break;
                }
            }
            let gps = it.parse_gps().ok().flatten();
            let flag = it.has_embedded_track();
            #[allow(deprecated)]
            if it.has_embedded_media() != flag {
                return viol(key, "the two names of the embedded-track flag disagree");
            }
            match way {
                // what is left of it
                0 => check_exif(&key, &Exif::from(it), &full[k.min(full.len())..], gps, flag),
                // a clone starts over
                1 => {
                    let e = Exif::from(it.clone());
                    check_exif(&key, &e, &full, gps, flag)
                }
                2 => {
                    let e = Exif::from(it.clone_rewound());
                    check_exif(&key, &e, &full, gps, flag)
                }
                3 => {
                    it.rewind();
                    check_exif(&key, &Exif::from(it), &full, gps, flag)
                }
                _ => {
                    let e = Exif::from(it.clone());
                    let mut st = check_exif(&key, &e, &full, gps.clone(), flag)?;
                    // the original is not disturbed
                    st.add(check_exif(&key, &Exif::from(it), &full[k.min(full.len())..], gps, flag)?);
                    Ok(st)
                }
            }
        },
        move |i| {
            let mut m = Mix(i);
            let way = m.d(5);
            let k = m.d(MAXK);
            format!("{} after {k} entries, way {way}", f2[m.d(n)].0)
        },
    )
}

/// `ImageMetadata` in its two forms.
fn metadata() -> Space {
    Space::new(
        "image-metadata",
        "every image of the corpus, and PNG files with text and no, damaged or an empty EXIF source, through parse_image_metadata, converted to the collected form, from every source: the same Exif as converting the iterator of parse_exif, text and format metadata unchanged, absent stays absent",
        files().len() as u64,
        |i| {
            let s = &files()[i as usize];
            let mut st = Stats::default();
            if !s.image {
                return Ok(st);
            }
            let data: Data = Arc::new(s.data.clone());
            let key = format!("image-metadata:{}", s.name);
            for src in SRCS {
                let m = match parse_raw(&mut MediaParser::new(), &data, src, Api::Meta) {
                    Raw::Meta(m) => m,
                    _ => {
                        if s.has {
                            return viol(key, format!("{src:?}: no metadata"));
                        }
                        continue;
                    }
                };
                let f0 = format!("{:?}", m.format);
                let want = m.exif.clone().map(|it| {
                    let g = it.parse_gps().ok().flatten();
                    let f = it.has_embedded_track();
                    (list(it), g, f)
                });
                let eager: ImageMetadata<Exif> = m.into();
                if format!("{:?}", eager.format) != f0 {
                    return viol(key, format!("{src:?}: format metadata changed: {f0} -> {:?}", eager.format));
                }
                match (&eager.exif, want) {
                    (Some(e), Some((w, g, f))) => st.add(check_exif(&key, e, &w, g, f)?),
                    (None, None) => st.note(true, fp(&f0)),
                    (e, w) => return viol(key, format!("{src:?}: exif present {} vs {}", e.is_some(), w.is_some())),
                }
                // and the other entry point
                if let (Some(e), Some(it)) = (&eager.exif, iter_of(&data, src)) {
                    let w = list(it.clone_rewound());
                    st.add(check_exif(&key, e, &w, it.parse_gps().ok().flatten(), it.has_embedded_track())?);
                }
            }
            Ok(st)
        },
        |i| files()[i as usize].name.clone(),
    )
}
fn files() -> Vec<Seed> {
    let mut v = all();
    let mut s = |name: &str, cs: &[Vec<u8>]| {
        v.push(Seed { name: name.into(), image: true, has: true, data: png(&[cs, &[chunk(b"IDAT", &filler(200))]].concat()) })
    };
    let title = text_chunk("Title", b"a title");
    let empty = tiff(&dir(vec![]), &Lay::new(true)).bytes;
    s("png-text", &[title.clone()]);
    s("png-texts", &[title.clone(), text_chunk("Title", b"another"), text_chunk("", b"")]);
    s("png-text-damaged-profile", &[title.clone(), text_chunk("Raw profile type exif", b"\nexif\n  9\nzz")]);
    s("png-text-empty-exif", &[title.clone(), chunk(b"eXIf", &empty)]);
    s("png-text-profile", &[text_chunk("Raw profile type exif", &raw_profile("exif", &exif_payload(&tiff_be()))), title]);
    v
}

/// Every code in every directory position.
fn codes(t: Tier) -> Space {
    let step = t.pick(256u64, 32);
    Space::new(
        "codes",
        "every tag code 1..=65535 except the directory pointers, by turns in the main, Exif, thumbnail, third and tenth directory, 32 (thorough; quick 256) a file: retrievable there by code and by tag, and nowhere else",
        65536 / step,
        move |i| {
            let lo = (i * step) as u32;
            let mut dirs: [Vec<En>; 11] = Default::default();
            let mut exif = vec![];
            for c in lo..lo + step as u32 {
                let c = c as u16;
                // tags with their own decoding or meaning are in other spaces
                if [0, EXIF_PTR, GPS_PTR, 0x0132, 0x9003, 0x9004].contains(&c) {
                    continue;
                }
                let e = en(c, Val::U32(vec![c as u32 + 70_000]));
                match (c as u64 + i) % 5 {
                    0 => dirs[0].push(e),
                    1 => exif.push(e),
                    2 => dirs[1].push(e),
                    3 => dirs[2].push(e),
                    _ => dirs[10].push(e),
                }
            }
            dirs[0].push(sub(EXIF_PTR, dir(exif)));
            let mut d: Option<Dir> = None;
            for v in dirs.into_iter().rev() {
                let mut x = dir(v);
                if let Some(n) = d {
                    x = x.with_next(n);
                }
                d = Some(x);
            }
            let data: Data = Arc::new(tiff(&d.unwrap(), &Lay { tail: 150, ..Lay::new(i % 2 == 0) }).bytes);
            let Some(it) = iter_of(&data, Src::Mem) else {
                return viol("codes:parse", "not parsed");
            };
            // independent expectation for the values
            let e: Exif = it.clone().into();
            for c in lo..lo + step as u32 {
                let c = c as u16;
                if [0, EXIF_PTR, GPS_PTR, 0x0132, 0x9003, 0x9004].contains(&c) {
                    continue;
                }
                let at = [0usize, 0, 1, 2, 10][((c as u64 + i) % 5) as usize];
                for ifd in 0..12 {
                    let g = e.get_by_code(IfdIndex::new(ifd), c);
                    let w = (ifd == at).then_some(EntryValue::U32(c as u32 + 70_000));
                    if g != w.as_ref() {
                        return viol(format!("codes:{c:#06x}"), format!("directory {ifd}: {g:?}, expected {w:?}"));
                    }
                }
            }
            check_collect("codes", it)
        },
        move |i| format!("codes from {:#x}", i * step),
    )
}

pub fn spaces(t: Tier) -> Spec {
    (
        "exploration",
        vec![trees(t), runs(t), histories(t), metadata(), codes(t)],
        vec!["the order of Exif::iter is not specified and not checked"],
    )
}
