//! C14 — ISO base media: movie metadata from any box layout.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use chrono::{DateTime, FixedOffset, TimeZone, Utc};
use nom_exif::{EntryValue, GPSInfo, MediaParser, MediaSource, TrackInfoTag};
use std::collections::BTreeMap;
use std::sync::Arc;

/// What has to come out: tag name -> value.
pub type Facts = BTreeMap<&'static str, EntryValue>;

/// Order of the tags in listings is not promised: compare as maps.
pub fn verify_track(key: &str, f: Vec<u8>, want: &Facts, srcs: &[Src]) -> CaseResult {
    let d: Data = Arc::new(f);
    let mut st = Stats::default();
    let w: BTreeMap<String, String> = want.iter().map(|(k, v)| (k.to_string(), format!("{v:?}"))).collect();
    let gps = want.get("GpsIso6709").and_then(|v| match v {
        EntryValue::Text(t) => t.parse::<GPSInfo>().ok().map(|g| format!("{g:?}")),
        _ => None,
    });
    for &s in srcs {
        let got = parse(&d, s, Api::Track);
        st.note(!w.is_empty(), got.fp());
        let Out::Track(t) = &got else {
            return viol(key, format!("{s:?}: {got:?} instead of {w:?}"));
        };
        let g: BTreeMap<String, String> = t.tags.iter().cloned().collect();
        if g.len() != t.tags.len() {
            return viol(key, format!("{s:?}: a tag is listed twice: {:?}", t.tags));
        }
        for k in w.keys().chain(g.keys()) {
            if g.get(k) != w.get(k) {
                return viol(key, format!("{s:?}: {k}: got {:?}, the file says {:?}", g.get(k), w.get(k)));
            }
        }
        if t.gps != gps {
            return viol(key, format!("{s:?}: gps {:?} instead of {gps:?}", t.gps));
        }
    }
    Ok(st)
}
const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek];

/// Seconds since 1904 as the library's date-time value; None if there is no such date.
fn created(secs: u64) -> Option<EntryValue> {
    // 1904-01-01 is 2_082_844_800 s before the Unix epoch
    let unix = i64::try_from(secs).ok()?.checked_sub(2_082_844_800)?;
    let t: DateTime<Utc> = Utc.timestamp_opt(unix, 0).single()?;
    Some(EntryValue::DateTime(t.fixed_offset()))
}
fn text(t: &str) -> EntryValue {
    EntryValue::Text(t.into())
}

// ------------------------------------------------------------------ fields

/// mvhd and tkhd of both versions over a grid of boundary values.
fn fields(t: Tier) -> Vec<Space> {
    const C: [u64; 12] = [1, 2_082_844_800, 2_082_844_799, 3_790_000_000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 8_000_000_000_000, 0x7fff_ffff_ffff_ffff, u64::MAX];
    const S: [u32; 9] = [0, 1, 3, 600, 1000, 1001, 90_000, 0x7fff_ffff, 0xffff_ffff];
    const D: [u64; 13] = [0, 1, 599, 600, 12_345, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 0xffff_ffff_ffff, u64::MAX - 1, u64::MAX];
    let mv = Space::new(
        "mvhd",
        "movie header version 0 and 1 x 12 creation times x 9 time scales x 13 durations, over every boundary of the field widths (creation times without a calendar date, time scale 0 and a duration marked as unknown must be absent)",
        2 * 12 * 9 * 13,
        |i| {
            let mut m = Mix(i);
            let (v, c, s, d) = (m.d(2) as u8, *m.of(&C), *m.of(&S), *m.of(&D));
            if v == 0 && (c > 0xffff_ffff || d > 0xffff_ffff) {
                return Ok(Stats::default());
            }
            // `mvhd` writes c + 1 as the modification time
            let cc = c.min(u64::MAX - 1);
            let moov = bx(b"moov", &mvhd(v, cc, s, d));
            let mut w = Facts::new();
            let unknown = d == if v == 1 { u64::MAX } else { 0xffff_ffff };
            if s != 0 && !unknown {
                if let Ok(ms) = u64::try_from(d as u128 * 1000 / s as u128) {
                    w.insert("DurationMs", EntryValue::U64(ms));
                }
            }
            if let Some(t) = created(cc) {
                w.insert("CreateDate", t);
            }
            verify_track("mvhd", mp4(&moov, 10, 200, i % 2 == 0), &w, &SOME)
        },
        |i| {
            let mut m = Mix(i);
            format!("mvhd v{} created {} scale {} duration {}", m.d(2), m.of(&C), m.of(&S), m.of(&D))
        },
    );
    const W: [u16; 11] = [0, 1, 2, 255, 256, 640, 1920, 0x7fff, 0x8000, 0xff00, 0xffff];
    let tk = Space::new(
        "tkhd",
        "track header version 0 and 1 x 11 x 11 widths and heights x kind of box size of the track boxes",
        2 * 121 * 3,
        |i| {
            let mut m = Mix(i);
            let (v, w, h) = (m.d(2) as u8, *m.of(&W), *m.of(&W));
            let form = m.d(3);
            let mut tr = trak(b"vide", tkhd(v, w, h), 16);
            if form > 0 {
                tr = bxs(b"trak", &tr[8..], Sz::S64);
            }
            let other = trak(b"soun", tkhd(1 - v, 333, 222), 0);
            let parts = if form == 2 { vec![other, tr] } else { vec![tr, other] };
            let moov = bx(b"moov", &[vec![mvhd(0, 3_790_000_000, 600, 600)], parts].concat().concat());
            let mut f = Facts::new();
            f.insert("DurationMs", EntryValue::U64(1000));
            f.insert("CreateDate", created(3_790_000_000).unwrap());
            f.insert("Width", EntryValue::U32(w as u32));
            f.insert("Height", EntryValue::U32(h as u32));
            verify_track("tkhd", mp4(&moov, 10, 200, false), &f, &SOME)
        },
        |i| format!("index {i}"),
    );
    let _ = t;
    vec![mv, tk]
}

// ------------------------------------------------------------------ layouts

/// The children of moov with their facts.
#[derive(Clone)]
struct Child {
    name: &'static str,
    bytes: Vec<u8>,
    facts: Facts,
}
fn children() -> Vec<Child> {
    let f = |v: &[(&'static str, EntryValue)]| v.iter().cloned().collect::<Facts>();
    vec![
        Child {
            name: "mvhd",
            bytes: mvhd(0, 3_790_000_000, 600, 12_345),
            facts: f(&[("DurationMs", EntryValue::U64(20_575)), ("CreateDate", created(3_790_000_000).unwrap())]),
        },
        Child { name: "soun", bytes: trak(b"soun", tkhd(0, 11, 22), 0), facts: Facts::new() },
        Child {
            name: "vide",
            bytes: trak(b"vide", tkhd(1, 1280, 720), 0),
            facts: f(&[("Width", EntryValue::U32(1280)), ("Height", EntryValue::U32(720))]),
        },
        Child {
            name: "meta",
            bytes: qt_meta(&[("com.apple.quicktime.make", 1, b"Apple".to_vec()), ("com.apple.quicktime.model", 1, b"iPhone X".to_vec()), ("com.apple.quicktime.software", 1, b"12.1.2".to_vec())], &[2, 0, 1]),
            facts: f(&[("Make", text("Apple")), ("Model", text("iPhone X")), ("Software", text("12.1.2"))]),
        },
        Child {
            name: "udta",
            bytes: udta(&[bx(b"cprt", b"\0\0\0\0\x55\xc4c"), xyz("+27.2939+112.6932/"), auth("ReadMe", "und")], true),
            facts: f(&[("GpsIso6709", text("+27.2939+112.6932/")), ("Author", text("ReadMe"))]),
        },
        Child { name: "free", bytes: bx(b"free", &cat(&[mvhd(0, 3_000_000_000, 1, 1), trak(b"vide", tkhd(0, 77, 88), 0)])), facts: Facts::new() },
    ]
}
fn with_size(b: &[u8], wide: bool) -> Vec<u8> {
    if wide {
        let t: [u8; 4] = b[4..8].try_into().unwrap();
        bxs(&t, &b[8..], Sz::S64)
    } else {
        b.to_vec()
    }
}

/// Where the movie box lies and how the boxes around it are written.
fn container(form: usize, moov: &[u8], n: usize) -> Vec<u8> {
    let qt = |p: &[Vec<u8>]| cat(&[vec![ftyp(b"qt  ", &[b"qt  "]), bx(b"wide", &[])], p.to_vec()].concat());
    let mp = |p: &[Vec<u8>]| cat(&[vec![ftyp(b"isom", &[b"isom", b"mp42"])], p.to_vec()].concat());
    let m = moov.to_vec();
    // bytes inside the movie data look like a movie box
    let inner = cat(&[bx(b"moov", &mvhd(0, 3_000_000_000, 1, 5)), filler(n)]);
    match form {
        0 => mp(&[m, bx(b"mdat", &inner)]),
        1 => mp(&[bx(b"mdat", &inner), m]),
        2 => mp(&[bxs(b"mdat", &inner, Sz::S64), m]),
        3 => qt(&[bx(b"mdat", &inner), m]),
        4 => qt(&[m, bx(b"free", &filler(20)), bx(b"mdat", &inner)]),
        5 => cat(&[ftyp(b"3gp5", &[b"3gp5", b"isom"]), bx(b"mdat", &inner), bx(b"uuid", &filler(40)), m]),
        6 => cat(&[bx(b"wide", &[]), bx(b"mdat", &inner), m]),
        7 => mp(&[bx(b"free", &inner), bx(b"skip", &filler(9)), bx(b"uuid", &filler(300)), bxs(b"mdat", &inner, Sz::S64), m, bx(b"mdat", &inner)]),
        // a fragmented file
        _ => cat(&[ftyp(b"iso5", &[b"iso5", b"dash", b"isom"]), bx(b"sidx", &filler(32)), m, bx(b"moof", &filler(60)), bx(b"mdat", &inner)]),
    }
}
const FORMS: u64 = 9;

fn layouts(t: Tier) -> Vec<Space> {
    let cs = Arc::new(children());
    let n = cs.len();
    let perms = fact(n);
    let c1 = cs.clone();
    let orders = Space::new(
        "orders",
        format!("all {perms} orders of the six children of the movie box x {FORMS} positions of the movie box among the other boxes (decoy movie boxes inside the media data and free space) x 32/64-bit sizes of the movie box and of its children"),
        perms * FORMS * 4,
        move |i| {
            let mut m = Mix(i);
            let (ws, wm) = (m.b(), m.b());
            let form = m.d(FORMS);
            let p = perm(n, m.d(perms) as u64);
            let body: Vec<u8> = p.iter().flat_map(|k| with_size(&c1[*k].bytes, ws)).collect();
            let mut w = Facts::new();
            for c in c1.iter() {
                w.extend(c.facts.clone());
            }
            verify_track("order", container(form, &with_size(&bx(b"moov", &body), wm), 100), &w, &SOME[..2 + (i % 3) as usize])
        },
        move |i| {
            let mut m = Mix(i);
            format!("wide children {} wide moov {} form {} order {:?}", m.b(), m.b(), m.d(FORMS), perm(n, m.d(perms) as u64))
        },
    );
    let c2 = cs.clone();
    let subsets = Space::new(
        "presence",
        format!("all subsets of the six children x {FORMS} positions: what is not in the file is not in the result"),
        64 * FORMS,
        move |i| {
            let mut m = Mix(i);
            let form = m.d(FORMS);
            let set = m.d(64);
            let sel: Vec<&Child> = (0..n).filter(|k| set >> k & 1 == 1).map(|k| &c2[k]).collect();
            let body: Vec<u8> = sel.iter().flat_map(|c| c.bytes.clone()).collect();
            let mut w = Facts::new();
            for c in &sel {
                w.extend(c.facts.clone());
            }
            verify_track("presence", container(form, &bx(b"moov", &body), 100), &w, &SRCS)
        },
        move |i| format!("form {} children {:?}", i % FORMS, cs.iter().enumerate().filter(|(k, _)| i / FORMS >> k & 1 == 1).map(|(_, c)| c.name).collect::<Vec<_>>()),
    );
    let pts = super::c02::shift_points(t);
    let p2 = pts.clone();
    let places = Space::new(
        "places",
        format!("{} distances of the movie box x 9 positions, and of the movie header inside the movie box", pts.len()),
        pts.len() as u64 * (FORMS + 1),
        move |i| {
            let mut m = Mix(i);
            let form = m.d(FORMS + 1);
            let n = *m.of(&pts);
            let cs = children();
            let mut w = Facts::new();
            for c in &cs {
                w.extend(c.facts.clone());
            }
            let body = cat(&cs.iter().map(|c| c.bytes.clone()).collect::<Vec<_>>());
            let f = if form as u64 == FORMS {
                container((n % 9).min(8), &bx(b"moov", &cat(&[free(if n == 0 { 0 } else { n.max(8) }), body])), 30)
            } else {
                container(form, &bx(b"moov", &body), n)
            };
            verify_track("place", f, &w, &SOME)
        },
        move |i| format!("form {} distance {}", i % (FORMS + 1), p2[(i / (FORMS + 1)) as usize]),
    );
    vec![orders, subsets, places]
}

// ------------------------------------------------------------------ tracks

fn tracks(t: Tier) -> Space {
    let kinds = || -> Vec<(&'static str, Vec<u8>, bool)> {
        let t3 = |k: &[u8; 4]| trak(k, tkhd(0, 5, 6), 8);
        vec![
            ("sound", t3(b"soun"), false),
            ("text", t3(b"text"), false),
            ("timed metadata", t3(b"meta"), false),
            ("without media", bx(b"trak", &tkhd(0, 7, 8)), false),
            ("without handler", bx(b"trak", &cat(&[tkhd(0, 7, 8), bx(b"mdia", &fbx(b"mdhd", 0, 0, &[0; 20]))])), false),
            ("short handler", bx(b"trak", &cat(&[tkhd(0, 7, 8), bx(b"mdia", &fbx(b"hdlr", 0, 0, b"mhl"))])), false),
            ("not a track", bx(b"trex", &filler(30)), false),
            ("video", trak(b"vide", tkhd(0, 640, 480), 0), true),
            ("video, handler without a name", {
                let mdia = bx(b"mdia", &fbx(b"hdlr", 0, 0, b"mhlrvide"));
                bx(b"trak", &cat(&[tkhd(0, 640, 480), mdia]))
            }, true),
            ("video, header last", {
                let mdia = bx(b"mdia", &cat(&[hdlr(b"vide"), fbx(b"mdhd", 0, 0, &[0; 20])]));
                bx(b"trak", &cat(&[mdia, bx(b"tref", &[1; 12]), tkhd(1, 640, 480)]))
            }, true),
        ]
    };
    let ks = kinds();
    let n = ks.len() as u64;
    let max = t.pick(4u32, 5);
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (0..l).map(|_| m.d(n)).collect::<Vec<_>>()
    };
    let k2 = kinds();
    Space::new(
        "tracks",
        format!("every sequence of up to {max} tracks of {n} kinds (sound, text, metadata, incomplete ones, video): the dimensions are those of the first video track, absent if there is none"),
        total,
        move |i| {
            let v = dec(i);
            let body = cat(&[mvhd(0, 3_790_000_000, 600, 600), cat(&v.iter().map(|k| ks[*k].1.clone()).collect::<Vec<_>>())]);
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(1000));
            w.insert("CreateDate", created(3_790_000_000).unwrap());
            if v.iter().any(|k| ks[*k].2) {
                w.insert("Width", EntryValue::U32(640));
                w.insert("Height", EntryValue::U32(480));
            }
            verify_track("tracks", mp4(&bx(b"moov", &body), 0, 200, i % 2 == 1), &w, &SOME[..2])
        },
        move |i| format!("tracks {:?}", dec(i).iter().map(|k| k2[*k].0).collect::<Vec<_>>()),
    )
}

// ------------------------------------------------------------------ keys and user data

const KEYS: [(&str, &str, &str); 6] = [
    ("com.apple.quicktime.make", "Make", "  Apple \u{2318} Inc. "),
    ("com.apple.quicktime.model", "Model", "M"),
    ("com.apple.quicktime.software", "Software", "a software name that is longer than the others"),
    ("com.apple.quicktime.author", "Author", "A. Uthor"),
    ("com.apple.quicktime.location.ISO6709", "GpsIso6709", "-33.8568+151.2153+004.000/"),
    ("com.apple.quicktime.creationdate", "CreateDate", "2019-02-12T15:27:12+08:00"),
];
fn fact_of(k: usize) -> EntryValue {
    if k == 5 {
        EntryValue::DateTime(FixedOffset::east_opt(8 * 3600).unwrap().with_ymd_and_hms(2019, 2, 12, 15, 27, 12).unwrap())
    } else {
        text(KEYS[k].2)
    }
}
fn keys(t: Tier) -> Vec<Space> {
    // subsets of keys, with every order of the item list
    let order = Space::new(
        "keys",
        "every subset of the six known keys plus two unknown ones, the item list in every rotation and both directions, with and without a movie header in front or behind, telling a duration or nothing but its date",
        64 * 16 * 5,
        |i| {
            let mut m = Mix(i);
            let mv = m.d(5);
            let rot = m.d(16);
            let set = m.d(64);
            let mut items: Vec<(&str, u32, Vec<u8>)> = vec![("com.android.version", 1, b"9".to_vec())];
            let mut w = Facts::new();
            for k in 0..6 {
                if set >> k & 1 == 1 {
                    items.push((KEYS[k].0, 1, KEYS[k].2.as_bytes().to_vec()));
                    w.insert(KEYS[k].1, fact_of(k));
                }
            }
            items.push(("com.apple.quicktime.live-photo.auto", 22, vec![1]));
            let n = items.len();
            let mut ord: Vec<usize> = (0..n).map(|j| (j + rot / 2) % n).collect();
            if rot % 2 == 1 {
                ord.reverse();
            }
            let meta = qt_meta(&items, &ord);
            let head = mvhd(1, 3_790_000_000, if mv < 3 { 1000 } else { 0 }, 77);
            let body = match mv {
                0 => meta,
                1 | 3 => cat(&[head, meta]),
                _ => cat(&[meta, head]),
            };
            if mv == 1 || mv == 2 {
                w.insert("DurationMs", EntryValue::U64(77));
            }
            if mv > 0 {
                w.entry("CreateDate").or_insert(created(3_790_000_000).unwrap());
            }
            verify_track("keys", container((i % FORMS) as usize, &bx(b"moov", &body), 50), &w, &SOME[..2])
        },
        |i| format!("movie header {} rotation {} keys {:#b}", i % 5, i / 5 % 16, i / 80),
    );
    // full permutations of all the six
    let perms = fact(6);
    let full = Space::new(
        "key-orders",
        "all 720 orders of six items x all 720 orders of their keys (quick: rotations of the latter)",
        perms * t.pick(6, perms),
        move |i| {
            let mut m = Mix(i);
            let io = perm(6, m.d(perms) as u64);
            let kk = m.0;
            let ko: Vec<usize> = if t == Tier::Quick { (0..6).map(|j| (j + kk as usize) % 6).collect() } else { perm(6, kk) };
            let items: Vec<(&str, u32, Vec<u8>)> = ko.iter().map(|k| (KEYS[*k].0, 1, KEYS[*k].2.as_bytes().to_vec())).collect();
            let w: Facts = (0..6).map(|k| (KEYS[k].1, fact_of(k))).collect();
            verify_track("key-orders", mp4(&bx(b"moov", &qt_meta(&items, &io)), 0, 200, true), &w, &[Src::Mem])
        },
        |i| format!("index {i}"),
    );
    // one unreadable item does not hide the others
    const ODD: [u32; 24] = [0, 1, 2, 3, 4, 5, 13, 14, 20, 21, 22, 23, 24, 25, 27, 65, 66, 67, 70, 74, 78, 99, 255, 0x00ff_ffff];
    let damaged = Space::new(
        "damaged-items",
        "one item of the list made unreadable (bad text, wrong inner size, missing data box, index 0 or out of range) or of one of 24 types, known and unknown, with 0 to 17 bytes, at every place, items front to back or back to front: every other fact stays",
        7 * (9 + 18 * ODD.len() as u64) * 2,
        |i| {
            let mut m = Mix(i);
            let place = m.d(7);
            let kind = m.d(9 + 18 * ODD.len() as u64);
            let rev = m.b();
            let mut k = 7u32.to_be_bytes().to_vec();
            let mut all: Vec<(&str, &[u8])> = (0..6).map(|j| (KEYS[j].0, KEYS[j].2.as_bytes())).collect();
            all.insert(place, ("org.example.other", b"x"));
            for (n, _) in &all {
                k.extend_from_slice(&((n.len() + 8) as u32).to_be_bytes());
                k.extend_from_slice(b"mdta");
                k.extend_from_slice(n.as_bytes());
            }
            let keys = fbx(b"keys", 0, 0, &k);
            let mut ord: Vec<usize> = (0..7).collect();
            if rev {
                ord.reverse();
            }
            let mut il = vec![];
            for j in ord {
                let idx = j as u32 + 1;
                if j != place {
                    il.extend_from_slice(&ilst_item(idx, 1, all[j].1));
                    continue;
                }
                let bad = match kind {
                    0 => ilst_item(idx, 99, b"what"),
                    1 => ilst_item(idx, 1, &[0xff, 0xfe, 0x80]),
                    2 => {
                        let mut v = ilst_item(idx, 1, b"inner");
                        v[11] = 0;
                        v
                    }
                    3 => {
                        let mut v = ilst_item(idx, 1, b"name");
                        v[12..16].copy_from_slice(b"name");
                        v
                    }
                    4 => ilst_item(0, 1, b"zero"),
                    5 => ilst_item(8, 1, b"eight"),
                    6 => ilst_item(u32::MAX, 1, b"max"),
                    7 => ilst_item(idx, 21, &[1, 2, 3, 4, 5]),
                    k if k >= 9 => ilst_item(idx, ODD[(k - 9) / 18], &filler(17)[..(k - 9) % 18]),
                    _ => {
                        // no data box at all
                        let mut v = 8u32.to_be_bytes().to_vec();
                        v.extend_from_slice(&idx.to_be_bytes());
                        v
                    }
                };
                il.extend_from_slice(&bad);
            }
            let meta = bx(b"meta", &cat(&[hdlr(b"mdta"), keys, bx(b"ilst", &il)]));
            let w: Facts = (0..6).map(|k| (KEYS[k].1, fact_of(k))).collect();
            verify_track("damaged-item", mp4(&bx(b"moov", &meta), 0, 200, true), &w, &SOME[..2])
        },
        |i| {
            let mut m = Mix(i);
            format!("place {} kind {} reversed {}", m.d(7), m.d(9 + 18 * ODD.len() as u64), m.b())
        },
    );
    // items that are numbers
    const NUMS: [(u32, usize); 13] = [(21, 1), (21, 2), (21, 3), (21, 4), (21, 8), (22, 1), (22, 2), (22, 3), (22, 4), (22, 8), (23, 4), (24, 8), (1, 4)];
    const PATS: [u64; 8] = [0, 1, 0x7f7f_7f7f_7f7f_7f7f, 0x8080_8080_8080_8080, u64::MAX, 0x0102_0304_0506_0708, 0x4048_f5c3_4009_1eb8, 0xfedc_ba98_7654_3210];
    const PLACES: [u32; 3] = [0, 0x5553_656e, 0x0000_15c7];
    fn number(v: &EntryValue) -> Option<(i128, Option<f64>)> {
        Some(match v {
            EntryValue::U8(x) => (*x as i128, None),
            EntryValue::U16(x) => (*x as i128, None),
            EntryValue::U32(x) => (*x as i128, None),
            EntryValue::U64(x) => (*x as i128, None),
            EntryValue::I8(x) => (*x as i128, None),
            EntryValue::I16(x) => (*x as i128, None),
            EntryValue::I32(x) => (*x as i128, None),
            EntryValue::I64(x) => (*x as i128, None),
            EntryValue::F32(x) => (0, Some(*x as f64)),
            EntryValue::F64(x) => (0, Some(*x)),
            _ => return None,
        })
    }
    let numbers = Space::new(
        "numbers",
        "one of five known keys recorded as a number - signed and unsigned integers of 1, 2, 3, 4 and 8 bytes, 4 and 8 byte floats - or a text, 8 bit patterns, at every place of the list, 3 locale indicators: exactly this number, and every other fact stays",
        (NUMS.len() * PATS.len() * 5 * PLACES.len()) as u64,
        |i| {
            let mut m = Mix(i);
            let (ty, n) = *m.of(&NUMS);
            let bits = *m.of(&PATS);
            let which = m.d(5);
            let locale = *m.of(&PLACES);
            let raw = if ty == 1 { b"1234".to_vec() } else { bits.to_be_bytes()[8 - n..].to_vec() };
            let all: Vec<(&str, u32, Vec<u8>)> = (0..6)
                .map(|k| if k == which { (KEYS[k].0, ty, raw.clone()) } else { (KEYS[k].0, 1, KEYS[k].2.as_bytes().to_vec()) })
                .collect();
            let mut meta = qt_meta(&all, &[5, 4, 3, 2, 1, 0]);
            if locale != 0 {
                // the locale follows the type indicator of every item
                let mut at = 0;
                while let Some(p) = meta[at..].windows(4).position(|w| w == b"data") {
                    at += p + 4;
                    meta[at + 4..at + 8].copy_from_slice(&locale.to_be_bytes());
                }
            }
            let file = mp4(&bx(b"moov", &meta), 0, 200, true);
            let got = match MediaParser::new().parse_track(MediaSource::from_memory(file).unwrap()) {
                Ok(t) => t,
                Err(e) => return viol("numbers", format!("not parsed: {e}")),
            };
            const TAGS: [TrackInfoTag; 6] = [TrackInfoTag::Make, TrackInfoTag::Model, TrackInfoTag::Software, TrackInfoTag::Author, TrackInfoTag::GpsIso6709, TrackInfoTag::CreateDate];
            for k in 0..6 {
                let v = got.get(TAGS[k]);
                if k != which {
                    if v != Some(&fact_of(k)) {
                        return viol("numbers:other", format!("{}: {v:?} beside a {n}-byte item of type {ty}", KEYS[k].1));
                    }
                    continue;
                }
                let shift = 64 - 8 * n as u32;
                let want = match ty {
                    1 => {
                        if v != Some(&EntryValue::Text("1234".into())) {
                            return viol("numbers:text", format!("{v:?}"));
                        }
                        continue;
                    }
                    21 => (((bits << shift) as i64 >> shift) as i128, None),
                    22 => ((bits << shift >> shift) as i128, None),
                    23 => (0, Some(f32::from_bits(bits as u32) as f64)),
                    _ => (0, Some(f64::from_bits(bits))),
                };
                let seen = v.and_then(number);
                let same = seen.is_some_and(|s| s.0 == want.0 && s.1.map(f64::to_bits) == want.1.map(f64::to_bits));
                let nan = seen.is_some_and(|s| s.1.is_some_and(f64::is_nan)) && want.1.is_some_and(f64::is_nan);
                if !same && !nan {
                    return viol(format!("numbers:{ty}:{n}"), format!("{}: {v:?} for the {n} bytes {raw:02x?} of type {ty}, recorded {want:?}", KEYS[k].1));
                }
            }
            Ok(Stats::one(true, fp(&(ty, n, bits))))
        },
        |i| {
            let mut m = Mix(i);
            format!("{:?} {:#x} key {} locale {:#x}", m.of(&NUMS), m.of(&PATS), m.d(5), m.of(&PLACES))
        },
    );
    let dates = Space::new(
        "creation-dates",
        "recorded creation dates: 10 dates x every quarter hour of offset from -14:00 to +14:00 and Z, against the movie header's",
        10 * 114,
        |i| {
            let mut m = Mix(i);
            let d = *m.of(&[
                (2019, 2, 12, 15, 27, 12),
                (1970, 1, 1, 0, 0, 0),
                (1969, 12, 31, 23, 59, 59),
                (2000, 2, 29, 12, 0, 0),
                (2038, 1, 19, 3, 14, 8),
                (2100, 12, 31, 23, 59, 59),
                (1904, 1, 1, 0, 0, 0),
                (2024, 2, 29, 0, 0, 1),
                (9999, 12, 31, 0, 0, 0),
                (1, 1, 1, 0, 0, 0),
            ]);
            let q = m.d(114) as i32;
            let (off, z) = if q == 113 { (0, true) } else { ((q - 56) * 900, false) };
            let s = format!(
                "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}",
                d.0,
                d.1,
                d.2,
                d.3,
                d.4,
                d.5,
                if z { "Z".into() } else { format!("{}{:02}:{:02}", if off < 0 { '-' } else { '+' }, off.abs() / 3600, off.abs() / 60 % 60) }
            );
            let meta = qt_meta(&[("com.apple.quicktime.creationdate", 1, s.into_bytes())], &[0]);
            let mut w = Facts::new();
            let fo = FixedOffset::east_opt(off).unwrap();
            w.insert("CreateDate", EntryValue::DateTime(fo.with_ymd_and_hms(d.0, d.1, d.2, d.3, d.4, d.5).unwrap()));
            w.insert("DurationMs", EntryValue::U64(1000));
            let parts = [mvhd(0, 3_790_000_000, 600, 600), meta];
            let body = if i % 2 == 0 { cat(&parts) } else { cat(&[parts[1].clone(), parts[0].clone()]) };
            verify_track("creation-date", mp4(&bx(b"moov", &body), 0, 200, true), &w, &SOME[..1])
        },
        |i| format!("date {} offset step {}", i % 10, i / 10),
    );
    let bad_dates = Space::new(
        "unreadable-dates",
        "a recorded creation date that is no date leaves the movie header's",
        8,
        |i| {
            let s = ["", "2019", "2019-13-01T00:00:00Z", "yesterday", "2019-02-30T00:00:00Z", "2019:02:12 15:27:12", "2019-02-12T15:27:12", "0000"][i as usize];
            let meta = qt_meta(&[("com.apple.quicktime.creationdate", 1, s.as_bytes().to_vec())], &[0]);
            let mut w = Facts::new();
            w.insert("CreateDate", created(3_790_000_000).unwrap());
            w.insert("DurationMs", EntryValue::U64(1000));
            verify_track("unreadable-date", mp4(&bx(b"moov", &cat(&[mvhd(0, 3_790_000_000, 600, 600), meta])), 0, 200, true), &w, &SOME)
        },
        |i| format!("text {i}"),
    );
    vec![order, full, damaged, numbers, dates, bad_dates]
}

/// Movies with very many of everything that is not asked for.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=72).chain((75..=300).step_by(15)).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 10_000]).collect(),
        Tier::Thorough => (0..=600).chain([1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10_000, 32_768, 65_535, 65_536, 70_000]).collect(),
    });
    const KINDS: u64 = 12;
    let n2 = ns.clone();
    Space::new(
        "crowded",
        "0 to 10000 (thorough 70000) of: compatible brands, sound tracks ahead of the video track or behind it, small boxes in the movie box, unknown keys ahead of the known ones or behind, unknown user data boxes, small boxes ahead of the movie box, ahead of the track header, ahead of the handler, ahead of the handler in a sound track, entries of a 64-bit sized sample table in a sound track: the facts are the same",
        KINDS * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (kind, n) = (m.d(KINDS), *m.of(&ns));
            let rep = |b: Vec<u8>| -> Vec<u8> { b.repeat(n) };
            let small = |k: &[u8; 4]| bx(k, b"small");
            let mdia = |kind: &[u8; 4], ahead: Vec<u8>| bx(b"mdia", &cat(&[fbx(b"mdhd", 0, 0, &[0; 20]), ahead, hdlr(kind)]));
            let sound = bx(b"trak", &cat(&[tkhd(0, 5, 6), mdia(b"soun", vec![])]));
            let video = bx(b"trak", &match kind {
                6 => cat(&[rep(small(b"tref")), tkhd(0, 640, 480), mdia(b"vide", vec![])]),
                7 => cat(&[tkhd(0, 640, 480), rep(small(b"edts")), mdia(b"vide", rep(small(b"elng")))]),
                _ => cat(&[tkhd(0, 640, 480), mdia(b"vide", vec![])]),
            });
            let tracks = match kind {
                0 => cat(&[rep(sound), video]),
                1 => cat(&[video, rep(sound)]),
                8 => cat(&[bx(b"trak", &cat(&[tkhd(0, 5, 6), mdia(b"soun", rep(small(b"elng")))])), video]),
                9 => cat(&[bxs(b"trak", &cat(&[tkhd(0, 5, 6), mdia(b"soun", rep(bx(b"minf", &bx(b"vmhd", b"vide"))))]), Sz::S64), video]),
                _ => video,
            };
            let own: Vec<(String, u32, Vec<u8>)> = (0..n).map(|k| (format!("com.example.key.{k}"), 1, format!("value {k}").into_bytes())).collect();
            let mut keys: Vec<(&str, u32, Vec<u8>)> = vec![(KEYS[0].0, 1, KEYS[0].2.into()), (KEYS[1].0, 1, KEYS[1].2.into())];
            match kind {
                3 => keys.extend(own.iter().map(|k| (k.0.as_str(), k.1, k.2.clone()))),
                4 => keys = own.iter().map(|k| (k.0.as_str(), k.1, k.2.clone())).chain(keys).collect(),
                _ => {}
            }
            let ud = match kind {
                5 => bx(b"udta", &cat(&[rep(small(b"name")), xyz("+27.1281+100.2508/")])),
                10 => bx(b"udta", &cat(&[xyz("+27.1281+100.2508/"), rep(small(b"name"))])),
                _ => bx(b"udta", &xyz("+27.1281+100.2508/")),
            };
            let order: Vec<usize> = (0..keys.len()).collect();
            let body = cat(&[
                mvhd(0, 3_790_000_000, 600, 600),
                if kind == 2 { rep(small(b"iods")) } else { vec![] },
                tracks,
                ud,
                qt_meta(&keys, &order),
            ]);
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(1000));
            w.insert("CreateDate", created(3_790_000_000).unwrap());
            w.insert("Width", EntryValue::U32(640));
            w.insert("Height", EntryValue::U32(480));
            w.insert("GpsIso6709", text("+27.1281+100.2508/"));
            w.insert("Make", text(KEYS[0].2));
            w.insert("Model", text(KEYS[1].2));
            let f = mp4(&bx(b"moov", &body), 0, 200, i % 2 == 1);
            // small boxes behind the file type
            let head = u32::from_be_bytes(f[..4].try_into().unwrap()) as usize;
            let f = if kind == 11 {
                let mut ft = f[8..head].to_vec();
                ft.extend(b"abcd".repeat(n));
                cat(&[bx(b"ftyp", &ft), f[head..].to_vec()])
            } else {
                f
            };
            let f = if kind == 2 { cat(&[f[..head].to_vec(), rep(small(b"free")), f[head..].to_vec()]) } else { f };
            verify_track(&format!("crowded:{kind}:{n}"), f, &w, &SOME[..2])
        },
        move |i| {
            let mut m = Mix(i);
            format!("kind {}, {} of them", m.d(KINDS), m.of(&n2))
        },
    )
}

fn user_data(t: Tier) -> Space {
    // parts of udta; each with the facts it adds
    let parts: Vec<(&'static str, Vec<u8>, Option<(&'static str, EntryValue)>)> = vec![
        ("location", xyz("+27.1281+100.2508/"), Some(("GpsIso6709", text("+27.1281+100.2508/")))),
        ("author", auth("ReadMe \u{e9}\u{4e2d}", "und"), Some(("Author", text("ReadMe \u{e9}\u{4e2d}")))),
        ("author with language", auth("Second", "eng"), Some(("Author", text("Second")))),
        ("copyright", bx(b"cprt", b"\0\0\0\0\x55\xc4c\0"), None),
        ("empty", bx(b"name", b""), None),
        ("short location", bx(&[0xa9, b'x', b'y', b'z'], &[0, 0, 0x15, 0xc7]), None),
        ("empty author", bx(b"titl", &[0; 6]), None),
        ("large", bx(b"thmb", &filler(9000)), None),
        ("meta", bx(b"meta", &fbx(b"hdlr", 0, 0, b"\0\0\0\0mdirappl\0\0\0\0\0\0\0\0\0")), None),
        ("64-bit", bxs(b"SDLN", b"PLAY", Sz::S64), None),
    ];
    let n = parts.len() as u64;
    let max = t.pick(3u32, 5);
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum::<u64>() * 4;
    let dec = move |i: u64| {
        let (term, meta) = (i % 2 == 1, i / 2 % 2 == 1);
        let mut i = i / 4;
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (term, meta, (0..l).map(|_| m.d(n)).collect::<Vec<_>>())
    };
    Space::new(
        "user-data",
        format!("every sequence of up to {max} user data boxes of {n} kinds, with and without the terminator, with and without Apple keys beside it (facts of one kind occur once)"),
        total,
        move |i| {
            let (term, meta, v) = dec(i);
            let mut w = Facts::new();
            let mut seen = [0; 3];
            for k in &v {
                if let Some((n, x)) = &parts[*k].2 {
                    w.insert(n, x.clone());
                    seen[if *n == "Author" { 1 } else { 0 }] += 1;
                }
                if parts[*k].0 == "short location" {
                    seen[0] += 1;
                }
            }
            if seen.iter().any(|x| *x > 1) {
                return Ok(Stats::default());
            }
            let mut body = udta(&v.iter().map(|k| parts[*k].1.clone()).collect::<Vec<_>>(), term);
            if meta {
                w.insert("Make", text("Apple"));
                body.extend_from_slice(&qt_meta(&[("com.apple.quicktime.make", 1, b"Apple".to_vec())], &[0]));
            }
            verify_track("user-data", container((i % FORMS) as usize, &bx(b"moov", &body), 50), &w, &SOME[..2])
        },
        move |i| format!("{:?}", dec(i)),
    )
}

fn languages() -> Space {
    const TEXTS: [&str; 4] = ["  Read Me ", "x", "\u{e9}\u{4e2d} b", "eng"];
    let name = |i: u64| -> String { [i / 676, i / 26 % 26, i % 26].iter().map(|l| (b'a' + *l as u8) as char).collect() };
    Space::new(
        "author-languages",
        "the author recorded under every one of the 17576 language codes x 4 texts",
        17576 * 4,
        move |i| {
            let (l, s) = (name(i / 4), TEXTS[(i % 4) as usize]);
            let mut w = Facts::new();
            w.insert("Author", text(s));
            verify_track(&format!("author-language:{l}"), container((i % FORMS) as usize, &bx(b"moov", &udta(&[auth(s, &l)], false)), 50), &w, &SOME[..1])
        },
        move |i| format!("{} {:?}", name(i / 4), TEXTS[(i % 4) as usize]),
    )
}

/// Nothing behind the movie box matters.
fn behind() -> Space {
    let cs = children();
    let body: Vec<u8> = cs.iter().flat_map(|c| c.bytes.clone()).collect();
    let mut w = Facts::new();
    for c in &cs {
        w.extend(c.facts.clone());
    }
    let moov = bx(b"moov", &body);
    let heads = [
        cat(&[ftyp(b"isom", &[b"isom", b"mp42"]), moov.clone()]),
        cat(&[ftyp(b"qt  ", &[b"qt  "]), bx(b"wide", &[]), bx(b"mdat", &filler(70)), moov.clone()]),
    ];
    let mut open = vec![0, 0, 0, 0];
    open.extend_from_slice(b"mdat");
    open.extend_from_slice(&filler(60));
    let tails = [
        cat(&[bx(b"free", &filler(5)), bx(b"moov", &mvhd(0, 3_000_000_000, 1, 5)), bxs(b"mdat", &filler(60), Sz::S64)]),
        open,
        vec![0; 60],
        vec![0xff; 60],
        filler(60),
    ];
    Space::new(
        "behind",
        "2 movie files whose movie box is followed by other boxes (one of them a second movie box), a box to the end of the file, zeros, ones or filler, cut off at every byte",
        2 * 5 * 150,
        move |i| {
            let mut m = Mix(i);
            let (h, t) = (m.of(&heads), m.of(&tails));
            let n = m.0 as usize;
            if n > t.len() {
                return Ok(Stats::default());
            }
            verify_track("behind", cat(&[h.clone(), t[..n].to_vec()]), &w, &SRCS)
        },
        |i| format!("head {} tail {} cut behind {}", i % 2, i / 2 % 5, i / 10),
    )
}

/// Boxes that are not to be looked into hold what is looked for, or its inside.
fn decoys() -> Space {
    const IDS: [&[u8; 4]; 8] = [b"free", b"skip", b"uuid", b"mdat", b"XXXX", b"iods", b"tref", b"moof"];
    const PLACES: u64 = 17;
    const KINDS: u64 = 17;
    Space::new(
        "decoys",
        "a box of 8 kinds (free space, media data, user type, unknown, ...) holding one of 17 look-alikes (the movie box, movie header, a video track, its header, its media box, the handler, keys and values, user data, a location, an author, each as a whole or its inside alone) in 17 places (around and in the movie box, the video track, its media box, the keyed metadata, the user data) x each of the real movie header, video track, keyed metadata and user data there or not",
        IDS.len() as u64 * PLACES * KINDS * 16,
        |i| {
            let mut m = Mix(i);
            let have = m.d(16);
            let id = *m.of(&IDS);
            let place = m.d(PLACES);
            let kind = m.d(KINDS);
            let (dh, dv, dm, du) = (have & 1 == 0, have & 2 == 0, have & 4 == 0, have & 8 == 0);
            let open = |b: &[u8]| b[8..].to_vec();
            let mv = mvhd(0, 3_000_000_000, 1, 5);
            let tk = tkhd(0, 77, 88);
            let tr = trak(b"vide", tk.clone(), 0);
            let mt = qt_meta(&[("com.apple.quicktime.make", 1, b"Fake".to_vec()), ("com.apple.quicktime.author", 1, b"Fake author".to_vec())], &[0, 1]);
            let ud = udta(&[xyz("+11.0000+022.0000/"), auth("Fake", "und")], true);
            let inside = match kind {
                0 => bx(b"moov", &cat(&[mv, tr, mt, ud])),
                1 => mv,
                2 => open(&mv),
                3 => open(&tr),
                4 => tr,
                5 => tk,
                6 => open(&tk),
                7 => bx(b"mdia", &hdlr(b"vide")),
                8 => hdlr(b"vide"),
                9 => hdlr(b"soun"),
                10 => open(&mt),
                11 => mt,
                12 => ud,
                13 => open(&ud),
                14 => xyz("+11.0000+022.0000/"),
                15 => cat(&[mv, tr, mt, ud]),
                _ => open(&auth("Fake", "und")),
            };
            let x = bx(id, &if id == b"uuid" { [vec![0x11; 16], inside].concat() } else { inside });
            let at = |k: usize| if place == k { x.clone() } else { vec![] };
            if place >= 6 && place <= 9 && !dv || (10..=13).contains(&place) && !dm || place >= 14 && !du {
                return Ok(Stats::default());
            }
            let cs = children();
            let mdia = bx(b"mdia", &cat(&[at(8), fbx(b"mdhd", 0, 0, &[0; 20]), hdlr(b"vide"), at(9)]));
            let video = bx(b"trak", &cat(&[at(6), tkhd(1, 1280, 720), mdia, at(7)]));
            // the real keyed metadata, with the box among its children
            let b = &cs[3].bytes[8..];
            let cut = |b: &[u8]| -> usize { u32::from_be_bytes(b[..4].try_into().unwrap()) as usize };
            let h = cut(b);
            let k = h + cut(&b[h..]);
            let meta = bx(b"meta", &cat(&[at(10), b[..h].to_vec(), at(11), b[h..k].to_vec(), at(12), b[k..].to_vec(), at(13)]));
            let user = udta(&[at(14), xyz("+27.2939+112.6932/"), at(15), auth("ReadMe", "und"), at(16)], have < 8);
            let opt = |y: bool, b: Vec<u8>| if y { b } else { vec![] };
            let moov = bx(b"moov", &cat(&[at(2), opt(dh, cs[0].bytes.clone()), at(3), cs[1].bytes.clone(), opt(dv, video), at(4), opt(dm, meta), opt(du, user), at(5)]));
            let mut w = Facts::new();
            for (y, k) in [(dh, 0), (dv, 2), (dm, 3), (du, 4)] {
                if y {
                    w.extend(cs[k].facts.clone());
                }
            }
            let f = cat(&[ftyp(b"isom", &[b"isom", b"mp42"]), at(0), moov, at(1), bx(b"mdat", &filler(150))]);
            verify_track("decoys", f, &w, &SOME[..2])
        },
        |i| {
            let mut m = Mix(i);
            let have = m.d(16);
            format!("left out {have:04b}, {} at place {} holds look-alike {}", String::from_utf8_lossy(*m.of(&IDS)), m.d(PLACES), m.d(KINDS))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = fields(t);
    v.extend(layouts(t));
    v.push(tracks(t));
    v.extend(keys(t));
    v.push(crowded(t));
    v.push(user_data(t));
    v.push(languages());
    v.push(behind());
    v.push(decoys());
    v.push(super::c19::far(t, &["mp4", "mov"]));
    (
        "exploration",
        v,
        vec!["a creation time of 0 is reported as the epoch it denotes and not part of the space; boxes of size 0 (to the end of the file) are not part of the space"],
    )
}
