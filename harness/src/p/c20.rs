//! C20 — date-times carry the recorded wall-clock time and exactly the recorded offset.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use chrono::{DateTime, Datelike, FixedOffset, NaiveDate, NaiveDateTime, Timelike};
use nom_exif::*;
use std::sync::Arc;

const MODIFY: u16 = 0x0132;
const ORIG: u16 = 0x9003;
const DIGI: u16 = 0x9004;
const OFF: u16 = 0x9010;
const OFF_O: u16 = 0x9011;
const OFF_D: u16 = 0x9012;

fn dt(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(y, mo, d).unwrap().and_hms_opt(h, mi, s).unwrap()
}
/// the text a camera writes
fn text(t: NaiveDateTime) -> String {
    format!(
        "{:04}:{:02}:{:02} {:02}:{:02}:{:02}",
        t.year(),
        t.month(),
        t.day(),
        t.hour(),
        t.minute(),
        t.second()
    )
}
fn off_text(min: i32) -> String {
    format!("{}{:02}:{:02}", if min < 0 { '-' } else { '+' }, min.abs() / 60, min.abs() % 60)
}

/// All date-times of a file: (directory, tag, value or error).
fn dates(data: &Data, src: Src, api: Api) -> Vec<(usize, u16, std::result::Result<ExifDateTime, String>)> {
    let it = match parse_raw(&mut MediaParser::new(), data, src, api) {
        Raw::Exif(it) => it,
        Raw::Meta(m) => match m.exif {
            Some(it) => it,
            None => return vec![],
        },
        _ => return vec![],
    };
    let mut v = vec![];
    for e in it {
        if [MODIFY, ORIG, DIGI].contains(&e.tag().code()) {
            let r = match e.result() {
                Ok(x) => match x.as_datetime() {
                    Some(d) => Ok(d),
                    None => Err(format!("not a date-time: {x:?}")),
                },
                Err(x) => Err(x.to_string()),
            };
            v.push((e.ifd().as_usize(), e.tag().code(), r));
        }
    }
    v
}

const FALLBACKS: [i32; 7] = [0, 60, -60, 330, -210, 14 * 60, -(23 * 60 + 59)];

/// One value against the recorded wall time and offset, through every accessor.
fn check_value(key: &str, got: &ExifDateTime, wall: NaiveDateTime, off: Option<i32>) -> std::result::Result<(), Violation> {
    let bad = |m: String| viol(key, format!("recorded {wall} {off:?} min: {m}"));
    if got.into_naive() != wall {
        return bad(format!("into_naive {}", got.into_naive()));
    }
    match (got.aware(), off) {
        (None, None) => {}
        (Some(a), Some(o)) => {
            if a.naive_local() != wall || a.offset().local_minus_utc() != o * 60 {
                return bad(format!("aware {a}"));
            }
        }
        (a, _) => return bad(format!("aware {a:?}")),
    }
    for f in FALLBACKS {
        let fb = FixedOffset::east_opt(f * 60).unwrap();
        let x = got.or_offset(fb);
        let eo = off.unwrap_or(f) * 60;
        if x.naive_local() != wall || x.offset().local_minus_utc() != eo {
            return bad(format!("or_offset({fb}) = {x}"));
        }
    }
    Ok(())
}

fn wrap(c: usize, t: Vec<u8>) -> Vec<u8> {
    match c {
        0 => cat(&[t, filler(200)]),
        1 => cat(&[jpeg_with_exif(&t), filler(200)]),
        2 => png(&[chunk(b"eXIf", &t)]),
        3 => Heif::new().build(&t),
        4 => raf(&jpeg_with_exif(&t), 0, b"X"),
        5 => png(&[text_chunk("Raw profile type exif", &raw_profile("exif", &exif_payload(&t)))]),
        _ => Cr3::new(vec![(*b"CMT1", t)]).build(),
    }
}
const WRAPS: u64 = 7;

/// What an offset tag of the Exif directory contains.
#[derive(Clone, Copy, Debug, PartialEq)]
enum O {
    Absent,
    Good,
    Blank,
    Garbage,
    NotText,
    Dangling,
    Empty,
}
use O::*;
const OS: [O; 7] = [Absent, Good, Blank, Garbage, NotText, Dangling, Empty];
fn off_entry(tag: u16, o: O, good: &str) -> Option<En> {
    match o {
        Absent => None,
        Good => Some(en(tag, Val::s(good))),
        Blank => Some(en(tag, Val::s("   :  "))),
        Garbage => Some(en(tag, Val::s("local"))),
        NotText => Some(en(tag, Val::U16(vec![8]))),
        Dangling => Some(raw(tag, 2, 7, 0x00ff_ff00)),
        Empty => Some(en(tag, Val::s(""))),
    }
}

fn presence(t: Tier) -> Space {
    // 7^3 offset states x dates present (8) x order of tags x layout x container
    let orders: u64 = t.pick(6, 24);
    let lays = t.pick(2u64, 6);
    let n = 343 * 4 * orders * lays * 2;
    let case = move |i: u64| {
        let mut m = Mix(i);
        let st = [*m.of(&OS), *m.of(&OS), *m.of(&OS)];
        let dates_in = m.d(4);
        let ord = m.d(orders);
        let lay = m.d(lays);
        let be = m.b();
        (st, dates_in, ord, lay, be)
    };
    Space::new(
        "offset-tags",
        "OffsetTime, OffsetTimeOriginal, OffsetTimeDigitized each absent, good, blank, garbage, not text, dangling or empty x which of the date-time tags are there (main directory, Exif directory, thumbnail directory) x orders of the Exif directory's entries x data layouts x byte order x container (by turns): every date-time has the recorded wall time and the offset of the first readable original/digitized offset tag, else of a readable OffsetTime, else none",
        n,
        move |i| {
            let (os, dates_in, ord, lay, be) = case(i);
            let w = [dt(2023, 7, 9, 20, 36, 33), dt(2021, 12, 31, 23, 59, 59), dt(2022, 1, 1, 0, 0, 0), dt(1999, 2, 28, 12, 0, 1)];
            // original and digitized agree; OffsetTime says something else
            let mut x = vec![];
            x.extend(off_entry(OFF, os[0], "-03:30"));
            x.extend(off_entry(OFF_O, os[1], "+08:00"));
            x.extend(off_entry(OFF_D, os[2], "+08:00"));
            let mut want: Vec<(usize, u16, NaiveDateTime)> = vec![];
            if dates_in != 1 {
                x.push(en(ORIG, Val::s(&text(w[1]))));
                x.push(en(DIGI, Val::s(&text(w[2]))));
            }
            x.push(en(0x829a, Val::URat(vec![(1, 8)])));
            // dates in front of or behind the offsets, and other permutations
            let n = x.len();
            let ord = ord as u64;
            let o = perm(n, (ord * fact(n) / orders + ord * 7) % fact(n));
            let x: Vec<En> = o.iter().map(|&k| x[k].clone()).collect();
            let mut main = vec![en(0x010f, Val::s("Make"))];
            let ptr = sub(EXIF_PTR, dir(x));
            if ord % 2 == 0 {
                main.push(ptr.clone());
            }
            if dates_in != 2 {
                main.push(en(MODIFY, Val::s(&text(w[0]))));
                want.push((0, MODIFY, w[0]));
            }
            if ord % 2 == 1 {
                main.push(ptr);
            }
            if dates_in != 1 {
                want.push((0, ORIG, w[1]));
                want.push((0, DIGI, w[2]));
            }
            let mut d = dir(main);
            if dates_in == 3 {
                d = d.with_next(dir(vec![en(MODIFY, Val::s(&text(w[3])))]));
                want.push((1, MODIFY, w[3]));
            }
            let off = if os[1] == Good || os[2] == Good {
                Some(480)
            } else if os[0] == Good {
                Some(-210)
            } else {
                None
            };
            let tf = tiff(&d, &Lay::new(be).order(ORDERS[lay].clone())).bytes;
            let data: Data = Arc::new(wrap((i % WRAPS) as usize, tf));
            let mut st = Stats::default();
            for (src, api) in [(Src::Mem, Api::Exif), (Src::Seek, Api::Meta)] {
                let got = dates(&data, src, api);
                st.note(true, fp(&format!("{got:?}")));
                let key = format!("offset-tags:{os:?}:{dates_in}");
                if got.len() != want.len() {
                    return viol(key, format!("{src:?}: {} date-times, expected {}: {got:?}", got.len(), want.len()));
                }
                for (ifd, tag, wall) in &want {
                    match got.iter().find(|g| g.0 == *ifd && g.1 == *tag) {
                        Some((_, _, Ok(v))) => check_value(&format!("{key}:{tag:#x}"), v, *wall, off)?,
                        g => return viol(key, format!("{src:?}: tag {tag:#x} of directory {ifd}: {g:?}")),
                    }
                }
            }
            Ok(st)
        },
        move |i| format!("{:?}", case(i)),
    )
}

/// How far into its directory an offset may stand.
fn crowd(t: Tier) -> Space {
    let most = t.pick(320u64, 1500);
    let n_of = move |i: u64| -> (u16, usize, usize, bool) {
        let mut m = Mix(i);
        let tag = *m.of(&[OFF, OFF_O, OFF_D]);
        let place = m.d(4);
        let be = m.b();
        (tag, place, m.0 as usize, be)
    };
    Space::new(
        "crowded-directories",
        "0 to 320 (thorough 1500) other entries in the Exif directory ahead of the offset tag, behind it, or in the main directory ahead of the pointer to it or behind it x the three offset tags x byte order: the date-time has the offset all the same",
        3 * 4 * 2 * (most + 1),
        move |i| {
            let (tag, place, n, be) = n_of(i);
            let w = dt(2020, 5, 17, 6, 7, 8);
            let others: Vec<En> = (0..n).map(|k| if k % 5 == 4 { en(0xc000 + k as u16, Val::s("some text")) } else { en(0xc000 + k as u16, Val::U16(vec![k as u16])) }).collect();
            let mut x = vec![en(ORIG, Val::s(&text(w)))];
            let mut main = vec![];
            if place == 0 {
                x.extend(others.clone());
            }
            x.push(en(tag, Val::s("-03:30")));
            if place == 1 {
                x.extend(others.clone());
            }
            if place == 2 {
                main.extend(others.clone());
            }
            main.push(sub(EXIF_PTR, dir(x)));
            if place == 3 {
                main.extend(others);
            }
            let data: Data = Arc::new(wrap((i % 3) as usize, tiff(&dir(main), &Lay::new(be)).bytes));
            let mut st = Stats::default();
            let key = format!("crowded-directories:{place}:{n}");
            for (src, api) in [(Src::Mem, Api::Exif), (Src::NoSeek, Api::Exif)] {
                let got = dates(&data, src, api);
                st.note(true, fp(&format!("{got:?}")));
                match got.as_slice() {
                    [(0, ORIG, Ok(v))] => check_value(&key, v, w, Some(-210))?,
                    g => return viol(key, format!("{src:?}: {g:?}")),
                }
            }
            Ok(st)
        },
        move |i| format!("{:?}", n_of(i)),
    )
}

/// Offsets that are not in the Exif directory don't count.
fn elsewhere() -> Space {
    Space::new(
        "offset-elsewhere",
        "offset tags in the main directory, the GPS directory, the thumbnail directory or its own Exif directory, or an Exif pointer that leads nowhere, to itself or to a broken directory x byte order x container: no offset",
        6 * 2 * WRAPS,
        |i| {
            let mut m = Mix(i);
            let kind = m.d(6);
            let be = m.b();
            let w = m.d(WRAPS);
            let t = dt(2020, 5, 17, 6, 7, 8);
            let offs = || vec![en(OFF, Val::s("+05:00")), en(OFF_O, Val::s("+05:00")), en(OFF_D, Val::s("+05:00"))];
            let mut main = vec![en(MODIFY, Val::s(&text(t)))];
            let mut next = None;
            match kind {
                0 => main.extend(offs()),
                1 => main.push(sub(GPS_PTR, dir(offs()))),
                2 => next = Some(dir(offs())),
                3 => main.push(raw(EXIF_PTR, 4, 1, 0x00ff_fff0)),
                4 => main.push(raw(EXIF_PTR, 4, 1, 8)),
                _ => main.push(en(EXIF_PTR, Val::s("no directory here"))),
            }
            if kind != 4 && kind != 3 && kind != 5 {
                main.push(sub(EXIF_PTR, dir(vec![en(ORIG, Val::s(&text(t)))])));
            }
            let mut d = dir(main);
            if let Some(n) = next {
                d = d.with_next(n);
            }
            let data: Data = Arc::new(wrap(w, tiff(&d, &Lay::new(be)).bytes));
            let mut st = Stats::default();
            let got = dates(&data, Src::Mem, Api::Exif);
            st.note(true, fp(&format!("{got:?}")));
            let key = format!("offset-elsewhere:{kind}");
            if got.is_empty() {
                return viol(key, "no date-time");
            }
            for (_, tag, g) in &got {
                match g {
                    Ok(v) => check_value(&format!("{key}:{tag:#x}"), v, t, None)?,
                    Err(e) => return viol(key, e.clone()),
                }
            }
            Ok(st)
        },
        |i| format!("kind {} container {}", i % 6, i / 12),
    )
}

fn one_file(date: &str, off: Option<&str>, be: bool) -> Data {
    let mut x = vec![en(ORIG, Val::s(date))];
    if let Some(o) = off {
        x.push(en(OFF_O, Val::s(o)));
    }
    let d = dir(vec![sub(EXIF_PTR, dir(x))]);
    Arc::new(tiff(&d, &Lay { tail: 150, ..Lay::new(be) }).bytes)
}
fn one(key: &str, date: &str, off_s: Option<&str>, be: bool, want: std::result::Result<(NaiveDateTime, Option<i32>), ()>) -> CaseResult {
    let data = one_file(date, off_s, be);
    let got = dates(&data, Src::Mem, Api::Exif);
    let st = Stats::one(true, fp(&format!("{got:?}")));
    match (got.first(), want) {
        (Some((_, _, Ok(v))), Ok((wall, off))) => check_value(key, v, wall, off)?,
        (Some((_, _, Err(_))), Err(())) => {}
        (g, w) => return viol(key, format!("date text {date:?}, offset text {off_s:?}: {g:?}, expected {w:?}")),
    }
    if got.len() != 1 {
        return viol(key, format!("{} date-times", got.len()));
    }
    Ok(st)
}

fn offsets(t: Tier) -> Vec<Space> {
    let step = t.pick(15i32, 1);
    let lim = 23 * 60 + 59;
    let mut v: Vec<i32> = (0..=lim).step_by(step as usize).collect();
    v.push(lim);
    v.extend([1, 7, 30, 59, 61, 341, 12 * 60 + 59, 13 * 60 + 1]);
    let neg: Vec<i32> = v.iter().map(|x| -x).collect();
    v.extend(neg);
    v.sort_unstable();
    v.dedup();
    let v = Arc::new(v);
    let n = v.len() as u64;
    let v2 = v.clone();
    let walls = [dt(2023, 7, 9, 20, 36, 33), dt(2024, 2, 29, 0, 0, 0), dt(1970, 1, 1, 0, 0, 0), dt(1999, 12, 31, 23, 59, 59), dt(9999, 12, 31, 23, 59, 59), dt(1, 1, 1, 0, 0, 0)];
    let good = Space::new(
        "offset-texts",
        "every offset from -23:59 to +23:59 (every 15 minutes quick, every minute thorough) x 6 wall times incl. day, year and range ends; whole tens of minutes also with their last zero lost",
        n * 6 * 2,
        move |i| {
            let mut m = Mix(i);
            let o = *m.of(&v);
            let w = *m.of(&walls);
            let mut s = off_text(o);
            if m.b() {
                // as in a field of fixed size, one character short
                if s.pop() != Some('0') {
                    return Ok(Stats::default());
                }
            }
            one(&format!("offset-texts:{o}"), &text(w), Some(&s), i % 2 == 0, Ok((w, Some(o))))
        },
        move |i| off_text(v2[(i % n) as usize]),
    );
    const UNREADABLE: [&str; 24] = [
        "", " ", "   :  ", "      ", ":", "abc", "local", "+", "-", "+0", "8", "GMT+8", "+ab:cd", "08:00", "+24:00", "-24:00", "+99:99", "+08:60", "+08:99", "+-8:00", "++08:00", "+08:00:00", "+08:00 x",
        "\u{e4}\u{f6}",
    ];
    let bad = Space::new(
        "unreadable-offsets",
        "24 offset texts that denote no offset (blank, letters, out of range, trailing garbage) x 6 wall times: the time without offset",
        24 * 6,
        move |i| {
            let mut m = Mix(i);
            let o = *m.of(&UNREADABLE);
            let w = *m.of(&walls);
            one(&format!("unreadable-offsets:{o}"), &text(w), Some(o), i % 2 == 0, Ok((w, None)))
        },
        |i| format!("{:?}", UNREADABLE[(i % 24) as usize]),
    );
    vec![good, bad]
}

fn texts(t: Tier) -> Vec<Space> {
    // every day of a span of years
    let first = NaiveDate::from_ymd_opt(t.pick(1990, 1600), 1, 1).unwrap();
    let days = t.pick(365u64 * 60, 365 * 800);
    let day = Space::new(
        "days",
        "every day for 60 years from 1990 (thorough: 800 years from 1600), with the time of day running through its values, naive and with an offset by turns",
        days,
        move |i| {
            let d = first + chrono::Days::new(i);
            let w = d.and_hms_opt((i % 24) as u32, (i * 7 % 60) as u32, (i * 11 % 60) as u32).unwrap();
            let o = (i % 2 == 1).then_some(((i * 13) % 1680) as i32 - 840);
            one("days", &text(w), o.map(off_text).as_deref(), i % 3 == 0, Ok((w, o)))
        },
        move |i| format!("day {i}"),
    );
    let secs = Space::new(
        "times-of-day",
        "every second of a day (quick: every 7th)",
        86400 / t.pick(7, 1),
        move |i| {
            let s = (i * t.pick(7, 1)) as u32;
            let w = dt(2023, 3, 26, s / 3600, s / 60 % 60, s % 60);
            let o = (i % 2 == 1).then_some(120);
            one("times-of-day", &text(w), o.map(off_text).as_deref(), i % 3 == 0, Ok((w, o)))
        },
        move |i| format!("second {}", i * t.pick(7, 1)),
    );
    const INVALID: [&str; 28] = [
        "0000:00:00 00:00:00",
        "    :  :     :  :  ",
        "                   ",
        "2023:13:01 00:00:00",
        "2023:00:01 00:00:00",
        "2023:01:00 00:00:00",
        "2023:01:32 00:00:00",
        "2023:02:29 00:00:00",
        "2023:02:30 00:00:00",
        "2100:02:29 00:00:00",
        "2023:04:31 00:00:00",
        "2023:01:01 24:00:00",
        "2023:01:01 00:60:00",
        "2023:01:01 00:00:61",
        "2023:01:01 00:00:99",
        "2023:01:01",
        "2023:01:01 10",
        "2023:01:01 10:20",
        "10:20:30",
        "2023:01:01 10:20:30x",
        "2023:01:01 10:20:30.5",
        "x2023:01:01 10:20:30",
        "yesterday",
        "20230101102030",
        "2023:01:01 aa:bb:cc",
        "2023:01:01 10:20:3\u{e4}",
        "2023-13-45 10:20:30",
        "0",
    ];
    let inv = Space::new(
        "invalid-dates",
        "28 texts that denote no date-time (month, day, hour out of range, missing parts, blank, garbage) with no, a good, a blank and an unreadable offset: an error for that entry, no invented date",
        28 * 4,
        |i| {
            let mut m = Mix(i);
            let s = *m.of(&INVALID);
            let o = *m.of(&[None, Some("+08:00"), Some("   :  "), Some(":30 +01:00x")]);
            one(&format!("invalid-dates:{s}"), s, o, i % 2 == 0, Err(()))
        },
        |i| format!("{:?}", INVALID[(i % 28) as usize]),
    );
    vec![day, secs, inv]
}

// ------------------------------------------------------------ machine time zone

/// Everything date-like the library says about a fixed set of files, as text.
pub fn zone_lines() -> Vec<String> {
    let mut out = vec![];
    let mut walls = vec![];
    for d in [dt(2023, 3, 12, 0, 0, 0), dt(2023, 3, 26, 0, 0, 0), dt(2023, 11, 5, 0, 0, 0), dt(2023, 10, 29, 0, 0, 0), dt(2022, 4, 3, 0, 0, 0), dt(1970, 1, 1, 0, 0, 0), dt(2038, 1, 19, 0, 0, 0)] {
        for k in 0..48 {
            walls.push(d + chrono::Duration::minutes(30 * k));
        }
    }
    for w in &walls {
        for o in [None, Some("+08:00"), Some("   :  "), Some("-03:30")] {
            let data = one_file(&text(*w), o, false);
            for r in [
                parse_raw(&mut MediaParser::new(), &data, Src::Mem, Api::Exif),
                parse_raw(&mut MediaParser::new(), &data, Src::Seek, Api::Exif),
            ] {
                if let Raw::Exif(it) = r {
                    let e: Exif = it.into();
                    let v = e.get(ExifTag::DateTimeOriginal).cloned();
                    let x = v.as_ref().and_then(|v| v.as_datetime());
                    out.push(format!(
                        "{w} {o:?}: {v:?} {} {} {x:?} {:?} {:?} {:?}",
                        v.as_ref().map(|v| v.to_string()).unwrap_or_default(),
                        serde_json::to_string(&v).unwrap_or_default(),
                        x.map(|x| x.into_naive()),
                        x.map(|x| x.aware()),
                        x.map(|x| x.or_offset(FixedOffset::east_opt(3600).unwrap())),
                    ));
                }
            }
        }
    }
    let ep = dt(1904, 1, 1, 0, 0, 0);
    for w in &walls {
        let s = (*w - ep).num_seconds() as u64;
        for ver in [0u8, 1] {
            if ver == 0 && s > u32::MAX as u64 {
                continue;
            }
            let mv = cat(&[mvhd(ver, s, 600, 600), trak(b"vide", tkhd(0, 64, 32), 0)]);
            let data: Data = Arc::new(mp4(&bx(b"moov", &mv), 0, 200, false));
            track_line(&mut out, &format!("mvhd {ver} {w}"), &data);
        }
        let ns = (*w - dt(2001, 1, 1, 0, 0, 0)).num_nanoseconds();
        if let Some(ns) = ns {
            let data: Data = Arc::new(mkv("webm", &[mk_info(Some(5.0), None, Some(ns)), mk_tracks(&[mk_video(64, 32)]), cluster(200)]));
            track_line(&mut out, &format!("mkv {w}"), &data);
        }
        // QuickTime creation date text with its own offset
        let qt = qt_meta(&[("com.apple.quicktime.creationdate", 1, format!("{}+0800", w.format("%Y-%m-%dT%H:%M:%S")).into_bytes())], &[0]);
        let mv = cat(&[mvhd(0, 3_700_000_000, 600, 600), qt]);
        let data: Data = Arc::new(mp4(&bx(b"moov", &mv), 0, 200, true));
        track_line(&mut out, &format!("qt {w}"), &data);
    }
    out
}
fn track_line(out: &mut Vec<String>, what: &str, data: &Data) {
    if let Raw::Track(t) = parse_raw(&mut MediaParser::new(), data, Src::Mem, Api::Track) {
        let v = t.get(TrackInfoTag::CreateDate).cloned();
        out.push(format!(
            "{what}: {v:?} {} {}",
            v.as_ref().map(|v| v.to_string()).unwrap_or_default(),
            serde_json::to_string(&v).unwrap_or_default()
        ));
    } else {
        out.push(format!("{what}: no track"));
    }
}
/// Entry point of the child process: the machine's zone, then all lines.
pub fn child() {
    let l: DateTime<chrono::Local> = chrono::Local::now();
    println!("{}", l.offset().local_minus_utc());
    for x in zone_lines() {
        println!("{x}");
    }
}

fn zones() -> Space {
    const Z: [(&str, i32); 12] = [
        ("UTC", 0),
        ("XYZ+5", -5 * 3600),
        ("ABC-13:45", 13 * 3600 + 45 * 60),
        ("<+14>-14", 14 * 3600),
        ("<-12>12", -12 * 3600),
        ("IST-5:30", 5 * 3600 + 1800),
        ("EST5EDT,M3.2.0,M11.1.0", i32::MAX),
        ("CET-1CEST,M3.5.0,M10.5.0/3", i32::MAX),
        ("LHST-10:30LHDT-11,M10.1.0,M4.1.0", i32::MAX),
        ("NZST-12NZDT,M9.5.0,M4.1.0/3", i32::MAX),
        (":/nonexistent", i32::MAX),
        ("", i32::MAX),
    ];
    Space::new(
        "machine-zones",
        "12 settings of the machine's time zone (fixed offsets, daylight saving rules of both hemispheres, unset) x every half hour of the days on which clocks change in some of them x EXIF, MP4, QuickTime and Matroska dates with and without offset, each in a process of its own: identical to this process under UTC, and equal to what the file says",
        Z.len() as u64,
        |i| {
            let (z, off) = Z[i as usize];
            let out = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("--c20-child")
                .env("TZ", z)
                .output()
                .expect("child");
            let s = String::from_utf8_lossy(&out.stdout).into_owned();
            let mut l = s.lines();
            let got_off: i32 = match l.next().and_then(|x| x.parse().ok()) {
                Some(o) => o,
                None => return viol(format!("machine-zones:{z}:child"), format!("the child process failed: {}", trunc(&String::from_utf8_lossy(&out.stderr), 300))),
            };
            assert!(off == i32::MAX || off == got_off, "zone {z} not in effect: {got_off}");
            // by the library in this process (whose zone doesn't change)
            let want = zone_lines();
            let mut st = Stats::default();
            let got: Vec<&str> = l.collect();
            for k in 0..want.len().max(got.len()) {
                st.note(true, fp(&got.get(k)));
                if want.get(k).map(|x| x.as_str()) != got.get(k).copied() {
                    return viol(
                        format!("machine-zones:{z}"),
                        format!("under TZ={z}: {:?}, otherwise {:?}", got.get(k), want.get(k)),
                    );
                }
            }
            Ok(st)
        },
        |i| Z[i as usize].0.to_string(),
    )
}

/// The three accessors on values made directly.
fn accessors() -> Space {
    let walls = [
        dt(2023, 7, 9, 20, 36, 33),
        dt(2024, 2, 29, 23, 59, 59),
        dt(1970, 1, 1, 0, 0, 0),
        dt(2023, 3, 26, 2, 30, 0),
        dt(2023, 11, 5, 1, 30, 0),
        dt(1, 1, 1, 0, 0, 0),
        dt(9999, 12, 31, 23, 59, 59),
    ];
    Space::new(
        "accessors",
        "7 wall times x every offset of a quarter hour, and without offset, as values made by the caller: naive, aware and fallback accessors denote the recorded time; the value keeps its own offset whatever the fallback",
        7 * (192 + 1),
        move |i| {
            let mut m = Mix(i);
            let w = *m.of(&walls);
            let k = m.d(193) as i32;
            let o = if k == 192 { None } else { Some((k - 96) * 15) };
            let o = o.map(|x| x.clamp(-1439, 1439));
            let v = match o {
                None => EntryValue::NaiveDateTime(w),
                Some(o) => EntryValue::DateTime(w.and_local_timezone(FixedOffset::east_opt(o * 60).unwrap()).unwrap()),
            };
            let Some(x) = v.as_datetime() else {
                return viol("accessors", format!("{v:?} is no date-time"));
            };
            check_value("accessors", &x, w, o)?;
            // the pair conversion
            let p = EntryValue::from((w, o.map(|o| FixedOffset::east_opt(o * 60).unwrap())));
            if p != v {
                return viol("accessors:pair", format!("{p:?} vs {v:?}"));
            }
            Ok(Stats::one(true, fp(&format!("{x:?}"))))
        },
        |i| format!("index {i}"),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![presence(t), elsewhere(), crowd(t)];
    v.extend(offsets(t));
    v.extend(texts(t));
    v.push(accessors());
    v.push(zones());
    (
        "exploration",
        v,
        vec![
            "files whose OffsetTimeOriginal and OffsetTimeDigitized are both readable and differ are left out: the library applies one offset per file",
            "the second metadata block of CR3 files carries its own (or no) Exif directory",
        ],
    )
}
