//! C09 — GPS position, altitude and speed.
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use nom_exif::*;
use std::sync::Arc;

type R = (u32, u32);
fn u(r: R) -> URational {
    URational::new(r.0, r.1)
}
const LAT: [R; 3] = [(43, 1), (28, 1), (17564, 100)];
const LON: [R; 3] = [(113, 1), (2, 3), (0, 7)];
const ALT: R = (12345, 10);
const SPD: R = (88, 3);
fn irat(v: &[R]) -> Val {
    Val::IRat(v.iter().map(|r| (r.0 as i32, r.1 as i32)).collect())
}
fn dms(v: [R; 3]) -> LatLng {
    LatLng::new(u(v[0]), u(v[1]), u(v[2]))
}

/// One state per tag: what is stored, and what it says.
struct Case {
    ents: Vec<En>,
    want: Option<GPSInfo>,
}
const RADIX: [u64; 8] = [7, 7, 6, 6, 5, 6, 6, 5];
fn states(s: &[usize]) -> Case {
    let mut e = vec![];
    let mut g = GPSInfo::default();
    match s[0] {
        0 => {}
        1 => e.push(en(1, Val::s("N"))),
        2 => {
            e.push(en(1, Val::s("S")));
            g.latitude_ref = LatRef::South
        }
        3 => e.push(en(1, Val::s("X"))),
        4 => {
            e.push(en(1, Val::Ascii(b"S".to_vec())));
            g.latitude_ref = LatRef::South
        }
        5 => e.push(en(1, Val::U16(vec![0x53]))),
        _ => e.push(raw(1, 2, 50, 0x7fff_0000)),
    }
    match s[1] {
        0 => {}
        1 => {
            e.push(en(2, Val::URat(LAT.to_vec())));
            g.latitude = dms(LAT)
        }
        2 => {
            e.push(en(2, irat(&LAT)));
            g.latitude = dms(LAT)
        }
        3 => e.push(en(2, Val::IRat(vec![(43, 1), (-28, 1), (1, 1)]))),
        4 => e.push(en(2, Val::URat(LAT[..2].to_vec()))),
        5 => e.push(en(2, Val::s("43 deg"))),
        _ => e.push(raw(2, 5, 3, 0x7fff_0000)),
    }
    match s[2] {
        0 => {}
        1 => e.push(en(3, Val::s("E"))),
        2 => {
            e.push(en(3, Val::s("W")));
            g.longitude_ref = LonRef::West
        }
        3 => e.push(en(3, Val::s("N"))),
        4 => {
            e.push(en(3, Val::s("West")));
            g.longitude_ref = LonRef::West
        }
        _ => e.push(raw(3, 0, 1, 0)),
    }
    match s[3] {
        0 => {}
        1 => {
            e.push(en(4, Val::URat(LON.to_vec())));
            g.longitude = dms(LON)
        }
        2 => {
            e.push(en(4, irat(&LON)));
            g.longitude = dms(LON)
        }
        3 => e.push(en(4, Val::IRat(vec![(-113, 1), (28, 1), (1, 1)]))),
        4 => e.push(en(4, Val::U32(vec![113, 2, 3]))),
        _ => e.push(raw(4, 5, 3, 0xffff_fff0)),
    }
    let below = match s[4] {
        0 => None,
        1 => {
            e.push(en(5, Val::U8(vec![0])));
            Some(false)
        }
        2 => {
            e.push(en(5, Val::U8(vec![1])));
            Some(true)
        }
        3 => {
            e.push(en(5, Val::U8(vec![2])));
            None
        }
        _ => {
            e.push(raw(5, 13, 1, 0));
            None
        }
    };
    let alt = match s[5] {
        0 => None,
        1 => {
            e.push(en(6, Val::URat(vec![ALT])));
            Some(ALT)
        }
        2 => {
            e.push(en(6, irat(&[ALT])));
            Some(ALT)
        }
        3 => {
            e.push(en(6, Val::IRat(vec![(-5, 1)])));
            None
        }
        4 => {
            e.push(en(6, Val::URat(vec![(7, 0)])));
            Some((7, 0))
        }
        _ => {
            e.push(raw(6, 5, 1, 0xffff_fff0));
            None
        }
    };
    g.altitude = match (below, alt) {
        (Some(false), Some(a)) => Altitude::AboveSeaLevel(u(a)),
        (Some(true), Some(a)) => Altitude::BelowSeaLevel(u(a)),
        _ => Altitude::Unknown,
    };
    let unit = match s[6] {
        0 => None,
        1 => {
            e.push(en(0xc, Val::s("K")));
            Some(SpeedUnit::KmPerHour)
        }
        2 => {
            e.push(en(0xc, Val::s("M")));
            Some(SpeedUnit::MilesPerHour)
        }
        3 => {
            e.push(en(0xc, Val::s("N")));
            Some(SpeedUnit::Knots)
        }
        4 => {
            e.push(en(0xc, Val::s("Z")));
            None
        }
        _ => {
            e.push(raw(0xc, 2, 9, 0xffff_fff0));
            None
        }
    };
    let sp = match s[7] {
        0 => None,
        1 => {
            e.push(en(0xd, Val::URat(vec![SPD])));
            Some(SPD)
        }
        2 => {
            e.push(en(0xd, irat(&[SPD])));
            Some(SPD)
        }
        3 => {
            e.push(en(0xd, Val::IRat(vec![(1, -1)])));
            None
        }
        _ => {
            e.push(raw(0xd, 0x77, 1, 0));
            None
        }
    };
    g.speed = match (unit, sp) {
        (Some(unit), Some(v)) => Some(Speed { unit, value: u(v) }),
        _ => None,
    };
    let want = (!e.is_empty()).then_some(g);
    Case { ents: e, want }
}

/// iterator look-up and collected view
fn check(key: String, file: Vec<u8>, want: &Option<GPSInfo>, srcs: &[Src]) -> CaseResult {
    let d: Data = Arc::new(file);
    let mut st = Stats::default();
    for &s in srcs {
        if d.len() <= 128 && STREAMS.contains(&s) {
            continue;
        }
        let it = match parse_raw(&mut MediaParser::new(), &d, s, Api::Exif) {
            Raw::Exif(it) => it,
            o => return viol(key, format!("from {s:?}: parse gives {:?}", o.norm())),
        };
        let got = match it.parse_gps() {
            Ok(g) => g,
            Err(e) => return viol(key, format!("from {s:?}: parse_gps gives {e}")),
        };
        if got != *want {
            return viol(key, format!("from {s:?}: parse_gps gives {got:?}, the tags say {want:?}"));
        }
        let ex: Exif = it.into();
        if ex.gps_info() != want.as_ref() {
            return viol(key, format!("from {s:?}: collected GPS {:?}, the tags say {want:?}", ex.gps_info()));
        }
        st.note(want.is_some(), fp(&format!("{got:?}")));
    }
    Ok(st)
}

fn presence(t: Tier) -> Space {
    // quick: the first 5 states of each tag
    let radix: Vec<u64> = RADIX.iter().map(|r| (*r).min(t.pick(5, 7))).collect();
    let n: u64 = radix.iter().product();
    let r2 = radix.clone();
    let dec = |radix: &[u64], i: u64| -> Vec<usize> {
        let mut m = Mix(i);
        radix.iter().map(|r| m.d(*r)).collect()
    };
    Space::new(
        "presence",
        format!("each of the 8 GPS tags in every one of up to {} states (absent, each meaning, signed and unsigned, wrong text, wrong type, too short, negative, zero denominator, unreadable): full product", t.pick(5, 7)),
        n,
        move |i| {
            let s = dec(&radix, i);
            let c = states(&s);
            let mut v = vec![en(0, Val::U8(vec![2, 3, 0, 0]))];
            // without any tag: an empty directory
            if c.ents.is_empty() {
                v.clear();
            }
            v.extend(c.ents);
            let d = dir(vec![en(0x0112, Val::U16(vec![1])), sub(GPS_PTR, dir(v))]);
            let f = tiff(&d, &Lay { tail: 64, ..Lay::new(i % 2 == 0) }).bytes;
            check(format!("presence:{s:?}"), f, &c.want, &[Src::Mem])
        },
        move |i| format!("tag states {:?}", dec(&r2, i)),
    )
}
const FULL: [usize; 8] = [2, 1, 2, 1, 2, 1, 2, 1];
fn orders(t: Tier) -> Space {
    let n = fact(8) / t.pick(7, 1);
    let step = t.pick(7, 1);
    Space::new(
        "orders",
        format!("the 8 tags in {} order within the directory, both byte orders", t.pick("every 7th", "every")),
        n * 2,
        move |i| {
            let be = i % 2 == 0;
            let c = states(&FULL);
            let p = perm(8, (i / 2) * step);
            let v: Vec<En> = p.iter().map(|k| c.ents[*k].clone()).collect();
            let d = dir(vec![sub(GPS_PTR, dir(v)), en(0x0112, Val::U16(vec![1]))]);
            check(format!("orders:{}:{be}", i / 2 * step), tiff(&d, &Lay { tail: 10, ..Lay::new(be) }).bytes, &c.want, &[Src::Mem])
        },
        move |i| format!("permutation {:?}", perm(8, (i / 2) * step)),
    )
}
/// what else may stand in the GPS directory, without any bearing on the position
fn others() -> Vec<(&'static str, En)> {
    vec![
        ("version", en(0, Val::U8(vec![2, 3, 0, 0]))),
        ("time stamp", en(7, Val::URat(vec![(1, 1), (2, 1), (3, 1)]))),
        ("date stamp", en(0x1d, Val::s("2023:07:09"))),
        ("unknown low code", en(0x00f1, Val::U16(vec![3]))),
        ("unknown high code", en(0xfff0, Val::s("something longer"))),
        ("unknown code of unknown format", raw(0x0077, 77, 1, 0)),
        ("unreadable time stamp", raw(7, 5, 3, 0x7fff_0000)),
        ("invalid date", en(0x9003, Val::s("not a date at all"))),
        ("tag of the main directory", en(0x0112, Val::U16(vec![6]))),
        ("destination reference", en(0x13, Val::s("S"))),
        ("destination latitude", en(0x14, Val::URat(vec![(1, 1), (2, 1), (3, 1)]))),
        ("image direction", en(0x11, Val::URat(vec![(90, 1)]))),
        ("pointer to nowhere", raw(EXIF_PTR, 4, 1, 0x7fff_0000)),
        ("Exif directory", sub(EXIF_PTR, dir(vec![en(0xa002, Val::U32(vec![5])), en(0x0077, Val::U8(vec![1]))]))),
    ]
}
fn neighbours() -> Space {
    let k = others().len() as u64;
    let two = k + 1;
    let n = k * 9 * (1 + two * 9) * 2 * 2;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let next = m.b();
        let a = (m.d(k), m.d(9));
        // a second one on top of that
        let b = if two > 0 && m.0 > 0 {
            let mut r = Mix(m.0 - 1);
            Some((r.d(two), r.d(9))).filter(|x| (x.0 as u64) < k)
        } else {
            None
        };
        (be, next, a, b)
    };
    Space::new(
        "neighbours",
        format!("{} other entries (version, unknown codes, unreadable ones, other GPS tags, tags of other directories, pointers), one or two at each position between the 8 tags, with and without a directory linked behind it, byte orders: the position is that of the 8 tags", k),
        n,
        move |i| {
            let (be, next, a, b) = dec(i);
            let c = states(&FULL);
            let mut v = c.ents;
            v.insert(a.1, others()[a.0].1.clone());
            if let Some(b) = b {
                v.insert(b.1, others()[b.0].1.clone());
            }
            let mut g = dir(v);
            if next {
                g = g.with_next(dir(vec![en(0x0103, Val::U16(vec![6])), en(0x0131, Val::s("soft ware"))]));
            }
            let d = dir(vec![en(0x0112, Val::U16(vec![1])), sub(GPS_PTR, g)]);
            check(format!("neighbours:{i}"), tiff(&d, &Lay { tail: 60, ..Lay::new(be) }).bytes, &c.want, &[Src::Mem])
        },
        move |i| {
            let (be, next, a, b) = dec(i);
            let nm = |x: (usize, usize)| format!("{} at {}", others()[x.0].0, x.1);
            format!("{} {:?} linked {next} big-endian {be}", nm(a), b.map(nm))
        },
    )
}
/// Very many other entries.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=64).chain((70..=300).step_by(10)).chain([255, 256, 257, 512, 1000, 1025, 4096]).collect(),
        Tier::Thorough => (0..=700).chain([1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 10_000, 60_000]).collect(),
    });
    let n2 = ns.clone();
    Space::new(
        "crowded",
        "0 to 4096 (thorough 60000) other entries, readable or not, at each position between the 8 tags, or ahead of the pointer in the main directory: the position is that of the 8 tags",
        10 * 3 * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (at, kind, n) = (m.d(10), m.d(3), *m.of(&ns));
            let c = states(&FULL);
            let mut v = c.ents;
            let more: Vec<En> = (0..n)
                .map(|k| {
                    let tag = 0x0100 + (k % 0x6000) as u16;
                    match if kind == 2 { k % 2 } else { kind } {
                        0 => en(tag, Val::U16(vec![k as u16])),
                        _ => raw(tag, 5, 1, 0x7fff_0000),
                    }
                })
                .collect();
            let d = if at < 9 {
                v.splice(at..at, more);
                dir(vec![en(0x0112, Val::U16(vec![1])), sub(GPS_PTR, dir(v))])
            } else {
                dir(more.into_iter().chain([sub(GPS_PTR, dir(v))]).collect())
            };
            let f = tiff(&d, &Lay { tail: 60, ..Lay::new(i % 2 == 0) }).bytes;
            check(format!("crowded:{at}:{kind}:{n}"), f, &c.want, &[Src::Mem, Src::Seek])
        },
        move |i| {
            let mut m = Mix(i);
            format!("at {}, kind {}, {} entries", m.d(10), m.d(3), m.of(&n2))
        },
    )
}
/// where the tags are: directory, container, source, distance
fn places(t: Tier) -> Space {
    let gaps: &'static [usize] = t.pick(&[0usize, 9000][..], &[0, 1, 300, 4100, 9000, 30_000][..]);
    // which directory holds the pointer x position among its entries x container x physical order x gap x byte order x full / partial
    let n = 5 * 3 * 8 * 6 * gaps.len() as u64 * 2 * 3;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let be = m.b();
        let var = m.d(3);
        let gap = *m.of(gaps);
        let o = m.of(&ORDERS).clone();
        let cont = m.d(8);
        let pos = m.d(3);
        let holder = m.d(5);
        (be, var, gap, o, cont, pos, holder)
    };
    Space::new(
        "places",
        format!("GPS directory in main / Exif / thumbnail / behind an Exif pointer / in the second CR3 block, pointer first / middle / last, 8 containers, 6 physical orders, gaps {gaps:?}, byte orders, 3 tag sets, all 7 sources"),
        n,
        move |i| {
            let (be, var, gap, o, cont, pos, holder) = dec(i);
            let c = states(match var {
                0 => &FULL,
                1 => &[1, 2, 1, 2, 1, 2, 1, 2],
                _ => &[2, 1, 0, 0, 0, 0, 0, 0],
            });
            let ptr = sub(GPS_PTR, dir(c.ents.clone()));
            let put = |mut v: Vec<En>| {
                let at = [0, v.len() / 2, v.len()][pos];
                v.insert(at, ptr.clone());
                v
            };
            let main = vec![en(0x010f, Val::s("Some Maker")), en(0x0112, Val::U16(vec![1]))];
            let exif = vec![en(0x829a, Val::URat(vec![(1, 250)])), en(0xa002, Val::U32(vec![4032]))];
            let thumb = vec![en(0x0103, Val::U16(vec![6])), en(0x0131, Val::s("soft ware"))];
            let first = tiff(&dir(main.clone()), &Lay { tail: 400, ..Lay::new(!be) }).bytes;
            let with_exif = |m: Vec<En>, e: Vec<En>| {
                let mut v = m;
                v.push(sub(EXIF_PTR, dir(e)));
                v
            };
            let d = match holder {
                0 => dir(with_exif(put(main), exif)).with_next(dir(thumb)),
                1 => dir(with_exif(main, put(exif))).with_next(dir(thumb)),
                2 => dir(with_exif(main, exif)).with_next(dir(put(thumb))),
                3 => dir({
                    let mut v = vec![sub(EXIF_PTR, dir(exif))];
                    v.extend(main);
                    put(v)
                }),
                _ => dir(put(exif)),
            };
            let lay = Lay { gap, tail: 20, ..Lay::new(be).order(o) };
            let tf = tiff(&d, &lay).bytes;
            // containers limited to 64 KiB segments cannot hold the widest layouts
            let fits = tf.len() < 65_000;
            let f = match cont {
                0 => tf,
                1 if fits => jpeg_with_exif(&tf),
                2 => png(&[chunk(b"eXIf", &tf)]),
                3 => png(&[text_chunk("Raw profile type exif", &raw_profile("exif", &exif_payload(&tf)))]),
                4 => Heif::new().build(&tf),
                5 => Cr3::new(vec![(*b"CMT1", first), (*b"CMT2", tf)]).build(),
                6 => Cr3::new(vec![(*b"CMT1", tf)]).build(),
                7 if fits => raf(&jpeg_with_exif(&tf), 0, b"X"),
                _ => return Ok(Stats::default()),
            };
            let srcs: &[Src] = if gap == 0 && var == 0 { &SRCS } else { &[Src::Mem, Src::NoSeek] };
            check(format!("places:{i}"), f, &c.want, srcs)
        },
        move |i| format!("{:?}", dec(i)),
    )
}
/// no GPS directory: no position
fn absent() -> Space {
    Space::new(
        "absent",
        "files of every container without a GPS pointer, with an empty GPS directory, and with a GPS tag outside a GPS directory: no position",
        3 * 2 * 4,
        |i| {
            let mut m = Mix(i);
            let be = m.b();
            let k = m.d(3);
            let d = match k {
                0 => dir(vec![en(0x0110, Val::s("M1 model")), sub(EXIF_PTR, dir(vec![en(0xa002, Val::U32(vec![1]))]))]),
                1 => dir(vec![en(0x0110, Val::s("M1 model")), sub(GPS_PTR, dir(vec![]))]),
                _ => dir(vec![en(1, Val::s("S")), en(2, Val::URat(LAT.to_vec())), en(0x0110, Val::s("M1 model"))]),
            };
            let tf = tiff(&d, &Lay { tail: 80, ..Lay::new(be) }).bytes;
            let f = match m.d(4) {
                0 => tf,
                1 => jpeg_with_exif(&tf),
                2 => png(&[chunk(b"eXIf", &tf)]),
                _ => Heif::new().build(&tf),
            };
            check(format!("absent:{i}"), f, &None, &[Src::Mem, Src::Seek])
        },
        |i| format!("absent {i}"),
    )
}
/// a GPS pointer which leads nowhere: an error, as the look-up documents, and no position
fn pointers() -> Space {
    const HOW: u64 = 15;
    Space::new(
        "pointers",
        "a GPS pointer that leads nowhere in 15 ways (unknown format, behind or across the end of the data, wrapping, back to the directory that holds it or to the main one) in the main, Exif or thumbnail directory, first / middle / last x 4 containers x byte order x from memory, seekable and not: the look-up gives an error wherever the iterator stands, the collected view no position and one error",
        HOW * 3 * 3 * 4 * 2 * 3,
        |i| {
            let mut m = Mix(i);
            let be = m.b();
            let s = *m.of(&[Src::Mem, Src::Seek, Src::NoSeek]);
            let cont = m.d(4);
            let pos = m.d(3);
            let holder = m.d(3);
            let how = m.d(HOW);
            let build = |p: En| {
                let put = |mut v: Vec<En>| {
                    let at = [0, v.len() / 2, v.len()][pos];
                    v.insert(at, p.clone());
                    v
                };
                let at = |k: usize, v: Vec<En>| if holder == k { put(v) } else { v };
                let exif = dir(at(1, vec![en(0x829a, Val::URat(vec![(1, 250)])), en(0xa002, Val::U32(vec![4032]))]));
                let thumb = dir(at(2, vec![en(0x0103, Val::U16(vec![6])), en(0x0131, Val::s("soft ware"))]));
                let main = dir(at(0, vec![en(0x010f, Val::s("Some Maker")), sub(EXIF_PTR, exif), en(0x0112, Val::U16(vec![1]))]));
                tiff(&main.with_next(thumb), &Lay { tail: 80, ..Lay::new(be) }).bytes
            };
            let len = build(raw(GPS_PTR, 4, 1, 0)).len() as u32;
            let p = match how {
                0..=3 => raw(GPS_PTR, [0, 13, 0x0400, 0xffff][how], 1, 8),
                4..=12 => raw(GPS_PTR, 4, 1, [len - 1, len, len + 1, len + 1000, 0x0010_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff][how - 4]),
                13 => En { tag: GPS_PTR, k: Ek::SubRef(0) },
                // an array of values behind the end
                _ => raw(GPS_PTR, 4, 0x4000_0001, 8),
            };
            let tf = build(p);
            let f = match cont {
                0 => tf,
                1 => jpeg_with_exif(&tf),
                2 => png(&[chunk(b"eXIf", &tf)]),
                _ => Heif::new().build(&tf),
            };
            let key = format!("pointers:{i}");
            let d: Data = Arc::new(f);
            let mut it = match parse_raw(&mut MediaParser::new(), &d, s, Api::Exif) {
                Raw::Exif(it) => it,
                o => return viol(key, format!("from {s:?}: parse gives {:?}", o.norm())),
            };
            let ex: Exif = it.clone().into();
            for step in 0..9 {
                match it.parse_gps() {
                    Err(e) if eclass(&e) == eclass(&Error::Malformed { kind: MalformedKind::IfdEntry, message: String::new() }) => {}
                    g => return viol(key, format!("from {s:?}: after {step} entries parse_gps gives {g:?} for a pointer that leads nowhere")),
                }
                it.next();
            }
            if ex.gps_info().is_some() {
                return viol(key, format!("from {s:?}: collected GPS {:?} for a pointer that leads nowhere", ex.gps_info()));
            }
            let want = (if holder == 2 { 1 } else { 0 }, GPS_PTR);
            let errs: Vec<_> = ex.errors().iter().map(|e| (e.0.as_usize(), e.1.code())).collect();
            if errs != [want] {
                return viol(key, format!("from {s:?}: collected errors {errs:?}, the pointer is {want:?}"));
            }
            Ok(Stats::one(true, fp(&i)))
        },
        |i| format!("pointers {i}"),
    )
}

// ---------- decimal degrees and ISO 6709 text ----------

fn exact(v: [R; 3]) -> f64 {
    // sum of rationals evaluated with one rounding per term is exact to ~1e-13 here
    v[0].0 as f64 / v[0].1 as f64 + v[1].0 as f64 / (v[1].1 as f64 * 60.0) + v[2].0 as f64 / (v[2].1 as f64 * 3600.0)
}
/// independent reader of the text form: sign+degrees pairs, optional altitude
fn read_iso(s: &str) -> Option<(f64, f64, Option<f64>)> {
    let s = s.strip_suffix('/')?;
    let b = s.as_bytes();
    let idx: Vec<usize> = (0..b.len()).filter(|i| b[*i] == b'+' || b[*i] == b'-').collect();
    if idx.first() != Some(&0) || !(2..=3).contains(&idx.len()) {
        return None;
    }
    let lat = &s[..idx[1]];
    let (lon, alt) = if idx.len() == 3 {
        (&s[idx[1]..idx[2]], Some(s[idx[2]..].strip_suffix("CRSWGS_84")?))
    } else {
        (&s[idx[1]..], None)
    };
    // two digits of latitude degrees, three of longitude
    let digits = |x: &str, n: usize| x.as_bytes()[1..].iter().take_while(|c| c.is_ascii_digit()).count() == n;
    if !digits(lat, 2) || !digits(lon, 3) {
        return None;
    }
    Some((lat.parse().ok()?, lon.parse().ok()?, match alt {
        Some(a) => Some(a.parse().ok()?),
        None => None,
    }))
}
fn coords(t: Tier) -> Space {
    let degs: Vec<u32> = t.pick(vec![0, 1, 9, 10, 45, 89], (0..90).collect());
    let mins: Vec<R> = t.pick(
        vec![(0, 1), (1, 1), (59, 1), (59_999, 1000), (30, 7)],
        vec![(0, 1), (1, 1), (9, 1), (10, 1), (59, 1), (59_999, 1000), (59_999_999, 1_000_000), (30, 7), (1, 4_000_000_000)],
    );
    let secs: Vec<R> = t.pick(
        vec![(0, 1), (0, 9), (1, 100), (5999, 100), (59_999_999, 1_000_000), (36, 1000), (18, 1000), (4_294_967_295, 4_294_967_295)],
        vec![(0, 1), (0, 9), (1, 100), (5999, 100), (59_999_999, 1_000_000), (36, 1000), (18, 1000), (4_294_967_295, 4_294_967_295), (1, 4_294_967_295), (35_999, 1000), (1799, 100), (2, 3)],
    );
    let alts: Vec<Option<R>> = vec![None, Some((0, 1)), Some((1, 1)), Some((1, 3)), Some((8848, 1)), Some((1001, 1000)), Some((1, 2000)), Some((4_294_967, 1))];
    let n = degs.len() as u64 * mins.len() as u64 * secs.len() as u64 * alts.len() as u64 * 2 * 4;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let hemi = m.d(4);
        let below = m.b();
        let alt = *m.of(&alts);
        let s = *m.of(&secs);
        let mi = *m.of(&mins);
        let d = *m.of(&degs);
        (d, mi, s, alt, below, hemi)
    };
    let dec2 = dec.clone();
    Space::new(
        "coords",
        "degrees x minutes x seconds (including fractions that round up to the next minute, degree or 90) x altitude x sign x 4 hemispheres: decimal degrees against exact arithmetic, ISO text against decimal degrees, and the text parsed back",
        n,
        move |i| {
            let (d, mi, s, alt, below, hemi) = dec(i);
            let key = format!("coords:{d}:{mi:?}:{s:?}:{alt:?}:{below}:{hemi}");
            let lat3 = [(d, 1), mi, s];
            let lon3 = [(2 * d, 1), s, mi];
            // keep within the globe
            if exact(lat3) > 90.0 || exact(lon3) > 180.0 {
                return Ok(Stats::default());
            }
            let g = GPSInfo {
                latitude_ref: if hemi & 1 == 0 { LatRef::North } else { LatRef::South },
                latitude: dms(lat3),
                longitude_ref: if hemi & 2 == 0 { LonRef::East } else { LonRef::West },
                longitude: dms(lon3),
                altitude: match alt {
                    None => Altitude::Unknown,
                    Some(a) if below => Altitude::BelowSeaLevel(u(a)),
                    Some(a) => Altitude::AboveSeaLevel(u(a)),
                },
                speed: None,
            };
            let (wl, wo) = (
                exact(lat3) * if hemi & 1 == 0 { 1.0 } else { -1.0 },
                exact(lon3) * if hemi & 2 == 0 { 1.0 } else { -1.0 },
            );
            let close = |a: Option<f64>, b: f64| a.is_some_and(|a| (a - b).abs() < 1e-9);
            if !close(g.latitude_decimal(), wl) || !close(g.longitude_decimal(), wo) {
                return viol(key, format!("decimal degrees {:?}/{:?}, the rationals say {wl}/{wo}", g.latitude_decimal(), g.longitude_decimal()));
            }
            let wa = alt.map(|a| a.0 as f64 / a.1 as f64 * if below { -1.0 } else { 1.0 });
            if g.altitude_meters().map(|x| x + 0.0) != wa.map(|x| x + 0.0) {
                return viol(key, format!("altitude {:?}, the rational says {wa:?}", g.altitude_meters()));
            }
            let text = g.to_iso6709();
            let Some((tl, to, ta)) = read_iso(&text) else {
                return viol(key, format!("{text:?} is not an ISO 6709 text"));
            };
            if (tl - wl).abs() > 5.1e-6 || (to - wo).abs() > 5.1e-6 {
                return viol(key, format!("{text:?} denotes {tl},{to}; decimal degrees are {wl},{wo}"));
            }
            // the hemisphere is visible even for parts of a degree
            let neg = [text.starts_with('-'), hemi & 1 == 1];
            if neg[0] != neg[1] {
                return viol(key, format!("{text:?}: hemisphere differs from {:?}", g.latitude_ref));
            }
            match (ta, wa) {
                (None, None) => {}
                (None, Some(a)) if a == 0.0 => {}
                (Some(t), Some(a)) if (t - a).abs() <= 0.00051 => {}
                _ => return viol(key, format!("{text:?}: altitude {ta:?}, stored {wa:?}")),
            }
            // and back
            let back: GPSInfo = match text.parse() {
                Ok(b) => b,
                Err(e) => return viol(key, format!("{text:?} does not parse back: {e}")),
            };
            let half = 0.5 / 360_000.0 + 1e-9;
            if !back.latitude_decimal().is_some_and(|x| (x - tl).abs() <= half)
                || !back.longitude_decimal().is_some_and(|x| (x - to).abs() <= half)
            {
                return viol(key, format!("{text:?} parses to {:?},{:?}", back.latitude_decimal(), back.longitude_decimal()));
            }
            match (back.altitude_meters(), ta) {
                (None, None) => {}
                (Some(b), Some(t)) if (b - t).abs() <= 0.00051 => {}
                (b, t) => return viol(key, format!("{text:?}: parses to altitude {b:?}, denotes {t:?}")),
            }
            Ok(Stats::one(true, fp(&text)))
        },
        move |i| format!("{:?}", dec2(i)),
    )
}
/// ISO 6709 texts in every form, read directly and as a movie's location
fn iso_forms(t: Tier) -> Space {
    let degs: Vec<u32> = t.pick(vec![0, 7, 45, 89, 90], vec![0, 1, 7, 9, 10, 45, 59, 60, 89, 90]);
    let mins: Vec<u32> = t.pick(vec![0, 1, 59], vec![0, 1, 9, 10, 30, 59]);
    let secs: Vec<u32> = t.pick(vec![0, 9, 59], vec![0, 1, 9, 10, 30, 59]);
    let fracs: Vec<&str> = t.pick(vec!["", ".5", ".1281", ".99999"], vec!["", ".0", ".5", ".01", ".1281", ".99999", ".000001", ".123456789"]);
    let alts: Vec<&str> = vec!["", "+0CRSWGS_84", "+12CRSWGS_84", "-3.001CRSWGS_84", "+1.001CRSWGS_84", "+8848.86CRSWGS_84", "-0.0004CRSEPSG"];
    let n = degs.len() as u64 * mins.len() as u64 * secs.len() as u64 * fracs.len() as u64 * alts.len() as u64 * 3 * 4 * 2 * 2;
    let dec = move |i: u64| {
        let mut m = Mix(i);
        let slash = m.b();
        let letters = m.b();
        let hemi = m.d(4);
        let form = m.d(3);
        let al = *m.of(&alts);
        let fr = *m.of(&fracs);
        let s = *m.of(&secs);
        let mi = *m.of(&mins);
        let d = *m.of(&degs);
        let f: f64 = if fr.is_empty() { 0.0 } else { format!("0{fr}").parse().unwrap() };
        let part = |d: u32, w: usize| -> (String, f64) {
            match form {
                0 => (format!("{d:0w$}{fr}"), d as f64 + f),
                1 => (format!("{d:0w$}{mi:02}{fr}"), d as f64 + (mi as f64 + f) / 60.0),
                _ => (format!("{d:0w$}{mi:02}{s:02}{fr}"), d as f64 + mi as f64 / 60.0 + (s as f64 + f) / 3600.0),
            }
        };
        let (a, lat) = part(d, 2);
        let (b, lon) = part(2 * d, 3);
        let sg = |neg: bool, p: &'static str, n: &'static str| match (letters, neg) {
            (true, false) => p,
            (true, true) => n,
            (false, false) => "+",
            (false, true) => "-",
        };
        let text = format!(
            "{}{a}{}{b}{al}{}",
            sg(hemi & 1 == 1, "N", "S"),
            sg(hemi & 2 == 2, "E", "W"),
            if slash { "/" } else { "" }
        );
        let alt: Option<f64> = al.split("CRS").next().filter(|s| !s.is_empty()).map(|s| s.parse().unwrap());
        (
            text,
            lat * if hemi & 1 == 1 { -1.0 } else { 1.0 },
            lon * if hemi & 2 == 2 { -1.0 } else { 1.0 },
            alt,
        )
    };
    let dec2 = dec.clone();
    Space::new(
        "iso-forms",
        "ISO 6709 texts: degrees / degrees+minutes / degrees+minutes+seconds, each with fractions, letters or signs, altitude with reference system, with and without the end mark: parsed directly, and as location of MP4 (udta) and MOV (metadata key)",
        n,
        move |i| {
            let (text, lat, lon, alt) = dec(i);
            let key = format!("iso-forms:{text}");
            if lat.abs() > 90.0 {
                return Ok(Stats::default());
            }
            let g: GPSInfo = match text.parse() {
                Ok(g) => g,
                Err(e) => return viol(key, format!("{text:?} is refused: {e}")),
            };
            let half = 0.5 / 360_000.0 + 1e-9;
            if !g.latitude_decimal().is_some_and(|x| (x - lat).abs() <= half) || !g.longitude_decimal().is_some_and(|x| (x - lon).abs() <= half) {
                return viol(key, format!("{text:?} gives {:?},{:?}; it denotes {lat},{lon}", g.latitude_decimal(), g.longitude_decimal()));
            }
            // the hemispheres are those of the text; nothing lies south of zero
            for (n, neg) in [(lat, g.latitude_ref == LatRef::South), (lon, g.longitude_ref == LonRef::West)] {
                let tiny = n.abs() <= half && n.is_sign_negative();
                if neg != (n < 0.0) && !tiny {
                    return viol(key, format!("{text:?} gives {:?} and {:?}", g.latitude_ref, g.longitude_ref));
                }
            }
            match (g.altitude_meters(), alt) {
                (None, None) => {}
                (Some(a), Some(b)) if (a - b).abs() <= 0.00051 => {}
                (a, b) => return viol(key, format!("{text:?}: altitude {a:?}, it denotes {b:?}")),
            }
            let mut st = Stats::one(true, fp(&format!("{g:?}")));
            if i % 16 < 4 {
                for (nm, moov) in [
                    ("udta", cat(&[mvhd(0, 3_790_000_000, 600, 600), udta(&[xyz(&text)], false)])),
                    ("keys", cat(&[mvhd(0, 3_790_000_000, 600, 600), qt_meta(&[("com.apple.quicktime.location.ISO6709", 1, text.clone().into_bytes())], &[0])])),
                ] {
                    let d: Data = Arc::new(mp4(&bx(b"moov", &moov), 0, 100, nm == "keys"));
                    match parse_raw(&mut MediaParser::new(), &d, Src::Mem, Api::Track) {
                        Raw::Track(t) => {
                            if t.gps_info() != Some(&g) {
                                return viol(key, format!("movie location ({nm}) gives {:?}, the text denotes {g:?}", t.gps_info()));
                            }
                            if t.get(TrackInfoTag::GpsIso6709).and_then(|v| v.as_str()) != Some(text.as_str()) {
                                return viol(key, format!("movie location text ({nm}) is {:?}", t.get(TrackInfoTag::GpsIso6709)));
                            }
                            st.note(true, fp(&format!("{:?}", t.gps_info())));
                        }
                        o => return viol(key, format!("movie ({nm}) gives {:?}", o.norm())),
                    }
                }
            }
            Ok(st)
        },
        move |i| dec2(i).0,
    )
}

pub fn spaces(t: Tier) -> Spec {
    (
        "exploration",
        vec![presence(t), orders(t), neighbours(), crowded(t), places(t), absent(), pointers(), coords(t), iso_forms(t)],
        vec![
            "a GPS tag occurs once in its directory; positions lie on the globe and have non-zero denominators where a decimal form is asked for",
            "an altitude in an ISO 6709 text is one followed by a reference system (the form the standard requires)",
        ],
    )
}
