//! C15 — Matroska/WebM: track metadata from any element layout.
use super::c14::{verify_track, Facts};
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::outcome::*;
use chrono::{DateTime, TimeZone, Utc};
use nom_exif::EntryValue;
use std::sync::Arc;

const SEGMENT: u64 = 0x18538067;
const SEEK_HEAD: u64 = 0x114D9B74;
const INFO: u64 = 0x1549A966;
const TRACKS: u64 = 0x1654AE6B;
const SCALE: u64 = 0x2AD7B1;
const DURATION: u64 = 0x4489;
const DATE: u64 = 0x4461;
const ENTRY: u64 = 0xAE;
const VIDEO: u64 = 0xE0;
const W: u64 = 0xB0;
const H: u64 = 0xBA;

/// File of the given segment children, with enough payload behind them to be
/// longer than the detection window.
fn mkv(doc: &str, parts: &[Vec<u8>]) -> Vec<u8> {
    crate::f::mkv(doc, &[parts, &[cluster(150)]].concat())
}

const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek];

/// Milliseconds denoted by a duration in ticks of `scale` ns: exact rational arithmetic.
/// `num / 2^sh` ticks.
fn ms(num: u64, sh: u32, scale: u64) -> Option<EntryValue> {
    let p = num as u128 * scale as u128;
    u64::try_from(p / (1_000_000u128 << sh)).ok().map(EntryValue::U64)
}
fn created(ns: i64) -> EntryValue {
    let e: DateTime<Utc> = Utc.with_ymd_and_hms(2001, 1, 1, 0, 0, 0).unwrap();
    EntryValue::DateTime((e + chrono::Duration::nanoseconds(ns)).fixed_offset())
}
fn dims(f: &mut Facts, w: u32, h: u32) {
    f.insert("Width", EntryValue::U32(w));
    f.insert("Height", EntryValue::U32(h));
}
/// an element of `id` with a data size of `w` bytes (widened if it doesn't fit)
fn e(id: u64, body: &[u8], w: usize) -> Vec<u8> {
    elw(id, body, w.max(min_w(body.len() as u64)))
}
const D: i64 = 726_851_521_123_456_789;

// ------------------------------------------------------------------ fields

fn info_fields() -> Space {
    const SC: [(u64, bool); 9] = [(1 << 33, true), (0x12_3456_789a_bc00, true), (1, true), (1000, true), (1_000_000, true), (0x00ff_ffff, true), (0xffff_ffff, true), (1_000_000_000, true), (0, false)];
    // (numerator, binary fraction)
    const DU: [(u64, u32); 9] = [(0, 0), (1, 0), (5000, 0), (12_345_677, 0), (0xff_ffff, 0), (3, 1), (1_000_001, 3), (0x1_0000_0000, 0), (u64::MAX, 0)];
    const DT: [i64; 6] = [0, 1, -1, D, -D, 4_000_000_000_000_000_000];
    Space::new(
        "info-fields",
        "9 timestamp scales (or none) x every integer width 1..=8 that holds them x 9 durations x 4- and 8-byte floats x 6 dates (before and after 2001)",
        9 * 8 * 9 * 2 * 6,
        |i| {
            let mut m = Mix(i);
            let (sc, has) = *m.of(&SC);
            let wi = m.d(8) + 1;
            let (num, sh) = *m.of(&DU);
            let dbl = m.b();
            let dt = *m.of(&DT);
            if has && wi < 8 && sc >> (8 * wi) != 0 {
                return Ok(Stats::default());
            }
            let big = num == u64::MAX;
            let val = num as f64 / (1u64 << sh) as f64;
            if !dbl && (val as f32) as f64 != val {
                return Ok(Stats::default());
            }
            // keep to products a double holds exactly
            if !big && (num as u128 * if has { sc } else { 1_000_000 } as u128) >> 53 != 0 {
                return Ok(Stats::default());
            }
            let dur = if big {
                // so long that no number of milliseconds expresses it
                if dbl { 1e300f64.to_be_bytes().to_vec() } else { 3e38f32.to_be_bytes().to_vec() }
            } else if dbl {
                val.to_be_bytes().to_vec()
            } else {
                (val as f32).to_be_bytes().to_vec()
            };
            let mut b = vec![];
            if has {
                b.push(e(SCALE, &uint_be(sc, wi), 1));
            }
            b.push(e(DURATION, &dur, 1));
            b.push(e(DATE, &dt.to_be_bytes(), 1));
            let f = mkv("matroska", &[e(INFO, &cat(&b), 1), mk_tracks(&[mk_video(64, 32)])]);
            let mut w = Facts::new();
            dims(&mut w, 64, 32);
            w.insert("CreateDate", created(dt));
            if !big {
                w.insert("DurationMs", ms(num, sh, if has { sc } else { 1_000_000 }).unwrap());
            }
            verify_track("info-fields", f, &w, &SOME)
        },
        |i| {
            let mut m = Mix(i);
            format!("scale {:?} in {} bytes, duration {:?} double {}, date {}", m.of(&SC), m.d(8) + 1, m.of(&DU), m.b(), m.of(&DT))
        },
    )
}

/// Dimensions in every integer width, every order of the video children, with
/// padding and unknown elements of every id length in between.
fn video_fields() -> Space {
    const V: [u64; 9] = [1, 0x7f, 0xff, 0x100, 0xffff, 0x1_0000, 0x00ff_ffff, 0xffff_ffff, 0x1_0000_0000];
    fn extra(k: usize) -> Vec<u8> {
        match k {
            0 => vec![],
            1 => el(0xEC, &[]),
            2 => e(0xEC, &[0xB0, 0x81, 9], 4),
            3 => el(0xBF, &[0xBA, 0x81, 7, 7]),
            4 => el(0x54B0, &[0, 9]),
            5 => el(0x9A, &[1]),
            6 => elw(0x55B0, &cat(&[el(0xB0, &[77]), el(0xBA, &[78])]), 3),
            _ => elw(0x1F3F_FFF0, &[0xB0, 0x81, 9], 8),
        }
    }
    Space::new(
        "video-fields",
        "9 x 9 widths and heights over every field boundary (one that no 32-bit number holds must be left out) x integer widths 1..=8 x both orders x 8 kinds of neighbours (padding, checksum, unknown ids of 1 to 4 bytes, nested look-alikes) in 3 places",
        81 * 8 * 2 * 8 * 3,
        |i| {
            let mut m = Mix(i);
            let (wv, hv) = (*m.of(&V), *m.of(&V));
            let wi = m.d(8) + 1;
            let swap = m.b();
            let x = extra(m.d(8));
            let at = m.d(3);
            if wi < 8 && (wv >> (8 * wi) != 0 || hv >> (8 * wi) != 0) {
                return Ok(Stats::default());
            }
            let mut p = vec![el(W, &uint_be(wv, wi)), el(H, &uint_be(hv, wi))];
            if swap {
                p.swap(0, 1);
            }
            p.insert(at, x.clone());
            let tr = el(ENTRY, &cat(&[el(0xD7, &[1]), el(0x83, &[1]), x, el(VIDEO, &cat(&p))]));
            let f = mkv("webm", &[mk_info(Some(5000.0), None, None), mk_tracks(&[tr])]);
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(5000));
            if let (Ok(a), Ok(b)) = (u32::try_from(wv), u32::try_from(hv)) {
                dims(&mut w, a, b);
            }
            verify_track("video-fields", f, &w, &SOME)
        },
        |i| {
            let mut m = Mix(i);
            format!("{} x {} in {} bytes, swapped {}, neighbour {} at {}", m.of(&V), m.of(&V), m.d(8) + 1, m.b(), m.d(8), m.d(3))
        },
    )
}

/// Every width of the data-size field, independently at each nesting level.
fn sizes(t: Tier) -> Space {
    let ws: &'static [usize] = t.pick(&[1, 2, 4, 8], &[1, 2, 3, 4, 5, 6, 7, 8]);
    let n = ws.len() as u64;
    Space::new(
        "size-widths",
        format!("data sizes of {ws:?} bytes, independently for the segment information, the duration, the track list, the track, the video element and the width, with the segment size known or marked unknown in {ws:?} bytes"),
        n.pow(5) * 2 * n,
        move |i| {
            let mut m = Mix(i);
            let unknown = m.b();
            let sw = *m.of(ws);
            let a = *m.of(ws);
            let b = *m.of(ws);
            let c = *m.of(ws);
            let d = *m.of(ws);
            let g = *m.of(ws);
            let info = e(INFO, &cat(&[e(SCALE, &uint_be(1_000_000, 3), b), e(DURATION, &7.5f32.to_be_bytes(), a), e(0x4D80, b"muxer", d), e(DATE, &D.to_be_bytes(), c)]), c);
            let tr = e(
                TRACKS,
                &e(ENTRY, &cat(&[e(0xD7, &[1], a), e(VIDEO, &cat(&[e(W, &[1, 0x40], d), e(H, &[0xf0], g)]), b)]), d),
                if a == b { g } else { a },
            );
            let body = cat(&[info, void(3), tr, cluster(150)]);
            let seg = if unknown {
                let mut s = eid(SEGMENT);
                // all value bits set: size not known
                s.extend_from_slice(&vint((1u64 << (7 * sw)) - 1, sw));
                s.extend(body);
                s
            } else {
                e(SEGMENT, &body, sw)
            };
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(7));
            w.insert("CreateDate", created(D));
            dims(&mut w, 0x140, 0xf0);
            verify_track("sizes", cat(&[ebml_head("webm"), seg]), &w, &SOME[..2])
        },
        move |i| {
            let mut m = Mix(i);
            format!("unknown {} segment {} others {:?}", m.b(), m.of(ws), (0..5).map(|_| *m.of(ws)).collect::<Vec<_>>())
        },
    )
}

// ------------------------------------------------------------------ orders

/// Children of the segment information in every order, every subset.
fn info_orders(t: Tier) -> Space {
    let parts: Vec<(&'static str, Vec<u8>)> = vec![
        ("scale", el(SCALE, &uint_be(500_000, 3))),
        ("duration", el(DURATION, &9001.0f64.to_be_bytes())),
        ("date", el(DATE, &D.to_be_bytes())),
        ("muxer", el(0x4D80, b"\x44\x89\x84abcd")),
        ("void", el(0xEC, &cat(&[el(DURATION, &1.0f64.to_be_bytes())]))),
        ("crc", el(0xBF, &[1, 2, 3, 4])),
        ("unknown", elw(0x73A4, &el(DATE, &[0; 8]), 8)),
    ];
    let n = t.pick(6usize, 7);
    let names: Vec<&'static str> = parts.iter().map(|p| p.0).collect();
    Space::new(
        "info-orders",
        format!("every order of every subset of {n} children of the segment information ({})", names[..n].join(", ")),
        fact(n) << n,
        move |i| {
            let set = i % (1 << n);
            let p: Vec<usize> = perm(n, i >> n).into_iter().filter(|k| set >> k & 1 == 1).collect();
            // each arrangement of a subset once
            let absent: Vec<usize> = perm(n, i >> n).into_iter().filter(|k| set >> k & 1 == 0).collect();
            if absent.windows(2).any(|x| x[0] > x[1]) || perm(n, i >> n)[..p.len()] != p[..] {
                return Ok(Stats::default());
            }
            let info = el(INFO, &p.iter().flat_map(|k| parts[*k].1.clone()).collect::<Vec<_>>());
            let mut w = Facts::new();
            dims(&mut w, 64, 32);
            let has = |k: usize| set >> k & 1 == 1;
            if has(1) {
                w.insert("DurationMs", EntryValue::U64(if has(0) { 4500 } else { 9001 }));
            }
            if has(2) {
                w.insert("CreateDate", created(D));
            }
            verify_track("info-orders", mkv("matroska", &[info, mk_tracks(&[mk_video(64, 32)])]), &w, &SOME[..2])
        },
        move |i| {
            let set = i % (1 << n);
            format!("{:?}", perm(n, i >> n).into_iter().filter(|k| set >> k & 1 == 1).map(|k| names[k]).collect::<Vec<_>>())
        },
    )
}

/// Children of the segment in every order, with a seek head naming any subset
/// of them (or none), with any width of the positions.
fn segment_orders(t: Tier) -> Space {
    const IDS: [(u64, &str); 7] = [
        (SEEK_HEAD, "seek head"),
        (INFO, "info"),
        (TRACKS, "tracks"),
        (0x1F43B675, "cluster"),
        (0x1254C367, "tags"),
        (0xEC, "void"),
        (0x1C53BB6B, "cues"),
    ];
    let n = t.pick(6usize, 7);
    // which entries the seek head has: none, info, tracks, both, all, all reversed, with padding and foreign elements
    const SEEKS: usize = 12;
    const WID: [usize; 4] = [2, 3, 4, 8];
    fn entry(id: u64, pos: u64, w: usize, swap: bool) -> Vec<u8> {
        let mut p = vec![el(0x53AB, &eid(id)), el(0x53AC, &uint_be(pos, w))];
        if swap {
            p.swap(0, 1);
        }
        el(0x4DBB, &cat(&p))
    }
    fn head(kind: usize, w: usize, pos: &dyn Fn(u64) -> u64) -> Vec<u8> {
        let en = |id: u64| entry(id, pos(id), w, kind == 8);
        let all: Vec<u64> = IDS[1..5].iter().map(|x| x.0).collect();
        let b: Vec<Vec<u8>> = match kind {
            0 => vec![],
            1 => vec![en(INFO)],
            2 => vec![en(TRACKS)],
            3 => vec![en(INFO), en(TRACKS)],
            4 | 8 => all.iter().map(|x| en(*x)).collect(),
            5 => all.iter().rev().map(|x| en(*x)).collect(),
            6 => vec![el(0xBF, &[0; 4]), en(TRACKS), void(5), en(INFO), void(0)],
            // stale: another element lies where it says
            9 => vec![entry(INFO, pos(TRACKS), w, false), entry(TRACKS, pos(INFO), w, false)],
            10 => vec![entry(INFO, pos(0x1F43B675), w, false), en(TRACKS)],
            11 => vec![en(INFO), entry(TRACKS, pos(0x1254C367), w, false)],
            // an entry without a position, one of an unknown kind
            _ => vec![el(0x4DBB, &el(0x53AB, &eid(INFO))), el(0x4DBC, &[1, 2]), en(INFO), en(TRACKS)],
        };
        el(SEEK_HEAD, &cat(&b))
    }
    let total = fact(n) * (SEEKS as u64 * 4 + 1);
    Space::new(
        "segment-orders",
        format!("every order of {n} segment children ({}) x no seek head or {SEEKS} kinds of seek head (3 of them stale: where one says, another element lies) x 4 position widths", IDS[..n].iter().map(|x| x.1).collect::<Vec<_>>().join(", ")),
        total,
        move |i| {
            let p = perm(n, i % fact(n));
            let k = i / fact(n);
            let info = mk_info(Some(1234.0), Some(1_000_000), Some(D));
            let tracks = mk_tracks(&[mk_audio(), mk_video(1920, 1080)]);
            let (kind, w) = if k == 0 { (usize::MAX, 8) } else { (((k - 1) % SEEKS as u64) as usize, WID[((k - 1) / SEEKS as u64) as usize]) };
            let make = |pos: &dyn Fn(u64) -> u64| -> Vec<Vec<u8>> {
                p.iter()
                    .map(|c| match IDS[*c].0 {
                        SEEK_HEAD if kind == usize::MAX => vec![],
                        SEEK_HEAD => head(kind, w, pos),
                        INFO => info.clone(),
                        TRACKS => tracks.clone(),
                        // look-alikes inside elements that are not to be looked into
                        id => el(id, &cat(&[mk_info(Some(1.0), None, Some(0)), mk_tracks(&[mk_video(3, 4)])])),
                    })
                    .collect()
            };
            let first = make(&|_| 1);
            let pos = |id: u64| -> u64 {
                let at = p.iter().position(|c| IDS[*c].0 == id).unwrap();
                first[..at].iter().map(|x| x.len() as u64).sum()
            };
            let parts = make(&pos);
            let mut f = Facts::new();
            f.insert("DurationMs", EntryValue::U64(1234));
            f.insert("CreateDate", created(D));
            dims(&mut f, 1920, 1080);
            verify_track("segment-orders", mkv("webm", &parts), &f, &SOME[..2])
        },
        move |i| format!("order {:?} seek head kind {}", perm(n, i % fact(n)).iter().map(|c| IDS[*c].1).collect::<Vec<_>>(), i / fact(n)),
    )
}

/// Sequences of tracks: dimensions of the first complete video track.
fn tracks(t: Tier) -> Space {
    let v = |b: &[Vec<u8>]| el(ENTRY, &cat(&[el(0xD7, &[1]), el(0x83, &[1]), el(VIDEO, &cat(b))]));
    let k: Vec<(&'static str, Vec<u8>, Option<(u32, u32)>)> = vec![
        ("video", mk_video(640, 480), Some((640, 480))),
        ("other video", v(&[el(H, &[99]), void(1), el(W, &[98])]), Some((98, 99))),
        ("audio", mk_audio(), None),
        ("subtitles", el(ENTRY, &cat(&[el(0xD7, &[3]), el(0x83, &[0x11]), el(0x86, b"S_TEXT/UTF8")])), None),
        ("width only", v(&[el(W, &[5])]), None),
        ("height only", v(&[el(H, &[5])]), None),
        ("empty video", v(&[]), None),
        ("empty track", el(ENTRY, &[]), None),
        ("void", el(0xEC, &mk_video(7, 8)), None),
        ("checksum", el(0xBF, &[0xAE, 0x81, 0, 1]), None),
        ("unreadable width", v(&[el(W, &[1; 9]), el(H, &[5])]), None),
    ];
    let n = k.len() as u64;
    let max = t.pick(3u32, 5);
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (0..l).map(|_| m.d(n)).collect::<Vec<_>>()
    };
    let names: Vec<&'static str> = k.iter().map(|x| x.0).collect();
    Space::new(
        "tracks",
        format!("every sequence of up to {max} elements of {n} kinds in the track list: the dimensions are those of the first video track that has both, absent if there is none"),
        total,
        move |i| {
            let s = dec(i);
            let tr = mk_tracks(&s.iter().map(|x| k[*x].1.clone()).collect::<Vec<_>>());
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(5000));
            if let Some((a, b)) = s.iter().find_map(|x| k[*x].2) {
                dims(&mut w, a, b);
            }
            verify_track("tracks", mkv("matroska", &[mk_info(Some(5000.0), None, None), tr]), &w, &SOME[..2])
        },
        move |i| format!("{:?}", dec(i).iter().map(|x| names[*x]).collect::<Vec<_>>()),
    )
}

/// Files with very many, or very large, elements that are not asked for.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=72).chain((75..=300).step_by(15)).chain([255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 10_000, 20_000]).collect(),
        Tier::Thorough => (0..=600).chain((601..=20_000).step_by(97)).chain([1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097, 32_768, 65_535, 65_536, 70_000, 300_000]).collect(),
    });
    const KINDS: u64 = 17;
    let n2 = ns.clone();
    Space::new(
        "crowded",
        "0 to 20000 (thorough 300000) of: sound tracks ahead of the video track, elements ahead of the duration, clusters ahead of the information, entries of the seek head, elements of a track ahead of its video element, elements ahead of the width, clusters between information and tracks, extensions of the document type, or as many bytes of: padding in the seek head ahead of, between and behind its entries (the rest behind a cluster of unknown size), padding behind the document type, a sound track's private data ahead of the video track, an element ahead of the duration, the video track's private data, a text of the segment information, padding between the tracks: the facts are the same",
        KINDS * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (kind, n) = (m.d(KINDS), *m.of(&ns));
            if (kind < 7 || kind == 12) && n > 70_000 {
                return Ok(Stats::default());
            }
            let only = |k: usize, b: Vec<u8>| if k == kind { b.repeat(n) } else { vec![] };
            let size = |k: usize, id: u64| if k == kind && n > 0 { el(id, &filler(n)) } else { vec![] };
            let info = el(INFO, &cat(&[only(1, el(0x4D80, b"lib")), size(8, 0x7BA9), el(SCALE, &1_000_000u64.to_be_bytes()), size(10, 0x5741), el(DURATION, &1234f64.to_be_bytes()), el(DATE, &D.to_be_bytes())]));
            let video = el(ENTRY, &cat(&[el(0xD7, &[1]), only(4, el(0x536E, b"name")), size(9, 0x63A2), el(VIDEO, &cat(&[only(5, el(0x53B8, &[0])), el(W, &[7, 128]), el(H, &[4, 56])]))]));
            let sound = if kind == 7 && n > 0 { el(ENTRY, &cat(&[el(0xD7, &[2]), el(0x83, &[2]), el(0x63A2, &filler(n))])) } else { vec![] };
            let tracks = el(TRACKS, &cat(&[only(0, mk_audio()), sound, size(11, 0xEC), video]));
            let head = if kind == 3 || kind >= 14 {
                let one = el(0x4DBB, &cat(&[el(0x53AB, &eid(0x1254C367)), el(0x53AC, &uint_be(40, 4))]));
                let entry = |id: u64, p: u64| el(0x4DBB, &cat(&[el(0x53AB, &eid(id)), el(0x53AC, &uint_be(p, 8))]));
                let pad = if kind >= 14 { void(n) } else { one.repeat(n) };
                let mk = |a: u64, b: u64| {
                    let mut v = vec![entry(INFO, a), entry(TRACKS, b)];
                    v.insert(kind.saturating_sub(14), pad.clone());
                    el(SEEK_HEAD, &cat(&v))
                };
                let l = mk(0, 0).len() as u64;
                // only the seek head knows what lies behind a cluster of unknown size
                let mut c = vec![0x1F, 0x43, 0xB6, 0x75, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff];
                c.extend_from_slice(&filler(50));
                cat(&[mk(l + c.len() as u64, l + c.len() as u64 + info.len() as u64), c])
            } else {
                vec![]
            };
            let parts = [only(2, cluster(3)), head, info, only(6, cluster(3)), tracks, cluster(100)];
            let mut f = Facts::new();
            f.insert("DurationMs", EntryValue::U64(1234));
            f.insert("CreateDate", created(D));
            dims(&mut f, 1920, 1080);
            let file = mkv("webm", &parts);
            let file = if kind == 12 || kind == 13 {
                let more = if kind == 12 { el(0x4281, &cat(&[el(0x4283, b"name"), el(0x4284, &[1])])).repeat(n) } else { void(n) };
                // the header is replaced by a longer one
                let old = ebml_head("webm");
                let body = cat(&[el(0x4286, &[1]), el(0x4282, b"webm"), el(0x4287, &[4]), more]);
                cat(&[el(0x1A45DFA3, &body), file[old.len()..].to_vec()])
            } else {
                file
            };
            verify_track(&format!("crowded:{kind}:{n}"), file, &f, &SOME[..2])
        },
        move |i| {
            let mut m = Mix(i);
            format!("kind {}, {}", m.d(KINDS), m.of(&n2))
        },
    )
}

/// Values that are present but cannot be read cost only themselves.
fn unreadable() -> Space {
    const N: usize = 5;
    fn bad(k: usize, v: usize) -> Vec<u8> {
        let id = [SCALE, DURATION, DATE][k];
        match v {
            1 => el(id, &[1; 9]),
            2 if k == 1 => el(id, &[1, 2, 3]),
            2 => el(id, &[1; 12]),
            3 if k == 1 => el(id, &f64::NAN.to_be_bytes()),
            3 => el(id, &[7; 16]),
            4 if k == 1 => el(id, &(-1.0f64).to_be_bytes()),
            _ => el(id, &[3; 11]),
        }
    }
    Space::new(
        "unreadable",
        "segment information whose scale, duration and date are each good, missing or unreadable in 4 ways (wrong length, not a number, negative)",
        (N + 1).pow(3) as u64,
        |i| {
            let mut m = Mix(i);
            let c: Vec<usize> = (0..3).map(|_| m.d(N as u64 + 1)).collect();
            let good = [el(SCALE, &uint_be(2_000_000, 3)), el(DURATION, &50.0f64.to_be_bytes()), el(DATE, &D.to_be_bytes())];
            let b: Vec<Vec<u8>> = (0..3)
                .map(|k| match c[k] {
                    0 => good[k].clone(),
                    5 => vec![],
                    v => bad(k, v),
                })
                .collect();
            let mut w = Facts::new();
            dims(&mut w, 64, 32);
            if c[1] == 0 {
                // an unreadable scale counts as absent, which means one millisecond
                w.insert("DurationMs", EntryValue::U64(if c[0] == 0 { 100 } else { 50 }));
            }
            if c[2] == 0 {
                w.insert("CreateDate", created(D));
            }
            verify_track("unreadable", mkv("webm", &[el(INFO, &cat(&b)), mk_tracks(&[mk_video(64, 32)])]), &w, &SRCS)
        },
        |i| {
            let mut m = Mix(i);
            format!("scale {} duration {} date {}", m.d(6), m.d(6), m.d(6))
        },
    )
}

/// Where information and tracks lie relative to the read windows.
fn places(t: Tier) -> Space {
    let pts = super::c02::shift_points(t);
    let n = pts.len() as u64;
    let p2 = pts.clone();
    Space::new(
        "places",
        format!("{n} distances x 10 arrangements: payload before the information, between information and tracks, before both, inside the information, inside the track; behind clusters with a seek head; both, or the tracks, behind a cluster of unknown size with a seek head whose entries give the identifier or the position first"),
        n * 10,
        move |i| {
            let mut m = Mix(i);
            let k = m.d(10);
            let d = *m.of(&pts);
            let info = mk_info(Some(1234.0), Some(1_000_000), Some(D));
            let tr = mk_tracks(&[mk_audio(), mk_video(1920, 1080)]);
            let f = match k {
                0 => mkv("webm", &[void(d), info, tr]),
                1 => mkv("webm", &[info, cluster(d), tr]),
                2 => mkv("webm", &[void(d / 2), tr, cluster(d - d / 2), info]),
                3 => {
                    let i2 = el(INFO, &cat(&[void(d), el(DURATION, &1234f64.to_be_bytes()), el(DATE, &D.to_be_bytes())]));
                    mkv("webm", &[tr, i2])
                }
                4 => {
                    let v = el(ENTRY, &cat(&[el(0x63A2, &filler(d)), el(VIDEO, &cat(&[el(W, &[7, 0x80]), el(H, &[4, 0x38])]))]));
                    mkv("webm", &[info, mk_tracks(&[mk_audio(), v])])
                }
                6..=9 => {
                    // the position of an entry in front of what it is the position of
                    let seek_head = |v: &[(u64, u64)]| -> Vec<u8> {
                        if k < 8 {
                            return seek_head(v);
                        }
                        el(SEEK_HEAD, &cat(&v.iter().map(|x| el(0x4DBB, &cat(&[el(0x53AC, &uint_be(x.1, 8)), el(0x53AB, &eid(x.0))]))).collect::<Vec<_>>()))
                    };
                    // a cluster of unknown size: only the seek head knows what lies behind it
                    let mut open = vec![0x1F, 0x43, 0xB6, 0x75, 0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff];
                    open.extend_from_slice(&filler(d));
                    let sh = seek_head(&[(INFO, 0), (TRACKS, 0)]).len() as u64;
                    if k % 2 == 0 {
                        let at = sh + open.len() as u64;
                        let s = seek_head(&[(TRACKS, at), (INFO, at + tr.len() as u64)]);
                        mkv("webm", &[s, open, tr, info, cluster(100)])
                    } else {
                        let s = seek_head(&[(INFO, sh), (TRACKS, sh + info.len() as u64 + open.len() as u64)]);
                        mkv("webm", &[s, info, open, tr])
                    }
                }
                _ => {
                    let sh = seek_head(&[(INFO, 0), (TRACKS, 0)]).len() as u64;
                    let at = sh + cluster(d).len() as u64;
                    let s = seek_head(&[(TRACKS, at), (INFO, at + tr.len() as u64)]);
                    mkv("webm", &[s, cluster(d), tr, info, cluster(100)])
                }
            };
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(1234));
            w.insert("CreateDate", created(D));
            dims(&mut w, 1920, 1080);
            verify_track("places", f, &w, &SRCS)
        },
        move |i| format!("arrangement {} distance {}", i % 10, p2[(i / 10) as usize]),
    )
}

/// The file is cut off behind its information and tracks.
fn cut() -> Space {
    let info = mk_info(Some(1234.0), Some(1_000_000), Some(D));
    let tr = mk_tracks(&[mk_audio(), mk_video(1920, 1080)]);
    let sh = seek_head(&[(INFO, 0), (TRACKS, 0)]).len() as u64;
    let s = seek_head(&[(TRACKS, sh), (INFO, sh + tr.len() as u64)]);
    let rest = [void(7), cluster(60), el(0x1254C367, &filler(40))].concat();
    let files = [
        mkv("matroska", &[info.clone(), tr.clone(), rest.clone()]),
        mkv("webm", &[tr.clone(), void(3), info.clone(), rest.clone()]),
        mkv("webm", &[s, tr, info, rest.clone()]),
    ];
    let n = rest.len();
    Space::new(
        "cut",
        "3 files (information and tracks in either order, with and without a seek head) cut off at every byte behind both",
        3 * (n as u64 + 1),
        move |i| {
            let mut m = Mix(i);
            let f = m.of(&files);
            let k = m.0 as usize;
            let mut w = Facts::new();
            w.insert("DurationMs", EntryValue::U64(1234));
            w.insert("CreateDate", created(D));
            dims(&mut w, 1920, 1080);
            verify_track("cut", f[..f.len() - n + k].to_vec(), &w, &SRCS)
        },
        |i| format!("file {} cut {} bytes behind", i % 3, i / 3),
    )
}

/// Elements that are not to be looked into hold what is looked for, or its inside.
fn decoys() -> Space {
    const IDS: [(u64, &str); 10] =
        [(0xEC, "padding"), (0xBF, "checksum"), (0x1254C367, "tags"), (0x1941A469, "attachments"), (0x1043A770, "chapters"), (0x465C, "file data"), (0x63A2, "codec data"), (0x6D80, "encodings"), (0x1F00_0001, "unknown"), (0xFE, "unknown short")];
    const PLACES: u64 = 11;
    const KINDS: u64 = 16;
    Space::new(
        "decoys",
        "an element of 10 kinds (padding, checksum, tags, attachments, unknown, ...) holding one of 16 look-alikes (the information, the track list, a track, its video element, the width, duration or date, a seek head, each as a whole and its inside alone, and pairs of them) in 11 places (around and in the information, the track list, a track and its video element) x the real facts there, without the information's, or without the video's",
        IDS.len() as u64 * PLACES * KINDS * 3,
        |i| {
            let mut m = Mix(i);
            let have = m.d(3);
            let (id, _) = *m.of(&IDS);
            let place = m.d(PLACES);
            let kind = m.d(KINDS);
            let wh = cat(&[el(W, &[3]), el(H, &[4])]);
            let vid = el(VIDEO, &wh);
            let tbody = cat(&[el(0xD7, &[1]), el(0x83, &[1]), vid.clone()]);
            let track = el(ENTRY, &tbody);
            let ibody = cat(&[el(SCALE, &uint_be(1_000_000, 3)), el(DURATION, &77f64.to_be_bytes()), el(DATE, &0i64.to_be_bytes())]);
            let info = el(INFO, &ibody);
            let seeks = cat(&[seek_head(&[(INFO, 5), (TRACKS, 9)])]);
            let inside = match kind {
                0 => info,
                1 => ibody,
                2 => mk_tracks(&[track]),
                3 => track,
                4 => tbody,
                5 => vid,
                6 => wh,
                7 => el(W, &[3]),
                8 => el(DURATION, &77f64.to_be_bytes()),
                9 => el(DATE, &0i64.to_be_bytes()),
                10 => cat(&[info, mk_tracks(&[track])]),
                11 => seeks,
                12 => vec![3],
                13 => 77f64.to_be_bytes().to_vec(),
                14 => cat(&[track.clone(), track]),
                _ => el(SEGMENT, &cat(&[info, mk_tracks(&[track])])),
            };
            let x = el(id, &inside);
            let at = |k: usize| if place == k { x.clone() } else { vec![] };
            let (di, dv) = (have != 1, have != 2);
            let info = el(INFO, &cat(&[
                at(3),
                el(SCALE, &uint_be(1_000_000, 3)),
                if di { el(DURATION, &1234f64.to_be_bytes()) } else { vec![] },
                if di { el(DATE, &D.to_be_bytes()) } else { vec![] },
                at(4),
            ]));
            let video = el(VIDEO, &cat(&[at(9), el(W, &uint_be(640, 2)), el(H, &uint_be(480, 2)), at(10)]));
            let track = el(ENTRY, &cat(&[at(7), el(0xD7, &[1]), el(0x83, &[if dv { 1 } else { 2 }]), if dv { video } else { vec![] }, at(8)]));
            let tracks = el(TRACKS, &cat(&[at(5), track, at(6)]));
            // in the place of the video element of a track that has none: nothing to hold the look-alike
            if !dv && place >= 9 {
                return Ok(Stats::default());
            }
            let mut w = Facts::new();
            if di {
                w.insert("DurationMs", EntryValue::U64(1234));
                w.insert("CreateDate", created(D));
            }
            if dv {
                dims(&mut w, 640, 480);
            }
            verify_track("decoys", mkv("matroska", &[at(0), info, at(1), tracks, at(2)]), &w, &SOME[..2])
        },
        |i| {
            let mut m = Mix(i);
            let have = m.d(3);
            format!("facts {have}, {} at place {} holds look-alike {}", m.of(&IDS).1, m.d(PLACES), m.d(KINDS))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    (
        "exploration",
        vec![info_fields(), video_fields(), sizes(t), info_orders(t), segment_orders(t), tracks(t), crowded(t), unreadable(), places(t), decoys(), cut()],
        vec!["files without a track list or segment information, and elements of zero length, are left out"],
    )
}
