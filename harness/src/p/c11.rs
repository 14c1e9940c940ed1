//! C11 — JPEG: the EXIF segment is found whatever surrounds it, and nothing else is.
use super::c10::mini;
use super::Spec;
use crate::b::*;
use crate::engine::*;
use crate::f::*;
use crate::io::Data;
use crate::outcome::*;
use std::sync::Arc;

fn seg_exif(t: &Tiff) -> Vec<u8> {
    jseg(0xe1, &exif_payload(&t.bytes))
}

/// Segments that are not EXIF, with a name. Decoys hold complete EXIF data.
fn others() -> Vec<(&'static str, Vec<u8>)> {
    let decoy = mini(9, false).bytes;
    let inner = seg_exif(&mini(8, true));
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![
        ("JFIF", jfif()),
        ("XMP", xmp_seg("<x:xmpmeta xmlns:x='adobe:ns:meta/'/>")),
        ("XMP with EXIF text", jseg(0xe1, &[b"http://ns.adobe.com/xap/1.0/\0".as_slice(), &inner].concat())),
        ("extended XMP", jseg(0xe1, &[b"http://ns.adobe.com/xmp/extension/\0".as_slice(), &filler(300)].concat())),
        ("APP1 empty", jseg(0xe1, b"")),
        ("APP1 short", jseg(0xe1, b"Exi")),
        ("APP1 other name", jseg(0xe1, &[b"Exit\0\0".as_slice(), &decoy].concat())),
        ("APP1 lower case", jseg(0xe1, &[b"exif\0\0".as_slice(), &decoy].concat())),
        ("APP1 shifted", jseg(0xe1, &[b"\0Exif\0\0".as_slice(), &decoy].concat())),
        ("APP1 bare TIFF", jseg(0xe1, &decoy)),
        ("APP2 Exif", jseg(0xe2, &exif_payload(&decoy))),
        ("APP0 Exif", jseg(0xe0, &exif_payload(&decoy))),
        ("COM Exif", jseg(0xfe, &exif_payload(&decoy))),
        ("APP13 with segment", jseg(0xed, &[b"Photoshop 3.0\0".as_slice(), &inner, &[0xff, 0xd8, 0xff, 0xe1]].concat())),
        ("DQT", jseg(0xdb, &[0; 65])),
        ("SOF0", jseg(0xc0, &[8, 0, 1, 0, 1, 1, 1, 0x11, 0])),
        ("SOF2", jseg(0xc2, &[8, 0, 1, 0, 1, 1, 1, 0x11, 0])),
        ("DHT", jseg(0xc4, &[0; 20])),
        ("DRI", jseg(0xdd, &[0, 4])),
        ("APP15 empty", jseg(0xef, b"")),
        ("APP2 full", jseg(0xe2, &filler(65_533))),
        ("COM with markers", jseg(0xfe, &[0xff, 0xda, 0xff, 0xd9, 0xff, 0xd8, 0xff, 0xff, 0xe1, 0x45])),
    ];
    // fill bytes in front of a marker
    let mut fill = vec![0xff; 3];
    fill.extend_from_slice(&jseg(0xe3, b"filled"));
    v.push(("filled", fill));
    v
}

fn file(segs: &[Vec<u8>]) -> Vec<u8> {
    // a complete EXIF segment inside the scan and another one behind the image
    let mut scan = filler(40);
    scan.extend_from_slice(&seg_exif(&mini(7, false)));
    scan.extend_from_slice(&filler(100));
    let mut f = jpeg(segs, &scan);
    f.extend_from_slice(&jpeg_with_exif(&mini(6, true).bytes));
    f
}

fn verify(key: &str, f: Vec<u8>, want: &Option<Vec<Ent>>, srcs: &[Src], apis: &[Api]) -> CaseResult {
    let d: Data = Arc::new(f);
    let mut st = Stats::default();
    for &s in srcs {
        for &api in apis {
            let got = parse(&d, s, api);
            st.note(want.is_some(), got.fp());
            let ok = match (want, &got) {
                (Some(w), Out::Exif(e)) | (Some(w), Out::Meta(Some(e), None)) => {
                    if e.entries != *w {
                        return viol(key, format!("{api:?} {s:?}: {}", diff_entries(&e.entries, w)));
                    }
                    !e.has_track
                }
                (None, Out::Err(x)) => x == "ExifNotFound",
                _ => false,
            };
            if !ok {
                return viol(
                    key,
                    format!("{api:?} {s:?}: got {} where {} was expected", trunc(&format!("{got:?}"), 300), if want.is_some() { "the EXIF put in (and no embedded track)" } else { "ExifNotFound" }),
                );
            }
        }
    }
    Ok(st)
}

const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::NoSeek, Src::ASeek];
const EM: [Api; 2] = [Api::Exif, Api::Meta];

fn sequences(t: Tier) -> Vec<Space> {
    let ot = Arc::new(others());
    let n = ot.len() as u64;
    let mut out = vec![];
    for len in 0..=t.pick(3usize, 4) {
        let (o1, o2) = (ot.clone(), ot.clone());
        let dec = move |i: u64| {
            let mut m = Mix(i);
            // position of the EXIF segment; len + 1 = none
            let at = m.d(len as u64 + 2);
            let be = if len <= 2 { m.b() } else { i % 3 == 0 };
            let fill = if len <= 2 { m.d(3) } else { (i % 3) as usize };
            (at, be, fill, (0..len).map(|_| m.d(n)).collect::<Vec<_>>())
        };
        let cases = (len as u64 + 2) * if len <= 2 { 6 } else { 1 } * n.pow(len as u32);
        let d2 = dec.clone();
        out.push(Space::new(
            format!("sequences-{len}"),
            format!("every sequence of {len} of {n} other segments with the EXIF segment at every place or absent (either byte order, 0..2 fill bytes in front); the scan and the bytes behind the image hold decoy EXIF segments"),
            cases,
            move |i| {
                let (at, be, fill, ks) = dec(i);
                let mut segs: Vec<Vec<u8>> = ks.iter().map(|k| o1[*k].1.clone()).collect();
                let x = mini(1, be);
                let mut want = None;
                if at <= len {
                    let mut s = vec![0xff; fill];
                    s.extend_from_slice(&seg_exif(&x));
                    segs.insert(at, s);
                    want = Some(x.expect);
                }
                verify("sequence", file(&segs), &want, if len <= 2 { &SRCS } else { &SOME[..3] }, if len <= 2 { &EM } else { &EM[..1] })
            },
            move |i| {
                let (at, be, fill, ks) = d2(i);
                format!("EXIF at {at} be {be} fill {fill}, others {:?}", ks.iter().map(|k| o2[*k].0).collect::<Vec<_>>())
            },
        ));
    }
    out
}

/// Every length of one segment in front, and of the EXIF segment itself.
fn lengths(t: Tier) -> Vec<Space> {
    let max = 65_534u64;
    let step = t.pick(7, 1);
    let mk = [0xe2u8, 0xe1, 0xfe];
    let front = Space::new(
        "front-length",
        format!("an APP2, XMP-like APP1 or COM segment of every payload length 0..65533 (step {step}; every length below 300 and above 65200) in front of the EXIF segment"),
        max * 3,
        move |i| {
            let mut m = Mix(i);
            let k = m.d(3);
            let n = m.d(max);
            if n % step != 0 && (300..65_200).contains(&n) {
                return Ok(Stats::default());
            }
            let x = mini(1, n % 2 == 0);
            let mut body = filler(n);
            if k == 1 {
                for (j, b) in b"http://ns.adobe.com/xap/1.0/\0".iter().enumerate() {
                    if j < n {
                        body[j] = *b;
                    }
                }
            }
            verify("front-length", file(&[jseg(mk[k], &body), seg_exif(&x)]), &Some(x.expect), &[Src::Mem, Src::NoSeek, Src::ASeek], &EM[..1])
        },
        |i| format!("segment kind {} payload {}", i % 3, i / 3),
    );
    let own = Space::new(
        "own-length",
        format!("the EXIF segment holding a value of every size up to the segment limit (step {step}), last or followed by other segments"),
        65_400,
        move |i| {
            let n = i as usize;
            if n % step != 0 && (300..65_200).contains(&n) {
                return Ok(Stats::default());
            }
            let tt = tiff(&dir(vec![en(0x0112, Val::U16(vec![3])), en(0x9286, Val::Undef(filler(n + 1))), en(0x010f, Val::s("behind"))]), &Lay::new(n % 2 == 1));
            if tt.bytes.len() + 6 > 65_533 {
                return Ok(Stats::default());
            }
            let mut segs = vec![seg_exif(&tt)];
            if n % 3 == 0 {
                segs.push(jseg(0xe2, &filler(500)));
            }
            verify("own-length", file(&segs), &Some(tt.expect), &[Src::Mem, Src::Seek, Src::NoSeek], &EM[..1])
        },
        |i| format!("value of {} bytes", i + 1),
    );
    vec![front, own]
}

/// Buffer-window edges: several segments adding up to a distance.
fn distances(t: Tier) -> Space {
    let pts = super::c02::shift_points(t);
    let p2 = pts.clone();
    Space::new(
        "distances",
        format!("{} distances of the EXIF segment from the start, made of 1, 2 or many segments, with another APP1 in front or none", pts.len()),
        pts.len() as u64 * 6,
        move |i| {
            let mut m = Mix(i);
            let (form, xmp) = (m.d(3), m.b());
            let n = *m.of(&pts);
            let x = mini(1, false);
            let piece = match form {
                0 => 60_000,
                1 => (n / 2).clamp(1, 60_000),
                _ => 97,
            };
            let mut segs = vec![];
            let mut left = n;
            loop {
                let k = left.min(piece);
                segs.push(jseg(0xe2, &filler(k)));
                left -= k;
                if left == 0 {
                    break;
                }
            }
            if xmp {
                segs.push(xmp_seg("<x/>"));
            }
            segs.push(seg_exif(&x));
            verify("distance", file(&segs), &Some(x.expect), &SOME, &EM)
        },
        move |i| format!("form {} xmp {} distance {}", i % 3, i / 3 % 2, p2[(i / 6) as usize]),
    )
}

/// Every marker code that carries a length, around the EXIF segment and as a decoy.
fn markers() -> Space {
    // markers without a length field or with a special role
    let skip = |c: u8| c == 0x00 || c == 0x01 || (0xd0..=0xda).contains(&c) || c == 0xff;
    Space::new(
        "markers",
        "every marker code with a length: as a neighbour in front of the EXIF segment, and as a carrier of EXIF-like data with and without a real EXIF segment",
        256 * 4,
        move |i| {
            let mut m = Mix(i);
            let form = m.d(4);
            let c = m.d(256) as u8;
            if skip(c) || (c == 0xe1 && form != 0) {
                return Ok(Stats::default());
            }
            let x = mini(1, true);
            let decoy = jseg(c, &exif_payload(&mini(9, false).bytes));
            let (segs, want) = match form {
                0 => (vec![jseg(c, b"neighbour"), seg_exif(&x)], Some(x.expect.clone())),
                1 => (vec![decoy, seg_exif(&x)], Some(x.expect.clone())),
                2 => (vec![seg_exif(&x), decoy], Some(x.expect.clone())),
                _ => (vec![decoy], None),
            };
            verify("marker", file(&segs), &want, &SRCS, &EM)
        },
        |i| format!("marker {:#x} form {}", i / 4, i % 4),
    )
}

/// The file is cut off somewhere behind its EXIF segment.
fn cut() -> Space {
    let x = mini(1, true);
    let head = cat(&[vec![0xff, 0xd8], jseg(0xfe, &filler(200)), seg_exif(&x)]);
    let full = file(&[jseg(0xfe, &filler(200)), seg_exif(&x), jseg(0xe2, &exif_payload(&mini(9, false).bytes)), jseg(0xe1, b"other"), jseg(0xdb, &[0; 65])]);
    assert!(full.starts_with(&head));
    let (n, len) = (head.len(), full.len());
    Space::new(
        "cut",
        "a JPEG file cut off at every byte behind the EXIF segment, with other segments and the scan behind it",
        (len - n) as u64 + 1,
        move |i| verify("cut", full[..n + i as usize].to_vec(), &Some(x.expect.clone()), &SRCS, &EM),
        |i| format!("{i} bytes behind the EXIF segment"),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = sequences(t);
    v.extend(lengths(t));
    v.extend([distances(t), markers(), cut()]);
    ("exploration", v, vec!["one EXIF segment per file; standalone markers (TEM, RST) do not occur in front of the scan"])
}
