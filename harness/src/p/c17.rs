//! C17 — Motion Photos: the flag, and the track behind it.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::*;
use crate::outcome::*;
use std::sync::Arc;

/// What a JPEG has to give.
#[derive(Clone, Debug)]
struct Want {
    exif: bool,
    flag: bool,
    /// the appended video as it parses by itself; None: no track to be had
    track: Option<Out>,
}
fn verify(key: &str, file: Vec<u8>, w: &Want, srcs: &[Src]) -> CaseResult {
    let d: Data = Arc::new(file);
    let mut st = Stats::default();
    for &s in srcs {
        for api in [Api::Exif, Api::Meta] {
            let got = parse(&d, s, api);
            st.note(w.flag, got.fp());
            match (w.exif, got.exif()) {
                (true, Some(e)) => {
                    if e.has_track != w.flag {
                        return viol(key, format!("{s:?} {api:?}: flag {} instead of {}", e.has_track, w.flag));
                    }
                    if e.entries.is_empty() {
                        return viol(key, format!("{s:?} {api:?}: no entries"));
                    }
                }
                (false, None) if got.err() == Some("ExifNotFound") => {}
                _ => return viol(key, format!("{s:?} {api:?}: {}", trunc(&format!("{got:?}"), 200))),
            }
        }
        let got = parse(&d, s, Api::Track);
        st.note(w.track.is_some(), got.fp());
        match &w.track {
            Some(t) if got != *t => {
                return viol(key, format!("{s:?}: track: {}", diff(&got, t)));
            }
            None if w.flag && !got.is_err() => {
                return viol(key, format!("{s:?}: a track out of a broken trailer: {got:?}"));
            }
            None if !w.flag && got.err() != Some("TrackNotFound") => {
                return viol(key, format!("{s:?}: {} from an image without an embedded track", trunc(&format!("{got:?}"), 200)));
            }
            _ => {}
        }
    }
    Ok(st)
}
fn video() -> Vec<u8> {
    mp4(&moov_full(), 40, 20, false)
}
fn of(v: &[u8]) -> Option<Out> {
    let o = parse(&Arc::new(v.to_vec()), Src::Mem, Api::Track);
    matches!(o, Out::Track(_)).then_some(o)
}
const SOME: [Src; 4] = [Src::Mem, Src::Seek, Src::ANoSeek, Src::AMem];

/// The appended bytes after the image, and what XMP says about them.
#[derive(Clone, Debug)]
struct Item {
    sem: Option<&'static str>,
    mime: Option<&'static str>,
    len: Option<String>,
    pad: Option<usize>,
}
fn container(items: &[Item], order: usize) -> String {
    let mut s = String::from("<Container:Directory><rdf:Seq>");
    for i in items {
        s.push_str("<rdf:li rdf:parseType=\"Resource\"><Container:Item");
        let mut a = vec![];
        if let Some(m) = i.mime {
            a.push(format!(" Item:Mime=\"{m}\""));
        }
        if let Some(m) = i.sem {
            a.push(format!(" Item:Semantic=\"{m}\""));
        }
        if let Some(n) = &i.len {
            a.push(format!(" Item:Length=\"{n}\""));
        }
        if let Some(n) = i.pad {
            a.push(format!(" Item:Padding=\"{n}\""));
        }
        let n = a.len();
        for k in perm(n, order as u64 % fact(n)) {
            s.push_str(&a[k]);
        }
        s.push_str("/></rdf:li>");
    }
    s.push_str("</rdf:Seq></Container:Directory>");
    s
}

// ------------------------------------------------------------------ declarations

fn declarations(t: Tier) -> Space {
    // gates; does it open?
    const G: [(&str, bool); 8] = [
        ("", false),
        (" GCamera:MotionPhoto=\"1\"", true),
        (" GCamera:MicroVideo=\"1\"", true),
        (" GCamera:MotionPhoto=\"0\"", false),
        (" GCamera:MotionPhoto=\"1\" GCamera:MicroVideo=\"1\"", true),
        (" GCamera:MotionPhoto=\"0\" GCamera:MicroVideo=\"1\"", true),
        (" GCamera:MotionPhotoVersion=\"1\"", false),
        (" GCamera:MotionPhoto=\"10\"", false),
    ];
    // offsets: absent, right, wrong, not a number
    const O: usize = 4;
    const C: usize = 8;
    Space::new(
        "declarations",
        "8 gate attributes x 8 container directories (none, video item by meaning, by type, by both, without a video item, video without a length, empty, unreadable length) x MotionPhotoOffset and MicroVideoOffset each absent, right, wrong or unreadable x 6 attribute orders: flag and track follow the documented precedence",
        (G.len() * C * O * O * 6) as u64,
        move |i| {
            let mut m = Mix(i);
            let (gate, open) = *m.of(&G);
            let (c, mp, mv, ord) = (m.d(C as u64), m.d(O as u64), m.d(O as u64), m.d(6));
            let v = video();
            let n = v.len();
            let it = |sem, mime, len: Option<String>| Item { sem, mime, len, pad: None };
            let prim = it(Some("Primary"), Some("image/jpeg"), None);
            let right = Some(n.to_string());
            let items: Option<Vec<Item>> = match c {
                0 => None,
                1 => Some(vec![prim, it(Some("MotionPhoto"), None, right)]),
                2 => Some(vec![prim, it(None, Some("video/mp4"), right)]),
                3 => Some(vec![prim, it(Some("MotionPhoto"), Some("video/mp4"), right)]),
                4 => Some(vec![prim, it(Some("GainMap"), Some("image/jpeg"), Some("77".into()))]),
                5 => Some(vec![prim, it(Some("MotionPhoto"), Some("video/mp4"), None)]),
                6 => Some(vec![]),
                _ => Some(vec![prim, it(Some("MotionPhoto"), Some("video/mp4"), Some("12x".into()))]),
            };
            let off = |name: &str, k: usize| match k {
                0 => String::new(),
                1 => format!(" GCamera:{name}=\"{n}\""),
                2 => format!(" GCamera:{name}=\"{}\"", n - 9),
                _ => format!(" GCamera:{name}=\"-{n}\""),
            };
            let attrs = [gate.to_string(), off("MotionPhotoOffset", mp), off("MicroVideoOffset", mv)];
            let mut body: String = perm(3, ord as u64).iter().map(|k| attrs[*k].as_str()).collect();
            body.push('>');
            if let Some(it) = &items {
                body.push_str(&container(it, ord));
            }
            // documented precedence
            let cont = (1..=3).contains(&c);
            // an offset attribute that is present decides, readable or not
            let attr = if mp != 0 { mp } else { mv };
            let flag = open && (cont || attr == 1 || attr == 2);
            let good = flag && (cont || attr == 1);
            let file = cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), xmp_seg(&body)], &filler(60)), v.clone()]);
            verify("declarations", file, &Want { exif: true, flag, track: if good { of(&v) } else { None } }, t.pick(&SOME, &SRCS))
        },
        |i| {
            let mut m = Mix(i);
            format!("gate {:?} container {} offsets {} {} order {}", m.of(&G).0, m.d(C as u64), m.d(O as u64), m.d(O as u64), m.d(6))
        },
    )
}

/// Container directories with several items behind the image.
fn directories(t: Tier) -> Space {
    // kinds of items that can follow the primary image
    let names = ["gain map", "gain map with padding", "video", "video with padding", "video by type only", "unknown item", "second video"];
    let n = names.len() as u64;
    let max = t.pick(4u32, 5);
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (0..l).map(|_| m.d(n)).collect::<Vec<_>>()
    };
    Space::new(
        "directories",
        format!("every sequence of up to {max} appended items of {n} kinds (gain maps and videos with and without padding between, unknown items), their bytes appended in that order: the track is that of the first video item, an image without one has no track"),
        total,
        move |i| {
            let v = video();
            let seq = dec(i);
            let mut items = vec![Item { sem: Some("Primary"), mime: Some("image/jpeg"), len: None, pad: None }];
            let mut tail = vec![];
            let mut first = None;
            let last = seq.len();
            for (j, k) in seq.iter().enumerate() {
                let gap = 8 + j * 5;
                let (it, bytes) = match k {
                    0 | 1 => (
                        Item { sem: Some("GainMap"), mime: Some("image/jpeg"), len: Some("150".into()), pad: (*k == 1).then_some(gap) },
                        jpeg(&[], &filler(150 - jpeg(&[], &[]).len())),
                    ),
                    2 | 3 => (
                        Item { sem: Some("MotionPhoto"), mime: Some("video/mp4"), len: Some(v.len().to_string()), pad: (*k == 3).then_some(gap) },
                        v.clone(),
                    ),
                    4 => (Item { sem: None, mime: Some("video/mp4"), len: Some(v.len().to_string()), pad: None }, v.clone()),
                    5 => (Item { sem: Some("Depth"), mime: None, len: Some("33".into()), pad: Some(0) }, filler(33)),
                    _ => {
                        let w = mp4(&bx(b"moov", &mvhd(0, 3_000_000_000, 600, 600)), 0, 11, false);
                        (Item { sem: Some("MotionPhoto"), mime: Some("video/quicktime"), len: Some(w.len().to_string()), pad: None }, w)
                    }
                };
                if matches!(k, 2 | 3 | 4 | 6) && first.is_none() {
                    first = Some(bytes.clone());
                }
                tail.extend_from_slice(&bytes);
                // padding lies between this item and the next one
                if let (Some(p), true) = (it.pad, j + 1 < last) {
                    tail.extend(vec![0; p]);
                }
                items.push(it);
            }
            let body = format!(" GCamera:MotionPhoto=\"1\">{}", container(&items, i as usize));
            let file = cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), xmp_seg(&body)], &filler(60)), tail.clone()]);
            // the trailer runs to the end of the file
            let track = first.map(|f| {
                let at = tail.windows(f.len()).position(|w| w == f).unwrap();
                of(&tail[at..]).expect("a video")
            });
            verify("directories", file, &Want { exif: true, flag: track.is_some(), track }, &SOME[..2])
        },
        move |i| format!("{:?}", dec(i).iter().map(|k| names[*k]).collect::<Vec<_>>()),
    )
}

/// The same declaration as different writers put it down.
fn forms(t: Tier) -> Space {
    // between attributes, in front of the end of a tag
    const SEP: [&str; 6] = [" ", "\n", "\r\n", "\t", "\n      ", "   "];
    const END: [(&str, &str); 4] = [("/>", ""), (" />", ""), (">", "</Container:Item>"), ("\n>\n", "\n</Container:Item>")];
    const DIR: [&str; 4] = ["", " rdf:parseType=\"Resource\"", "\n", " xmlns:Container=\"http://ns.google.com/photos/1.0/container/\"\n"];
    const PAD: [Option<usize>; 4] = [None, Some(0), Some(1), Some(777)];
    Space::new(
        "forms",
        "declarations as different writers put them: 6 separators between attributes x 4 ways of ending an item x 4 directory tags x with and without attributes unknown to the library x items directly one after the other or in list elements x 4 paddings of a gain map behind the video x offset attributes instead of the directory, in front of or behind the gate",
        (SEP.len() * END.len() * DIR.len() * 2 * 2 * PAD.len() * 2) as u64,
        move |i| {
            let mut m = Mix(i);
            let (sep, end, dirt, more, li, pad, plain) = (*m.of(&SEP), *m.of(&END), *m.of(&DIR), m.b(), m.b(), *m.of(&PAD), m.b());
            let v = video();
            let n = v.len();
            let item = |attrs: &[String]| {
                let mut s = String::new();
                if li {
                    s.push_str("<rdf:li rdf:parseType=\"Resource\">");
                }
                s.push_str("<Container:Item");
                if more {
                    s.push_str(&format!("{sep}xmlns:Item=\"http://ns.google.com/photos/1.0/container/item/\"{sep}Item:URI=\"a/b\""));
                }
                for a in attrs {
                    s.push_str(&format!("{sep}{a}"));
                }
                s.push_str(end.0);
                s.push_str(end.1);
                if li {
                    s.push_str("</rdf:li>");
                }
                s
            };
            let (body, tail) = if plain {
                let a = ["GCamera:MotionPhoto=\"1\"".to_string(), format!("GCamera:MotionPhotoOffset=\"{n}\""), "xmp:Rating=\"5\"".into()];
                let mut b = String::new();
                for k in perm(3, i % 6) {
                    b.push_str(&format!("{sep}{}", a[k]));
                }
                (format!("{b}{sep}{dirt}>"), v.clone())
            } else {
                let map = jpeg(&[], &filler(90));
                let mut va = vec!["Item:Mime=\"video/mp4\"".to_string(), "Item:Semantic=\"MotionPhoto\"".into(), format!("Item:Length=\"{n}\"")];
                if let Some(p) = pad {
                    va.push(format!("Item:Padding=\"{p}\""));
                }
                let l = ["Item:Mime=\"image/jpeg\"".to_string(), format!("Item:Length=\"{}\"", map.len()), "Item:Semantic=\"Depth\"".into()];
                let b = format!(
                    "{sep}GCamera:MotionPhoto=\"1\"{sep}><Container:Directory{dirt}>{}{}{}</Container:Directory>",
                    item(&["Item:Mime=\"image/jpeg\"".into(), "Item:Semantic=\"Primary\"".into()]),
                    item(&va),
                    item(&l),
                );
                (b, cat(&[v.clone(), vec![0; pad.unwrap_or(0)], map]))
            };
            let file = cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), xmp_seg(&body)], &filler(60)), tail.clone()]);
            let w = of(&tail);
            assert!(w.is_some());
            verify("forms", file, &Want { exif: true, flag: true, track: w }, t.pick(&SOME[..1], &SOME))
        },
        |i| {
            let mut m = Mix(i);
            format!("{:?} {:?} {:?} {} {} {:?} {}", m.of(&SEP), m.of(&END), m.of(&DIR), m.b(), m.b(), m.of(&PAD), m.b())
        },
    )
}

// ------------------------------------------------------------------ segments

fn segments(t: Tier) -> Space {
    let v = video();
    let decl = format!(" GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"{}\">", v.len());
    let seg: Vec<(&'static str, Vec<u8>)> = vec![
        ("EXIF", jseg(0xe1, &exif_payload(&tiff_le()))),
        ("motion XMP", xmp_seg(&decl)),
        ("JFIF", jfif()),
        ("plain XMP", xmp_seg(" xmp:Rating=\"5\">")),
        ("extended XMP", jseg(0xe1, format!("http://ns.adobe.com/xmp/extension/\0{decl}").as_bytes())),
        ("declaration in a comment", jseg(0xfe, decl.as_bytes())),
        ("declaration in APP2", jseg(0xe2, format!("http://ns.adobe.com/xap/1.0/\0{decl}").as_bytes())),
        ("empty APP1", jseg(0xe1, &[])),
        ("huge APP2", jseg(0xe2, &filler(65_533))),
        ("closed gate XMP", xmp_seg(&decl.replace("=\"1\"", "=\"0\""))),
    ];
    let n = seg.len() as u64;
    let max = t.pick(4u32, 5);
    let total: u64 = (0..=max).map(|l| n.pow(l)).sum();
    let dec = move |mut i: u64| {
        let mut l = 0;
        while i >= n.pow(l) {
            i -= n.pow(l);
            l += 1;
        }
        let mut m = Mix(i);
        (0..l).map(|_| m.d(n)).collect::<Vec<_>>()
    };
    let names: Vec<&'static str> = seg.iter().map(|s| s.0).collect();
    let want = of(&v);
    Space::new(
        "segments",
        format!("every sequence of up to {max} segments of {n} kinds (EXIF, motion XMP, other XMP, declarations outside XMP or behind the scan, huge segments): flagged exactly when a motion XMP segment comes before the scan"),
        total,
        move |i| {
            let s = dec(i);
            // one EXIF segment at most
            if s.iter().filter(|k| **k == 0).count() > 1 || s.iter().filter(|k| **k == 8).count() > 2 {
                return Ok(Stats::default());
            }
            let segs: Vec<Vec<u8>> = s.iter().map(|k| seg[*k].1.clone()).collect();
            // the scan carries bytes that look like segments
            let scan = cat(&[filler(30), vec![0xff, 0xd9], seg[1].1.clone(), seg[0].1.clone(), filler(40)]);
            let file = cat(&[jpeg(&segs, &scan), v.clone()]);
            let flag = s.contains(&1);
            let w = Want { exif: s.contains(&0), flag, track: if flag { want.clone() } else { None } };
            let k = i as usize % 4;
            verify("segments", file, &w, &[SOME[k]])
        },
        move |i| format!("{:?}", dec(i).iter().map(|k| names[*k]).collect::<Vec<_>>()),
    )
}

/// Distance of the declaration from the start of the file.
fn places(t: Tier) -> Space {
    let pts = super::c02::shift_points(t);
    let n = pts.len() as u64;
    let p2 = pts.clone();
    let v = video();
    let want = of(&v);
    Space::new(
        "places",
        format!("{n} distances x 5 arrangements of EXIF and declaration, split over segments of at most 60000 bytes, from every source"),
        n * 5,
        move |i| {
            let mut m = Mix(i);
            let k = m.d(5);
            let mut d = *m.of(&pts);
            let mut gap = vec![];
            while d > 60_000 {
                gap.push(jseg(0xe2, &filler(60_000)));
                d -= 60_000;
            }
            gap.push(jseg(0xe2, &filler(d)));
            let gap = gap.concat();
            let ex = jseg(0xe1, &exif_payload(&tiff_le()));
            let mo = motion_xmp(v.len());
            let segs = match k {
                0 => vec![ex, gap, mo],
                1 => vec![gap, mo, ex],
                2 => vec![mo, gap, ex],
                3 => vec![gap, ex, mo],
                // the declaration itself is long
                _ => vec![ex, xmp_seg(&format!(" a=\"{}\" GCamera:MicroVideo=\"1\" GCamera:MicroVideoOffset=\"{}\">", "x".repeat(d), v.len()))],
            };
            let file = cat(&[jpeg(&segs, &filler(if i % 2 == 0 { 60 } else { 9000 })), v.clone()]);
            verify("places", file, &Want { exif: true, flag: true, track: want.clone() }, t.pick(&SOME[..2], &SRCS[..6]))
        },
        move |i| format!("arrangement {} distance {}", i % 5, p2[(i / 5) as usize]),
    )
}

/// Trailers: every kind of video, and broken ones.
fn trailers() -> Vec<Space> {
    let vs: Vec<(&'static str, Vec<u8>)> = vec![
        ("mp4, moov first", cat(&[ftyp(b"isom", &[b"mp42"]), moov_full(), bx(b"mdat", &filler(30))])),
        ("mp4, moov last", video()),
        ("mov", mp4(&moov_full(), 100, 0, true)),
        ("3gp", cat(&[ftyp(b"3gp4", &[b"3gp4", b"isom"]), moov_full()])),
        ("large payload", mp4(&moov_full(), 70_000, 9_000, false)),
        ("trailing bytes", cat(&[video(), filler(300)])),
        ("movie header only", mp4(&bx(b"moov", &mvhd(1, 3_000_000_000, 600, 600)), 0, 0, false)),
        ("no header, as in Apple stills", cat(&[bx(b"wide", &[]), bx(b"mdat", &filler(40)), moov_full()])),
        ("webm", mkv("webm", &[mk_info(Some(1500.0), None, Some(86_400_000_000_000)), mk_tracks(&[mk_audio(), mk_video(320, 200)])])),
        ("matroska", mkv_seek(200, "matroska")),
    ];
    let n = vs.len() as u64;
    let scans = [0usize, 1, 60, 8000, 8192, 20_000];
    let v2 = vs.clone();
    let good = Space::new(
        "trailers",
        "10 kinds of appended video x 6 sizes of the image data x 2 ways of declaring them, from every source",
        n * 6 * 2,
        move |i| {
            let mut m = Mix(i);
            let v = &vs[m.d(n)].1;
            let sc = *m.of(&scans);
            let x = if m.b() {
                motion_xmp(v.len())
            } else {
                let it = [
                    Item { sem: Some("Primary"), mime: Some("image/jpeg"), len: Some("0".into()), pad: Some(0) },
                    Item { sem: Some("MotionPhoto"), mime: Some("video/mp4"), len: Some(v.len().to_string()), pad: Some(80) },
                ];
                xmp_seg(&format!(" GCamera:MotionPhoto=\"1\">{}", container(&it, 3)))
            };
            let file = cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), x], &filler(sc)), v.clone()]);
            let t = of(v);
            assert!(t.is_some());
            verify("trailers", file, &Want { exif: true, flag: true, track: t }, &SRCS)
        },
        move |i| v2[(i % n) as usize].0.to_string(),
    );
    // declared lengths that don't lead to a video; a length is never one that
    // happens to hit the start of the video
    let broken = Space::new(
        "broken-trailers",
        "declared lengths 0, 1, 7, beyond the file, the whole file, u64::MAX, off by one both ways, and trailers cut off at every 7th byte or replaced by an image or garbage: flagged, and asking for the track gives an error",
        8 + 60 + 3,
        |i| {
            let v = video();
            let build = |n: u64, v: &[u8]| {
                let x = xmp_seg(&format!(" GCamera:MotionPhoto=\"1\" GCamera:MotionPhotoOffset=\"{n}\">"));
                cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), x], &filler(60)), v.to_vec()])
            };
            let n = v.len() as u64;
            let file = match i {
                0 => build(0, &v),
                1 => build(1, &v),
                2 => build(7, &v),
                3 => build(1_000_000, &v),
                4 => {
                    // the number's own digits are part of the file
                    let l = build(n, &v).len() as u64;
                    build(l, &v)
                }
                5 => build(u64::MAX, &v),
                6 => build(n + 1, &v),
                7 => build(n - 1, &v),
                68 => build(400, &jpeg(&[jfif()], &filler(400))[..400]),
                69 => build(400, &filler(400)),
                70 => build(300, &cat(&[ftyp(b"isom", &[]), free(1000)])[..300]),
                // cut off; a cut behind the moov box leaves the track intact
                k => {
                    let c = (k as usize - 8) * 7;
                    let moov_end = v.len() - 20 - 8;
                    build(c.min(moov_end - 1) as u64, &v[..c.min(moov_end - 1)])
                }
            };
            verify("broken-trailers", file, &Want { exif: true, flag: true, track: None }, &SRCS)
        },
        |i| format!("index {i}"),
    );
    // no other format is ever flagged
    let others = Space::new(
        "other-formats",
        "every corpus file that is no motion photo, with a motion photo declaration and a video appended: never flagged",
        all().len() as u64,
        |i| {
            let s = &all()[i as usize];
            if !s.image || s.name.contains("motion") {
                return Ok(Stats::default());
            }
            let v = video();
            let d: Data = Arc::new(cat(&[s.data.clone(), motion_xmp(v.len()), v]));
            let mut st = Stats::default();
            for src in SRCS {
                for api in [Api::Exif, Api::Meta] {
                    let got = parse(&d, src, api);
                    st.note(true, got.fp());
                    if got.exif().is_some_and(|e| e.has_track) {
                        return viol(format!("other-formats:{}", s.name), format!("{src:?}: flagged"));
                    }
                }
                let got = parse(&d, src, Api::Track);
                if got.err() != Some("TrackNotFound") {
                    return viol(format!("other-formats:{}", s.name), format!("{src:?}: {got:?}"));
                }
            }
            Ok(st)
        },
        |i| all()[i as usize].name.clone(),
    );
    vec![good, broken, others]
}

/// Very many of everything ahead of what counts.
fn crowded(t: Tier) -> Space {
    let ns: Arc<Vec<usize>> = Arc::new(match t {
        Tier::Quick => (0..=40).chain((45..=330).step_by(15)).chain([255, 256, 257, 400, 512]).collect(),
        Tier::Thorough => (0..=520).collect(),
    });
    const KINDS: u64 = 9;
    let n2 = ns.clone();
    let v = video();
    Space::new(
        "crowded",
        "0 to 520 appended items ahead of the video or behind it, attributes or hundreds of bytes of space ahead of the gate or behind it, properties ahead of the container, XMP segments without a declaration, or other segments, ahead of the declaration: flag and track are the same",
        KINDS * ns.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let (kind, n) = (m.d(KINDS), *m.of(&ns));
            let items = |k: usize| if kind == k { n } else { 0 };
            let prim = Item { sem: Some("Primary"), mime: Some("image/jpeg"), len: None, pad: None };
            let other = Item { sem: Some("GainMap"), mime: Some("image/jpeg"), len: Some("7".into()), pad: None };
            let vid = Item { sem: Some("MotionPhoto"), mime: Some("video/mp4"), len: Some(v.len().to_string()), pad: None };
            let its: Vec<Item> = [vec![prim], vec![other.clone(); items(0)], vec![vid], vec![other; items(1)]].concat();
            let attrs = |k: usize| (0..items(k)).map(|j| format!(" a:b{j}=\"MotionPhoto {j}\"")).collect::<String>();
            let space = |k: usize| " ".repeat(100 * items(k));
            let body = format!(
                "{}{} GCamera:MotionPhoto=\"1\"{}{}>{}{}",
                attrs(2),
                space(3),
                space(4),
                attrs(5),
                "<a:b>some text</a:b>".repeat(items(6)),
                container(&its, 0)
            );
            let x = xmp_seg(&body);
            let pre = match kind {
                7 => xmp_seg(" xmp:Rating=\"5\">").repeat(n),
                8 => jseg(0xe2, &filler(n * 10)).repeat(n),
                _ => vec![],
            };
            let tail = cat(&[filler(7).repeat(items(0)), v.clone(), filler(7).repeat(items(1))]);
            let w = of(&tail[7 * items(0)..]);
            let file = cat(&[jpeg(&[jseg(0xe1, &exif_payload(&tiff_le())), pre, x], &filler(60)), tail.clone()]);
            assert!(w.is_some());
            verify(&format!("crowded:{kind}:{n}"), file, &Want { exif: true, flag: true, track: w }, &SOME[..2])
        },
        move |i| {
            let mut m = Mix(i);
            format!("kind {}, {} of them", m.d(KINDS), m.of(&n2))
        },
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = vec![declarations(t), directories(t), forms(t), crowded(t), segments(t), places(t)];
    v.extend(trailers());
    (
        "exploration",
        v,
        vec!["attributes are written with double quotes, as documented"],
    )
}
