//! C16 — format detection and wrong-kind calls.
use super::Spec;
use crate::b::*;
use crate::corpus::*;
use crate::engine::*;
use crate::f::*;
use crate::io::*;
use crate::outcome::*;
use nom_exif::*;
use std::io::Cursor;
use std::sync::Arc;

/// What a file is, by its first 128 bytes.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Image,
    Track,
    No,
}

// ------------------------------------------------------------------ reference detector

const QT: &[&str] = &["qt  ", "mqt "];
const AVIF: &[&str] = &["avif", "avis", "avio"];
const HEIF: &[&str] = &["heic", "heix", "hevc", "heim", "heis", "hevm", "hevs", "mif1", "MiHE", "miaf", "MiHB"];
const MP4: &[&str] = &[
    "3g2a", "3g2b", "3g2c", "3ge6", "3ge7", "3gg6", "3gp4", "3gp5", "3gp6", "3gs7", "avc1", "mp41", "mp42", "iso2", "isom", "vfj1", "XAVC",
];
const CR3: &[&str] = &["crx "];

/// (header length, whole size) of the box at the start of `d`
fn box_at(d: &[u8]) -> Option<(usize, u64)> {
    if d.len() < 8 {
        return None;
    }
    let s = u32::from_be_bytes(d[..4].try_into().unwrap()) as u64;
    let (h, s) = match s {
        1 if d.len() >= 16 => (16, u64::from_be_bytes(d[8..16].try_into().unwrap())),
        1 => return None,
        s => (8, s),
    };
    (s >= h as u64).then_some((h, s))
}
/// is there an mdat box among the boxes that begin inside `d`?
fn mdat(mut d: &[u8]) -> bool {
    while let Some((_, s)) = box_at(d) {
        if &d[4..8] == b"mdat" {
            return true;
        }
        if s > d.len() as u64 {
            return false;
        }
        d = &d[s as usize..];
    }
    false
}
fn bmff(d: &[u8]) -> Option<K> {
    let (h, s) = box_at(d)?;
    // a file type box may reach beyond the first bytes
    let body = &d[h..s.min(d.len() as u64) as usize];
    let has = |set: &[&str], b: &[u8]| set.iter().any(|x| x.as_bytes() == b);
    match &d[4..8] {
        b"ftyp" if body.len() >= 4 => {
            let major = &body[..4];
            // a known major brand decides
            for (set, k) in [(QT, K::Track), (AVIF, K::Image), (HEIF, K::Image), (MP4, K::Track), (CR3, K::Image)] {
                if has(set, major) {
                    return Some(k);
                }
            }
            // otherwise any known compatible brand, in this order of families
            for (set, k) in [(QT, K::Track), (AVIF, K::Image), (HEIF, K::Image), (MP4, K::Track)] {
                if body.windows(4).any(|b| has(set, b)) {
                    return Some(k);
                }
            }
            mdat(d).then_some(K::Track)
        }
        b"wide" => mdat(d).then_some(K::Track),
        _ => None,
    }
}
/// EBML variable-length number: (length, value with marker, value without)
fn vnum(d: &[u8]) -> Option<(usize, u64, u64)> {
    let n = d.first()?.leading_zeros() as usize + 1;
    if n > 8 || n > d.len() {
        return None;
    }
    let v = d[..n].iter().fold(0u64, |a, b| a << 8 | *b as u64);
    Some((n, v, v & !(1u64 << (7 * n))))
}
fn ebml(d: &[u8]) -> Option<K> {
    let (a, id, _) = vnum(d)?;
    if id != 0x1A45DFA3 {
        return None;
    }
    let (b, _, size) = vnum(&d[a..])?;
    let mut d = &d[a + b..];
    // so may the header
    d = &d[..size.min(d.len() as u64) as usize];
    loop {
        let (a, id, _) = vnum(d)?;
        let (b, _, size) = vnum(&d[a..])?;
        d = &d[a + b..];
        if size > d.len() as u64 {
            return None;
        }
        if id == 0x4282 {
            return Some(K::Track);
        }
        d = &d[size as usize..];
    }
}
fn detect(d: &[u8]) -> K {
    let d = &d[..d.len().min(128)];
    if let Some(k) = bmff(d).or_else(|| ebml(d)) {
        return k;
    }
    let tiff = d.len() >= 8 && (d.starts_with(b"II\x2a\0") || d.starts_with(b"MM\0\x2a"));
    let png = d.starts_with(b"\x89PNG\r\n\x1a\n");
    let jpeg = d.len() >= 4 && d.starts_with(b"\xff\xd8\xff");
    let raf = d.starts_with(b"FUJIFILMCCD-RAW ");
    if tiff || png || jpeg || raf {
        K::Image
    } else {
        K::No
    }
}

// ------------------------------------------------------------------ what the library says

fn k(m: MediaKind) -> String {
    match m {
        MediaKind::Image => "Image".into(),
        MediaKind::Track => "Track".into(),
    }
}
fn kinds(d: &Data, all: bool) -> Vec<(&'static str, String)> {
    let mut v = vec![("memory", kind_of(d))];
    if !all {
        return v;
    }
    let s = |r: Result<MediaKind>| match r {
        Ok(m) => k(m),
        Err(e) => eclass(&e),
    };
    v.push(("seekable", s(MediaSource::seekable(Cursor::new(d.as_slice())).map(|m| m.kind()))));
    v.push(("unseekable", s(MediaSource::unseekable(NoSeek(Cursor::new(d.as_slice()))).map(|m| m.kind()))));
    #[allow(deprecated)]
    v.push(("bytes", s(MediaSource::<()>::from_bytes(d.as_ref().clone()).map(|m| m.kind()))));
    for seek in [true, false] {
        for pol in [Policy::Full, Policy::Chunk(1), Policy::Chunk(127)] {
            if seek && !matches!(pol, Policy::Full) {
                continue;
            }
            let (r, _) = Rd::new(d.clone(), pol);
            v.push((
                "async",
                s(block_on(async {
                    if seek {
                        AsyncMediaSource::seekable(ARd::new(r)).await.map(|m| m.kind())
                    } else {
                        AsyncMediaSource::unseekable(ANoSeek(ARd::new(r))).await.map(|m| m.kind())
                    }
                })),
            ));
        }
    }
    v.push(("async memory", s(AsyncMediaSource::from_memory(d.as_ref().clone()).map(|m| m.kind()))));
    v
}
fn verify(key: &str, d: Vec<u8>, all: bool) -> CaseResult {
    let want = match detect(&d) {
        K::No => "Unsupported".to_string(),
        x => format!("{x:?}"),
    };
    let d: Data = Arc::new(d);
    let mut st = Stats::default();
    for (s, got) in kinds(&d, all) {
        st.note(want != "Unsupported", fp(&got));
        if got != want {
            return viol(key, format!("{s}: detected as {got} instead of {want}: {:02x?}", &d[..d.len().min(40)]));
        }
    }
    Ok(st)
}

// ------------------------------------------------------------------ spaces

fn brands(t: Tier) -> Vec<Space> {
    let all: Vec<&'static str> = [QT, AVIF, HEIF, MP4, CR3, &["xxxx", "iso5", "M4A ", "jp2 ", "\0\0\0\0"]].concat();
    let n = all.len() as u64;
    let a2 = all.clone();
    let b4 = |s: &str| -> [u8; 4] { s.as_bytes().try_into().unwrap() };
    let one = Space::new(
        "major-brands",
        format!("{n} major brands (every documented one and unknown ones) x nothing, one of {n} compatible brands, or two of them x 3 contents behind: all source kinds for a single brand, memory and readers for pairs"),
        n * (1 + n + n * n) * 3,
        move |i| {
            let mut m = Mix(i);
            let tail: &[u8] = match m.d(3) {
                0 => &[],
                1 => &[0, 0, 0, 8, b'm', b'd', b'a', b't', 0, 0],
                _ => b"\x89PNG\r\n\x1a\n\xff\xd8\xff\xe1II\x2a\0",
            };
            let maj = b4(all[m.d(n)]);
            let r = m.0;
            let comp: Vec<[u8; 4]> = if r == 0 {
                vec![]
            } else if r <= n {
                vec![b4(all[(r - 1) as usize])]
            } else {
                let r = r - 1 - n;
                // pairs: only behind brands that do not decide by themselves, quick tier
                vec![b4(all[(r % n) as usize]), b4(all[(r / n) as usize])]
            };
            let refs: Vec<&[u8; 4]> = comp.iter().collect();
            verify("major-brands", cat(&[ftyp(&maj, &refs), tail.to_vec()]), r <= n)
        },
        move |i| {
            let mut m = Mix(i);
            let tail = m.d(3);
            format!("major {:?} compatible index {} tail {tail}", a2[m.d(n)], m.0)
        },
    );
    let _ = t;
    // sizes and forms of the first box
    const TY: [&[u8; 4]; 6] = [b"ftyp", b"wide", b"mdat", b"free", b"moov", b"FTYP"];
    let forms = Space::new(
        "first-box",
        "6 first box types x 12 box sizes x 32/64-bit size field x 3 brands x 4 followers (mdat header at every place it can have, none), whole and cut off at 12 lengths",
        6 * 12 * 2 * 3 * 4 * 12,
        |i| {
            let mut m = Mix(i);
            let ty = *m.of(&TY);
            let size = *m.of(&[0u64, 1, 7, 8, 11, 12, 15, 16, 20, 24, 112, 1000]);
            let wide = m.b();
            let br = *m.of(&[*b"isom", *b"zzzz", *b"heic"]);
            let fo = m.d(4);
            let cut = *m.of(&[0usize, 3, 7, 8, 11, 12, 16, 19, 24, 64, 127, 1000]);
            let mut d = if wide { vec![0, 0, 0, 1] } else { (size as u32).to_be_bytes().to_vec() };
            d.extend_from_slice(ty);
            if wide {
                d.extend_from_slice(&size.to_be_bytes());
            }
            d.extend_from_slice(&br);
            d.extend_from_slice(&[0; 4]);
            let at = |d: &mut Vec<u8>, n: usize, b: &[u8]| {
                d.resize(n.max(8), 0);
                d.extend_from_slice(b);
            };
            match fo {
                0 => {}
                1 => at(&mut d, size as usize, &cat(&[5000u32.to_be_bytes().to_vec(), b"mdat".to_vec()])),
                2 => at(&mut d, size as usize, &cat(&[free(10), vec![0, 0, 0, 1], b"mdat".to_vec(), 99u64.to_be_bytes().to_vec()])),
                _ => at(&mut d, size as usize, &cat(&[vec![0, 0, 0, 3], b"mdat".to_vec()])),
            }
            d.truncate(cut);
            verify("first-box", d, true)
        },
        |i| format!("index {i}"),
    );
    vec![one, forms]
}

fn ebml_heads() -> Space {
    const DOC: [&str; 6] = ["webm", "matroska", "", "mka", "some longer document type", "webm\0\0"];
    Space::new(
        "ebml-heads",
        "6 document types x every order of 5 head elements (of which padding and a look-alike) x 4 widths of the head size x 3 widths of the element size x cut off at 6 places",
        6 * 120 * 4 * 3 * 6,
        |i| {
            let mut m = Mix(i);
            let doc = *m.of(&DOC);
            let w1 = *m.of(&[1usize, 2, 4, 8]);
            let w2 = *m.of(&[1usize, 3, 8]);
            let cut = m.d(6);
            let parts = [
                elw(0x4286, &[1], w2),
                elw(0x4282, doc.as_bytes(), w2),
                elw(0x42F2, &[4], w2),
                el(0xEC, &cat(&[eid(0x4282), vec![0x81, b'x']])),
                el(0x4281, &[1, 2, 3]),
            ];
            let body: Vec<u8> = perm(5, m.0).iter().flat_map(|k| parts[*k].clone()).collect();
            let mut d = elw(0x1A45DFA3, &body, w1);
            let n = d.len();
            match cut {
                0 => d.extend(mk_segment(&[void(100)])),
                1 => {}
                2 => d.truncate(n - 1),
                3 => d.truncate(n / 2),
                4 => d.truncate(6),
                _ => d.truncate(4),
            }
            verify("ebml-heads", d, i % 7 == 0)
        },
        |i| format!("index {i}"),
    )
}

fn heads(t: Tier) -> Vec<Space> {
    let seeds = Arc::new(all());
    let n = seeds.len() as u64;
    let (s1, s2) = (seeds.clone(), seeds.clone());
    let cuts = Space::new(
        "cut-heads",
        "every corpus file cut off at every length from 0 to 140, and whole: the kind from every source",
        n * 142,
        move |i| {
            let mut m = Mix(i);
            let s = &s1[m.d(n)];
            let c = m.d(142);
            let d = if c == 141 { s.data.clone() } else { s.data[..c.min(s.data.len())].to_vec() };
            verify(&format!("cut-heads:{}", s.name), d, true)
        },
        move |i| {
            let mut m = Mix(i);
            format!("{} cut at {}", s2[m.d(n)].name, m.d(142))
        },
    );
    let sm = Arc::new(small());
    let ns = sm.len() as u64;
    let len = t.pick(64u64, 128);
    let (s1, s2) = (sm.clone(), sm.clone());
    let bytes = Space::new(
        "head-bytes",
        format!("every small corpus file, each of its first {len} bytes x all 256 values; all source kinds for every 16th case"),
        ns * len * 256,
        move |i| {
            let mut m = Mix(i);
            let s = &s1[m.d(ns)];
            let p = m.d(len);
            let v = m.d(256) as u8;
            let mut d = s.data.clone();
            d.truncate(400);
            if p >= d.len() || d[p] == v {
                return Ok(Stats::default());
            }
            d[p] = v;
            verify(&format!("head-bytes:{}", s.name), d, i % 16 == 0)
        },
        move |i| {
            let mut m = Mix(i);
            format!("{} byte {} := {}", s2[m.d(ns)].name, m.d(len), m.d(256))
        },
    );
    // pairs of head bytes
    let words = Space::new(
        "head-words",
        "8 magic numbers, every pair of their first bytes x 12 values each, followed by plausible content",
        8 * 16 * 16 * 144,
        |i| {
            const M: [&[u8]; 8] = [
                b"II\x2a\0\x08\0\0\0\0\0",
                b"MM\0\x2a\0\0\0\x08\0\0",
                b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR",
                b"\xff\xd8\xff\xe1\0\x10Exif\0\0",
                b"FUJIFILMCCD-RAW 0201",
                b"\x1a\x45\xdf\xa3\x93\x42\x82\x88matroska\x42\x87\x81\x01",
                b"\0\0\0\x14ftypisom\0\0\0\0isom",
                b"\0\0\0\x08wide\0\0\0\x10mdat",
            ];
            const V: [u8; 12] = [0, 1, 8, 0x10, 0x2a, 0x49, 0x4d, 0x66, 0x80, 0xd8, 0xe1, 0xff];
            let mut m = Mix(i);
            let mut d = m.of(&M).to_vec();
            let (p, q) = (m.d(16), m.d(16));
            let (a, b) = (*m.of(&V), *m.of(&V));
            if p >= q || q >= d.len() {
                return Ok(Stats::default());
            }
            d[p] = a;
            d[q] = b;
            d.extend(filler(200));
            verify("head-words", d, false)
        },
        |i| format!("index {i}"),
    );
    // TIFF: every value of the 16-bit magic for both byte orders
    let magic = Space::new(
        "tiff-magic",
        "both TIFF byte orders x all 65536 magic numbers x 2 directory offsets",
        2 * 65536 * 2,
        |i| {
            let mut m = Mix(i);
            let be = m.b();
            let off = if m.b() { 8u32 } else { 0xffff_fff0 };
            let mg = m.d(65536) as u16;
            let mut d = if be { b"MM".to_vec() } else { b"II".to_vec() };
            d.extend_from_slice(&if be { mg.to_be_bytes() } else { mg.to_le_bytes() });
            d.extend_from_slice(&if be { off.to_be_bytes() } else { off.to_le_bytes() });
            d.extend_from_slice(&[0; 32]);
            verify("tiff-magic", d, mg & 0xff == 0x2a)
        },
        |i| format!("index {i}"),
    );
    vec![cuts, bytes, words, magic]
}

/// The documented verdict of every call on every kind of file.
fn wrong_kind() -> Space {
    let seeds = Arc::new(all());
    let n = seeds.len() as u64;
    let s2 = seeds.clone();
    Space::new(
        "wrong-kind",
        "every corpus file x EXIF, track and metadata call x 7 sources: data exactly where the file has it, otherwise the documented not-found error",
        n,
        move |i| {
            let s = &seeds[i as usize];
            let d: Data = Arc::new(s.data.clone());
            let key = format!("wrong-kind:{}", s.name);
            let motion = s.name.contains("motion");
            let mut st = Stats::default();
            for src in SRCS {
                for api in APIS {
                    let got = parse(&d, src, api);
                    st.note(!got.is_err(), got.fp());
                    let ok = match (s.image, api) {
                        (true, Api::Track) if motion => matches!(got, Out::Track(_)),
                        (true, Api::Track) => got.err() == Some("TrackNotFound"),
                        (false, Api::Track) => matches!(got, Out::Track(_)),
                        (false, _) => got.err() == Some("ExifNotFound"),
                        (true, Api::Exif) if s.has => matches!(got, Out::Exif(_)),
                        (true, Api::Exif) => got.err() == Some("ExifNotFound"),
                        (true, Api::Meta) if s.has => matches!(got, Out::Meta(..)),
                        (true, Api::Meta) => got.err() == Some("ExifNotFound"),
                    };
                    if !ok {
                        return viol(&key, format!("{api:?} from {src:?}: {}", trunc(&format!("{got:?}"), 300)));
                    }
                }
            }
            Ok(st)
        },
        move |i| s2[i as usize].name.clone(),
    )
}

/// Which complaints damage inside a file of a format may give.
fn allowed(name: &str, api: Api) -> &'static [&'static str] {
    const TIFF: &[&str] = &["Malformed(TiffHeader)", "Malformed(IfdEntry)", "Eof"];
    const JPEG: &[&str] = &["Malformed(JpegSegment)", "Malformed(TiffHeader)", "Malformed(IfdEntry)", "Eof", "ExifNotFound", "Io(Unsupported)"];
    const PNG: &[&str] = &["Malformed(PngChunk)", "Malformed(TiffHeader)", "Malformed(IfdEntry)", "Eof", "ExifNotFound", "Io(Unsupported)"];
    const BOX: &[&str] = &["Malformed(IsoBmffBox)", "Malformed(TiffHeader)", "Malformed(IfdEntry)", "Eof", "ExifNotFound", "Io(Unsupported)", "Io(InvalidInput)"];
    const MOV: &[&str] = &["Malformed(IsoBmffBox)", "Eof", "Io(Unsupported)", "Io(InvalidInput)"];
    const MKV: &[&str] = &["Malformed(EbmlElement)", "Eof", "Io(Unsupported)"];
    if api == Api::Track {
        return match name {
            n if n.starts_with("mk") || n.starts_with("webm") => MKV,
            n if n.starts_with("motion") => &["TrackNotFound", "Malformed(IsoBmffBox)", "Malformed(JpegSegment)", "Eof"],
            n if n.starts_with("m") || n.starts_with("3") => MOV,
            _ => &["TrackNotFound"],
        };
    }
    match name {
        n if n.starts_with("tiff") => TIFF,
        n if n.starts_with("jpeg") || n.starts_with("motion") || n.starts_with("raf") => JPEG,
        n if n.starts_with("png") => PNG,
        n if n.starts_with("he") || n.starts_with("av") || n.starts_with("cr3") => BOX,
        _ => &["ExifNotFound"],
    }
}
fn damage(t: Tier) -> Vec<Space> {
    let sm = Arc::new(small());
    let vals: &'static [u8] = t.pick(&[0u8, 0xff, 0x01], &[0, 1, 2, 7, 8, 9, 0x10, 0x7f, 0x80, 0xfe, 0xff]);
    let mut pts = vec![];
    for (k, s) in sm.iter().enumerate() {
        for p in 0..s.data.len() {
            pts.push((k, p));
        }
    }
    let pts = Arc::new(pts);
    let n = pts.len() as u64;
    fn check(key: String, s: &Seed, d: Vec<u8>) -> CaseResult {
        let k = detect(&d);
        let d: Data = Arc::new(d);
        let mut st = Stats::default();
        for api in APIS {
            for src in [Src::Mem, Src::Seek] {
                let got = parse(&d, src, api);
                st.note(!got.is_err(), got.fp());
                let Some(e) = got.err() else {
                    if k == K::No {
                        return viol(key, format!("{api:?}: a result from a file of no supported kind"));
                    }
                    continue;
                };
                let same = k == if s.image { K::Image } else { K::Track };
                let ok = match k {
                    K::No => e == "Unsupported",
                    // documented: a non-PNG file within the detection window
                    _ if e == "Eof" && src == Src::Seek && d.len() <= 128 => true,
                    _ if same => allowed(&s.name, api).contains(&e),
                    // turned into a file of the other kind
                    K::Image => e != "Unsupported" && (api != Api::Track || e == "TrackNotFound"),
                    K::Track => e != "Unsupported" && (api == Api::Track || e == "ExifNotFound"),
                };
                if !ok {
                    return viol(key, format!("{api:?} from {src:?}: verdict {e} on a damaged {} (kind by its head: {k:?})", s.name));
                }
            }
        }
        Ok(st)
    }
    let (s1, s2, p2) = (sm.clone(), sm.clone(), pts.clone());
    let bytes = Space::new(
        "damaged",
        format!("every byte of every small corpus file x {} values: a file that is no longer recognised is unsupported, one that is complains about a structure of its own format, an unexpected end, or not-found", vals.len()),
        n * vals.len() as u64,
        move |i| {
            let mut m = Mix(i);
            let v = *m.of(vals);
            let (k, p) = *m.of(&pts);
            let s = &s1[k];
            let mut d = s.data.clone();
            if d[p] == v {
                return Ok(Stats::default());
            }
            d[p] = v;
            check(format!("damaged:{}@{p}={v}", s.name), s, d)
        },
        move |i| {
            let mut m = Mix(i);
            let v = *m.of(vals);
            let (k, p) = *m.of(&p2);
            format!("{} byte {p} := {v}", s2[k].name)
        },
    );
    let mut cuts = vec![];
    for (k, s) in sm.iter().enumerate() {
        for c in 0..s.data.len() {
            cuts.push((k, c));
        }
    }
    let c2 = cuts.clone();
    let s3 = sm.clone();
    let trunc = Space::new(
        "truncated",
        "every small corpus file cut off at every length",
        cuts.len() as u64,
        move |i| {
            let (k, c) = cuts[i as usize];
            check(format!("truncated:{}@{c}", sm[k].name), &sm[k], sm[k].data[..c].to_vec())
        },
        move |i| {
            let (k, c) = c2[i as usize];
            format!("{} cut at {c}", s3[k].name)
        },
    );
    vec![bytes, trunc]
}

/// One structure broken at a known place: the complaint names that structure.
fn structures() -> Space {
    let t = tiff_le();
    let exif = jseg(0xe1, &exif_payload(&t));
    let bad_tiff = |t: &[u8], at: usize, v: u8| {
        let mut t = t.to_vec();
        t[at] = v;
        t
    };
    let zero_box = |ty: &[u8; 4], n: u32| cat(&[n.to_be_bytes().to_vec(), ty.to_vec(), vec![0; 40]]);
    // the Exif item listed under another number than the one located
    let lost = {
        let mut f = Heif::new().build(&t);
        let at = f.windows(8).position(|w| &w[4..] == b"Exif").unwrap();
        f[at + 1] = 99;
        cat(&[f, filler(100)])
    };
    // (name, file, call, complaint)
    let v: Vec<(&'static str, Vec<u8>, Api, &'static str)> = vec![
        ("jpeg: no marker where a segment should start", cat(&[jfif_file(&[]), vec![0x12, 0x34], exif.clone(), filler(200)]), Api::Exif, "Malformed(JpegSegment)"),
        ("jpeg: segment length 0", cat(&[jfif_file(&[]), vec![0xff, 0xe2, 0, 0], exif.clone(), filler(200)]), Api::Exif, "Malformed(JpegSegment)"),
        ("jpeg: segment length 1", cat(&[jfif_file(&[]), vec![0xff, 0xe2, 0, 1], exif.clone(), filler(200)]), Api::Exif, "Malformed(JpegSegment)"),
        ("jpeg: segment beyond the end", cat(&[jfif_file(&[]), vec![0xff, 0xe2, 0xff, 0xff], filler(200)]), Api::Exif, "Eof"),
        ("jpeg: EXIF segment with a bad TIFF header", jpeg(&[jseg(0xe1, &exif_payload(&bad_tiff(&t, 2, 0x55)))], &filler(200)), Api::Exif, "Malformed(TiffHeader)"),
        ("jpeg: EXIF segment with a bad byte order", jpeg(&[jseg(0xe1, &exif_payload(&bad_tiff(&t, 0, 0x55)))], &filler(200)), Api::Exif, "Malformed(TiffHeader)"),
        ("jpeg: no EXIF before the scan", jpeg(&[jfif()], &filler(200)), Api::Exif, "ExifNotFound"),
        ("png: chunk beyond the end", cat(&[PNG_SIG.to_vec(), ihdr(), 9999u32.to_be_bytes().to_vec(), b"IDAT".to_vec(), filler(200)]), Api::Exif, "Eof"),
        ("png: eXIf with a bad TIFF header", png(&[chunk(b"eXIf", &bad_tiff(&t, 2, 0x55)), chunk(b"IDAT", &filler(200))]), Api::Exif, "Malformed(TiffHeader)"),
        ("png: no EXIF", png(&[chunk(b"IDAT", &filler(200))]), Api::Exif, "ExifNotFound"),
        ("heic: box of size 4", cat(&[ftyp(b"heic", &[b"mif1"]), zero_box(b"meta", 4), filler(200)]), Api::Exif, "Malformed(IsoBmffBox)"),
        ("heic: no meta box", cat(&[ftyp(b"heic", &[b"mif1"]), free(200)]), Api::Exif, "ExifNotFound"),
        ("heic: Exif item without a location", lost, Api::Exif, "Malformed(IsoBmffBox)"),
        ("heic: no Exif item", Heif { with_exif: false, ..Heif::new() }.build(&t), Api::Exif, "ExifNotFound"),
        ("cr3: box of size 4", cat(&[ftyp(b"crx ", &[b"isom"]), zero_box(b"moov", 4), filler(200)]), Api::Exif, "Malformed(IsoBmffBox)"),
        ("mp4: box of size 4", cat(&[ftyp(b"isom", &[b"mp42"]), zero_box(b"moov", 4), filler(200)]), Api::Track, "Malformed(IsoBmffBox)"),
        ("mp4: no moov box", cat(&[ftyp(b"isom", &[b"mp42"]), free(200)]), Api::Track, "Eof"),
        ("mp4: moov beyond the end", cat(&[ftyp(b"isom", &[b"mp42"]), 9999u32.to_be_bytes().to_vec(), b"moov".to_vec(), filler(200)]), Api::Track, "Eof"),
        ("mp4: 64-bit size too small", cat(&[ftyp(b"isom", &[b"mp42"]), vec![0, 0, 0, 1], b"free".to_vec(), 15u64.to_be_bytes().to_vec(), filler(200)]), Api::Track, "Malformed(IsoBmffBox)"),
        ("mkv: no segment behind the head", cat(&[ebml_head("matroska"), void(200)]), Api::Track, "Malformed(EbmlElement)"),
        ("mkv: invalid element size in the segment", cat(&[ebml_head("matroska"), eid(0x18538067), vint(400, 4), vec![0xEC, 0x00, 0x00], filler(400)]), Api::Track, "Malformed(EbmlElement)"),
        ("mkv: element beyond the end", cat(&[ebml_head("matroska"), eid(0x18538067), vint(400, 4), eid(0x1549A966), vint(5000, 4), filler(200)]), Api::Track, "Eof"),
        ("raf: EXIF with a bad TIFF header", raf(&jpeg_with_exif(&bad_tiff(&t, 2, 0x55)), 10, b"X"), Api::Exif, "Malformed(TiffHeader)"),
        ("raf: preview is no JPEG", raf(&filler(300), 10, b"X"), Api::Exif, "Malformed(JpegSegment)"),
        ("tiff: directory beyond the end", cat(&[b"II\x2a\0\xf0\xf0\0\0".to_vec(), filler(200)]), Api::Exif, "Eof"),
    ];
    fn kinds_differ() -> bool {
        use MalformedKind::*;
        let t: std::collections::HashSet<String> = [JpegSegment, TiffHeader, IfdEntry, IsoBmffBox, EbmlElement, PngChunk].iter().map(|k| k.to_string()).collect();
        t.len() == 6
    }
    fn jfif_file(_: &[u8]) -> Vec<u8> {
        cat(&[vec![0xff, 0xd8], jfif()])
    }
    let v2: Vec<String> = v.iter().map(|x| x.0.to_string()).collect();
    Space::new(
        "structures",
        "one structure of a format broken at a known place: the complaint names that structure, from every source",
        v.len() as u64,
        move |i| {
            let (name, f, api, want) = &v[i as usize];
            let d: Data = Arc::new(f.clone());
            let mut st = Stats::default();
            for src in SRCS {
                let got = parse(&d, src, *api);
                st.note(true, got.fp());
                if got.err() != Some(want) {
                    return viol(format!("structures:{name}"), format!("{name}: {src:?} says {} instead of {want}", trunc(&format!("{got:?}"), 200)));
                }
            }
            // the text of the error says the same
            if let Ok(ms) = MediaSource::from_memory(f.clone()) {
                let mut p = MediaParser::new();
                let e = match api {
                    Api::Exif => p.parse_exif(ms).err(),
                    Api::Track => p.parse_track(ms).err(),
                    Api::Meta => p.parse_image_metadata(ms).err(),
                };
                let text = e.as_ref().map(|e| e.to_string()).unwrap_or_default();
                let says = match &e {
                    Some(Error::Malformed { kind, message }) => text.contains(&kind.to_string()) && text.contains(message.as_str()) && !kind.to_string().is_empty() && kinds_differ(),
                    Some(Error::UnexpectedEof { context }) => text.contains(context),
                    _ => !text.is_empty(),
                };
                if !says {
                    return viol(format!("structures:{name}"), format!("{name}: the error {e:?} reads {text:?}"));
                }
            }
            Ok(st)
        },
        move |i| v2[i as usize].clone(),
    )
}

pub fn spaces(t: Tier) -> Spec {
    let mut v = brands(t);
    v.push(ebml_heads());
    v.extend(heads(t));
    v.push(wrong_kind());
    v.extend(damage(t));
    v.push(structures());
    (
        "exploration",
        v,
        vec!["detection looks at the first 128 bytes: file-type boxes and EBML heads that do not end there are outside the property"],
    )
}
